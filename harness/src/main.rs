//! Runtime monitors for mqtt-bytes-v5: one binary per string configuration.
//!
//!   mqttmon run  --prop C01 --seed 1 --tier quick --out part.json --dir progress/
//!   mqttmon case --prop C01 --seed 1 --tier quick --case 'valid/random:17'
//!
//! Exit 0: held. 1: violation. 3: error of the harness.

mod alloc;
mod bridge;
mod ctx;
mod gen;
mod hostile;
mod model;
mod mons_dec;
mod mons_enc;
mod mons_res;
mod refcodec;
mod rng;
mod tables;

use ctx::{hex_all, jstr, Ctx, Fam};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn families(prop: &str, t: bool, scale: u64) -> Vec<Fam> {
    use {mons_dec as d, mons_enc as e, mons_res as r};
    match prop {
        "C01" => e::c01_fams(t, scale),
        "C02" => e::c02_fams(t, scale),
        "C03" => e::c03_fams(t, scale),
        "C04" => e::c04_fams(t, scale),
        "C05" => e::c05_fams(t, scale),
        "C06" => d::c06_fams(t, scale),
        "C07" => d::c07_fams(t, scale),
        "C08" => d::c08_fams(t, scale),
        "C09" => d::c09_fams(t, scale),
        "C10" => d::c10_fams(t, scale),
        "C11" => d::c11_fams(t, scale),
        "C12" => r::c12_fams(t, scale),
        "C13" => d::c13_fams(t, scale),
        "C14" => r::c14_fams(t, scale),
        "C15" => r::c15_fams(t, scale),
        "C16" => e::c16_fams(t, scale),
        "C17" => d::c17_fams(t, scale),
        "C18" if cfg!(miri) => r::c18_miri_fams(scale),
        "C18" => r::c18_fams(t, scale),
        "C19" => r::c19_fams(t, scale),
        "C20" => d::c20_fams(t, scale),
        "C21" => d::c21_fams(t, scale),
        "C22" => e::c22_fams(t, scale),
        "C23" => e::c23_fams(t, scale),
        _ => {
            eprintln!("HARNESS-ERROR unknown property {prop}");
            std::process::exit(3);
        }
    }
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k, &d.to_string()).parse().unwrap_or_else(|_| {
            eprintln!("HARNESS-ERROR bad number for --{k}");
            std::process::exit(3)
        })
    }
}

fn main() {
    let mut argv = std::env::args().skip(1);
    let cmd = argv.next().unwrap_or_default();
    let mut a = BTreeMap::new();
    while let Some(k) = argv.next() {
        if let (Some(k), Some(v)) = (k.strip_prefix("--"), argv.next()) {
            a.insert(k.to_string(), v);
        }
    }
    let a = Args(a);
    ctx::install_hook();
    match cmd.as_str() {
        "run" => run(&a),
        // On a thread like the workers of a run: the same stack.
        "case" => {
            if std::thread::spawn(move || case(&a)).join().is_err() {
                std::process::exit(3);
            }
        }
        "list" => {
            let t = a.get("tier", "quick") == "thorough";
            let mut n = 0;
            for f in families(&a.get("prop", "C01"), t, a.num("scale", 100)) {
                println!("{:8} {}", f.count, f.name);
                n += f.count;
            }
            println!("{n:8} total");
        }
        _ => {
            eprintln!("HARNESS-ERROR usage: mqttmon run|case|list --prop ID ...");
            std::process::exit(3);
        }
    }
}

fn case(a: &Args) {
    let t = a.get("tier", "quick") == "thorough";
    let spec = a.get("case", "");
    let Some((name, idx)) = spec.rsplit_once(':') else {
        eprintln!("HARNESS-ERROR --case family:index");
        std::process::exit(3);
    };
    let idx: u64 = idx.parse().unwrap_or(0);
    let fams = families(&a.get("prop", ""), t, a.num("scale", 100));
    let Some(f) = fams.iter().find(|f| f.name == name) else {
        eprintln!("HARNESS-ERROR no family {name}");
        std::process::exit(3);
    };
    let mut c = Ctx::new(a.num("seed", 1));
    c.family = f.name.clone();
    c.index = idx;
    c.verbose = true;
    c.want_sample = true;
    println!("case {spec} of {} in configuration {}", a.get("prop", ""), bridge::CONFIG);
    (f.run)(&mut c, idx);
    for s in &c.samples {
        println!("  input {s}");
    }
    println!("  digest {:016x} {:016x}", c.digest.0, c.digest.1);
    for (k, n) in &c.counters {
        println!("  {n} {k}");
    }
    if c.violations.is_empty() {
        println!("  held");
    } else {
        for v in &c.violations {
            println!("  VIOLATED {}: {}", v.what, v.detail);
            println!("  bytes {}", hex_all(&v.input));
        }
        std::process::exit(1);
    }
}

fn run(a: &Args) {
    let t0 = Instant::now();
    let prop = a.get("prop", "");
    let thorough = a.get("tier", "quick") == "thorough";
    let seed = a.num("seed", 1);
    let threads = a.num("threads", 2) as usize;
    let budget = a.num("budget", 300);
    let dir = a.get("dir", "");
    let only = a.get("only", "");
    let mut fams = families(&prop, thorough, a.num("scale", 100));
    if !only.is_empty() {
        fams.retain(|f| f.name.starts_with(&only));
    }
    let want_digests = prop == "C14";
    let mut starts = Vec::new();
    let mut total = 0u64;
    for f in &fams {
        starts.push(total);
        total += f.count;
    }
    let digests: Vec<(AtomicU64, AtomicU64)> = if want_digests {
        (0..total).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect()
    } else {
        Vec::new()
    };
    let next = AtomicU64::new(0);
    let done_cases = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let broken = AtomicBool::new(false);
    // Per worker: (sequence, family, index), for the watchdog and for a post mortem.
    let slots: Arc<Vec<[AtomicU64; 3]>> =
        Arc::new((0..threads).map(|_| std::array::from_fn(|_| AtomicU64::new(0))).collect());
    let tids: Arc<Mutex<Vec<u64>>> = Arc::new(Mutex::new(vec![0; threads]));
    if !cfg!(miri) {
        watchdog(&prop, slots.clone(), tids.clone(), fams.iter().map(|f| f.name.clone()).collect(), a.num("hang", 60));
    }
    let chunk = if cfg!(miri) { 4 } else { 64 };
    let fams = &fams;
    let starts = &starts;
    let digests = &digests;
    let (next, done_cases, stop, broken) = (&next, &done_cases, &stop, &broken);
    let dir = &dir;
    let mut merged = Ctx::new(seed);
    let parts: Vec<(Ctx, Vec<u64>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|w| {
                let slots = slots.clone();
                let tids = tids.clone();
                sc.spawn(move || {
                    if !cfg!(miri) {
                        if let Ok(p) = std::fs::read_link("/proc/thread-self") {
                            let t = p.file_name().and_then(|x| x.to_str()).and_then(|x| x.parse().ok());
                            tids.lock().unwrap()[w] = t.unwrap_or(0);
                        }
                    }
                    let file = if dir.is_empty() {
                        None
                    } else {
                        std::fs::File::create(format!("{dir}/{}.{w}", bridge::CONFIG)).ok()
                    };
                    let mut c = Ctx::new(seed);
                    let mut per_fam = vec![0u64; fams.len()];
                    let mut fi = usize::MAX;
                    loop {
                        let at = next.fetch_add(chunk, Relaxed);
                        if at >= total || stop.load(Relaxed) {
                            break;
                        }
                        if t0.elapsed().as_secs() > budget {
                            stop.store(true, Relaxed);
                            break;
                        }
                        for k in at..(at + chunk).min(total) {
                            let f = starts.partition_point(|s| *s <= k) - 1;
                            // families may be empty: take the last with this start
                            let i = k - starts[f];
                            if f != fi {
                                fi = f;
                                c.family = fams[f].name.clone();
                                c.want_sample = i < 64;
                            } else if i % 4099 == 17 {
                                c.want_sample = true;
                            }
                            c.index = i;
                            c.digest = (0, 0);
                            slots[w][1].store(f as u64, Relaxed);
                            slots[w][2].store(i, Relaxed);
                            slots[w][0].fetch_add(1, Relaxed);
                            if let Some(file) = &file {
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(f as u64).to_le_bytes());
                                b[8..].copy_from_slice(&i.to_le_bytes());
                                let _ = file.write_at(&b, 0);
                            }
                            ctx::WORKER.with(|x| x.set(true));
                            let r = catch_unwind(AssertUnwindSafe(|| (fams[f].run)(&mut c, i)));
                            ctx::WORKER.with(|x| x.set(false));
                            if r.is_err() {
                                // No verdict, unless a violation was seen before.
                                broken.store(true, Relaxed);
                                stop.store(true, Relaxed);
                                break;
                            }
                            per_fam[f] += 1;
                            if want_digests {
                                digests[k as usize].0.store(c.digest.0, Relaxed);
                                digests[k as usize].1.store(c.digest.1, Relaxed);
                            }
                        }
                        done_cases.fetch_add((at + chunk).min(total) - at, Relaxed);
                        if c.violations.len() >= 40 {
                            stop.store(true, Relaxed);
                        }
                    }
                    if let Some(file) = &file {
                        let _ = file.write_at(&[0xFF; 16], 0);
                    }
                    slots[w][0].store(u64::MAX, Relaxed);
                    (c, per_fam)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    let mut per_fam = vec![0u64; fams.len()];
    for (c, p) in parts {
        merged.merge(c);
        for (x, y) in per_fam.iter_mut().zip(p) {
            *x += y;
        }
    }
    let mut j = String::from("{");
    j += &format!("\"config\":{},", jstr(bridge::CONFIG));
    j += &format!("\"cases\":{},\"cases_planned\":{total},", per_fam.iter().sum::<u64>());
    j += &format!("\"evaluations\":{},\"distinct\":{},", merged.evals, merged.distinct.len());
    j += &format!("\"suppressed\":{},\"wall_s\":{:.2},", merged.suppressed, t0.elapsed().as_secs_f64());
    j += "\"counters\":{";
    j += &merged.counters.iter().map(|(k, n)| format!("{}:{n}", jstr(k))).collect::<Vec<_>>().join(",");
    j += "},\"families\":{";
    j += &fams
        .iter()
        .zip(&per_fam)
        .map(|(f, n)| format!("{}:[{n},{}]", jstr(&f.name), f.count))
        .collect::<Vec<_>>()
        .join(",");
    j += "},\"known\":{";
    j += &merged.known.iter().map(|(k, n)| format!("{}:{n}", jstr(k))).collect::<Vec<_>>().join(",");
    j += "},\"samples\":[";
    let mut s = merged.samples.clone();
    s.sort();
    j += &s.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",");
    j += "],\"violations\":[";
    j += &merged
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"family\":{},\"index\":{},\"what\":{},\"detail\":{},\"input\":{}}}",
                jstr(&v.family),
                v.index,
                jstr(&v.what),
                jstr(&v.detail),
                jstr(&hex_all(&v.input))
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    j += "]}\n";
    let out = a.get("out", "");
    if out.is_empty() {
        print!("{j}");
    } else if let Err(e) = std::fs::write(&out, &j) {
        eprintln!("HARNESS-ERROR {out}: {e}");
        std::process::exit(3);
    }
    if want_digests && !out.is_empty() {
        let mut b = Vec::with_capacity(digests.len() * 16);
        for d in digests {
            b.extend_from_slice(&d.0.load(Relaxed).to_le_bytes());
            b.extend_from_slice(&d.1.load(Relaxed).to_le_bytes());
        }
        if let Err(e) = std::fs::write(format!("{out}.digests"), &b) {
            eprintln!("HARNESS-ERROR {out}.digests: {e}");
            std::process::exit(3);
        }
    }
    let _ = std::io::stdout().flush();
    if broken.load(Relaxed) && merged.violations.is_empty() {
        std::process::exit(3);
    }
    std::process::exit(i32::from(!merged.violations.is_empty()));
}

/// Ends the process with a report if one case takes more than `hang` seconds
/// of processor time: a decoder that loops for ever would.
fn watchdog(prop: &str, slots: Arc<Vec<[AtomicU64; 3]>>, tids: Arc<Mutex<Vec<u64>>>, names: Vec<String>, hang: u64) {
    let prop = prop.to_string();
    std::thread::spawn(move || {
        let n = slots.len();
        let mut last = vec![(0u64, 0u64); n];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for w in 0..n {
                let seq = slots[w][0].load(Relaxed);
                if seq == u64::MAX {
                    continue;
                }
                let tid = tids.lock().unwrap()[w];
                let cpu = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat"))
                    .ok()
                    .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<u64>().ok()))
                    .unwrap_or(0);
                if seq != last[w].0 {
                    last[w] = (seq, cpu);
                } else if cpu.saturating_sub(last[w].1) > hang * 1_000_000_000 {
                    let f = &names[slots[w][1].load(Relaxed) as usize];
                    println!("HANG {prop} {f}:{}", slots[w][2].load(Relaxed));
                    let _ = std::io::stdout().flush();
                    std::process::exit(4);
                }
            }
        }
    });
}
