//! Monitors of resources, purity and configurations: C12 C14 C15 C18 C19.

use crate::alloc;
use crate::bridge::*;
use crate::ctx::*;
use crate::gen::*;
use crate::hostile;
use crate::model::*;
use crate::mons_dec::{c13_check_text, err_kind};
use crate::mons_enc::{mfp, on_hostile, on_valid, tick};
use crate::refcodec::{self as rc, Form, Framing, Verdict};
use crate::rng::{fnv, Rng};
use bytes::{Buf, Bytes, BytesMut};
use mqtt_bytes_v5::*;

// --------------------------------------------------------------------- C12

/// Limits of the resource monitor, in terms of the bytes in the buffer: what
/// is requested from the allocator in total, and what is held at once.
const TOTAL_PER_BYTE: u64 = 256;
const TOTAL_BASE: u64 = 4096;
const CALLS_PER_BYTE: u64 = 2;
const CALLS_BASE: u64 = 64;
/// While a frame is incomplete nothing is set aside for what it declares.
const WAIT_TOTAL: u64 = 1024;

fn c12(c: &mut Ctx, s: &[u8]) {
    let mut b = BytesMut::from(s);
    let mut held: Vec<Packet> = Vec::with_capacity(s.len() + 1);
    c.eval(fnv(12, s));
    loop {
        let n = b.len() as u64;
        let w = alloc::window();
        let Some(r) = c.cut("read", s, || Packet::read(&mut b, None)) else { return };
        let u = alloc::since(w);
        c.count("reads measured");
        let frame = n - b.len() as u64;
        match r {
            Err(Error::InsufficientBytes(k)) => {
                c.count("waits measured");
                c.max("max bytes declared by an incomplete frame", k as u64);
                c.max("max allocated while waiting", u.total);
                c.check(u.total <= WAIT_TOTAL, "reserves-early", s, || {
                    format!("{} bytes allocated for a frame of which {n} bytes are there", u.total)
                });
                break;
            }
            r => {
                let total = TOTAL_PER_BYTE * frame + TOTAL_BASE;
                let calls = CALLS_PER_BYTE * frame + CALLS_BASE;
                c.max("max allocated per frame", u.total);
                if frame > 64 {
                    c.max("max allocated per 1000 frame bytes", u.total * 1000 / frame);
                    c.max("max live per 1000 frame bytes", u.live.max(0) as u64 * 1000 / frame);
                    c.max("max allocator calls per 1000 frame bytes", u.calls * 1000 / frame);
                }
                c.check(u.total <= total, "allocates", s, || {
                    format!("{} bytes allocated for a frame of {frame} bytes: {}", u.total, name(&r))
                });
                c.check(u.calls <= calls, "allocator-calls", s, || {
                    format!("{} allocator calls for a frame of {frame} bytes: {}", u.calls, name(&r))
                });
                match r {
                    Ok(p) => held.push(p),
                    Err(_) if frame > 0 => {
                        // a refused packet leaves nothing behind
                        c.check(u.live <= 1024, "left-behind", s, || {
                            format!("{} bytes still allocated after a refused packet", u.live)
                        });
                    }
                    Err(_) => break,
                }
                if frame == 0 {
                    break;
                }
            }
        }
        if b.is_empty() {
            break;
        }
    }
    c.sample(|| format!("{} bytes: {}", s.len(), hex(&s[..s.len().min(24)])));
}

fn name(r: &Result<Packet, Error>) -> String {
    match r {
        Ok(p) => format!("accepted {}", type_name(from_packet(p).ty)),
        Err(e) => format!("{e:?}"),
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
pub fn cpu_ns() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: 3 is CLOCK_THREAD_CPUTIME_ID on Linux; t is a valid timespec.
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

/// Work grows in proportion to the input: processor time of a frame and of
/// one sixteen times as long (a quadratic step would take 256 times as long).
fn c12_time(c: &mut Ctx, i: u64) {
    if cfg!(miri) {
        return;
    }
    let mut rng = c.rng();
    let kind = [0u64, 1, 2, 3, 4, 5, 9, 10][(i % 8) as usize] + 12 * (i / 8);
    let small = 20_000;
    let once = |s: &[u8]| -> u64 {
        let b0 = BytesMut::from(s);
        let mut best = u64::MAX;
        for _ in 0..7 {
            let mut b = b0.clone();
            let t = cpu_ns();
            let r = guarded(|| loop {
                let n = b.len();
                let r = Packet::read(&mut b, None);
                if b.is_empty() || b.len() == n {
                    break r.is_ok();
                }
            });
            std::hint::black_box(&r);
            best = best.min(cpu_ns() - t);
        }
        best
    };
    let a = hostile::bomb(&mut rng.clone(), kind, small);
    let b = hostile::bomb(&mut rng.clone(), kind, small * 16);
    let _ = rng.u64();
    let (ta, tb) = (once(&a).max(2_000), once(&b));
    c.eval(fnv(1212 + i, &a[..a.len().min(64)]));
    c.count("time ratios measured");
    let r100 = tb * 100 / ta;
    c.max("max time ratio for 16 times the input, times 100", r100);
    c.sample(|| format!("kind {kind}: {} bytes {ta} ns, {} bytes {tb} ns", a.len(), b.len()));
    if r100 > 10_000 {
        // measure again before believing it
        let (ta, tb) = (once(&a).max(2_000), once(&b));
        c.check(tb < ta * 100, "superlinear", &a, || {
            format!("{} bytes take {ta} ns, {} bytes take {tb} ns", a.len(), b.len())
        });
    }
}

/// A packet whose size is in one repeated or long part, `n` units of it.
fn c12_long(kind: usize, n: usize) -> Option<(String, M)> {
    let txt = |i: usize, w: usize| format!("{i:0w$}").into_bytes();
    let s = SECTIONS[kind % 13];
    if kind < 39 {
        let mut m = host(s);
        let ps = props_mut(&mut m, s);
        ps.retain(|p| p.0 != 0x26);
        ps.extend((0..n).map(|i| {
            let (k, v) = match kind / 13 {
                0 => (b"k".to_vec(), b"v".to_vec()),
                1 => (txt(i, 8), b"v".to_vec()),
                _ => (b"k".to_vec(), txt(n - i, 8)),
            };
            (0x26, PV::Pair(k, v))
        }));
        return Some((format!("{} user properties, form {}", type_name(s), kind / 13), m));
    }
    let f = |i: usize, same: bool| Filt { path: if same { b"a".to_vec() } else { txt(i, 6) }, ..Filt::default() };
    let mut m;
    let what = match kind - 39 {
        k @ (0 | 1) => {
            m = host(SUBSCRIBE);
            m.filters = (0..n).map(|i| f(i, k == 1)).collect();
            "filters"
        }
        k @ (2 | 3) => {
            m = host(UNSUBSCRIBE);
            m.filters = (0..n).map(|i| f(i, k == 3)).collect();
            "filters"
        }
        4 => {
            m = host(SUBACK);
            m.codes = (0..n).map(|i| reason_codes(SUBACK)[i % 3]).collect();
            "codes"
        }
        5 => {
            m = host(UNSUBACK);
            m.codes = (0..n).map(|i| reason_codes(UNSUBACK)[i % 3]).collect();
            "codes"
        }
        k @ (6 | 7) => {
            m = host(PUBLISH);
            m.props = (0..n).map(|i| (0x0B, PV::Var(if k == 6 { i as u32 + 1 } else { 7 }))).collect();
            "subscription identifiers"
        }
        8 => {
            m = host(PUBLISH);
            m.payload = vec![b'p'; n * 8];
            "payload"
        }
        k => {
            let sl = slots();
            let k = k - 9;
            let s = *sl.get(k / 2)?;
            // 65 kB at most; two-byte characters in the second form
            let len = (n * 2).min(64_000);
            let v = if k % 2 == 0 { vec![b't'; len] } else { "\u{e9}".repeat(len / 2).into_bytes() };
            m = s.put(v);
            return Some((format!("{s:?} form {}", k % 2), m));
        }
    };
    Some((format!("{} {what} {kind}", type_name(m.ty)), m))
}

/// Reading, writing and measuring one packet with very many items of a kind
/// takes in proportion the time of one with a thirty-second of them.
fn c12_items(c: &mut Ctx, i: u64) {
    if cfg!(miri) {
        return;
    }
    const K: usize = 32;
    let n = 1000;
    let Some((what, small)) = c12_long(i as usize, n) else { return };
    let (_, large) = c12_long(i as usize, n * K).unwrap();
    let (small, large) = (small.norm(), large.norm());
    let time = |m: &M, op: usize, reps: usize| -> u64 {
        let w = rc::encode(m, &Form { shuffle: None, explicit: 2 });
        let p = to_packet(m, false);
        let mut best = u64::MAX;
        for _ in 0..reps {
            let mut b = BytesMut::from(&w[..]);
            let mut out = BytesMut::with_capacity(w.len() + 64);
            let t = cpu_ns();
            let r = guarded(|| match op {
                0 => Packet::read(&mut b, None).map(|p| std::hint::black_box(p)).is_ok(),
                1 => p.write(&mut out).is_ok(),
                2 => typed_write(&p, &mut out).is_ok(),
                _ => size_of(&p).is_some(),
            });
            best = best.min(cpu_ns() - t);
            std::hint::black_box(&r);
        }
        best
    };
    c.eval(fnv(121_212, &i.to_le_bytes()));
    for op in 0..4 {
        let (ta, tb) = (time(&small, op, 5).max(2_000), time(&large, op, 2));
        c.count("time ratios of item counts measured");
        c.max("max time ratio for 32 times the items, times 100", tb * 100 / ta);
        c.sample(|| format!("{what}: {n} items {ta} ns, {} items {tb} ns", n * K));
        let limit = 10 * K as u64;
        if tb > ta * limit {
            // measure again, longer, before believing it
            let (ta, tb) = (time(&small, op, 20).max(2_000), time(&large, op, 3));
            let name = ["reading", "writing", "writing (typed)", "measuring"][op];
            c.check(tb < ta * limit, "superlinear", &[], || {
                format!("{name} {what}: {n} items take {ta} ns, {} take {tb} ns", n * K)
            });
        }
    }
}

/// The work for a frame does not depend on what else the buffer holds: the
/// frames behind it, the part that has arrived of one still incomplete, the
/// output written before.
fn c12_place(c: &mut Ctx, i: u64) {
    if cfg!(miri) {
        return;
    }
    const SMALL: usize = 1 << 10;
    const LARGE: usize = 12 << 20;
    let ty = TYPES[i as usize % TYPES.len()];
    let op = i as usize / TYPES.len();
    let m = host(ty);
    let w = rc::encode(&m, &Form { shuffle: None, explicit: 2 });
    let p = to_packet(&m, false);
    let time = |n: usize, reps: usize| -> u64 {
        let mut v = Vec::with_capacity(n + w.len() + 4096);
        match op {
            // a frame in front of many others; one and two at a time
            0 | 1 => {
                v.extend_from_slice(&w);
                while v.len() < n {
                    v.extend_from_slice(if op == 0 { &w } else { &[0xC0, 0] });
                }
            }
            // of a frame announced as 200 MB, n bytes are there
            2 | 3 => {
                v.push(w[0]);
                rc::put_varint(&mut v, 200_000_000);
                v.extend_from_slice(&w[2..]);
                v.resize(n, 0x20);
            }
            // written behind others
            _ => v.resize(n, 0x55),
        }
        let mut best = u64::MAX;
        let mut b = BytesMut::with_capacity(v.len() + 4096 * (reps + 1));
        b.extend_from_slice(&v);
        for _ in 0..reps {
            let t = cpu_ns();
            let r = guarded(|| match op {
                0..=2 => Packet::read(&mut b, if op == 2 { Some(usize::MAX) } else { None }).map(|p| {
                    std::hint::black_box(p);
                }),
                3 => check(b.iter(), None).map(|_| ()),
                4 => p.write(&mut b).map(|_| ()),
                _ => typed_write(&p, &mut b).map(|_| ()),
            });
            best = best.min(cpu_ns() - t);
            std::hint::black_box(&r);
        }
        best
    };
    c.eval(fnv(121_213, &i.to_le_bytes()));
    let fine = |ta: u64, tb: u64| tb < ta * 20 + 150_000;
    let (ta, tb) = (time(SMALL, 8).max(200), time(LARGE, 8));
    c.count("times beside much other content measured");
    c.max("max nanoseconds beside 12 MB of other content", tb);
    if !fine(ta, tb) {
        let (ta, tb) = (time(SMALL, 30).max(200), time(LARGE, 30));
        let name = ["reading before frames like it", "reading before pings", "waiting", "checking", "writing", "writing (typed)"][op];
        c.check(fine(ta, tb), "time-of-others", &w, || {
            format!("{name}: {ta} ns beside {SMALL} bytes, {tb} ns beside {LARGE} bytes")
        });
    }
}

/// After many packets have come and gone, nothing of them is left.
fn c12_gone(c: &mut Ctx, i: u64) {
    if cfg!(miri) {
        return;
    }
    let mut rng = c.rng();
    let ty = TYPES[(i / 3) as usize % TYPES.len()];
    const N: usize = 400;
    let work = |c: &mut Ctx, rng: &mut Rng, warm: bool| {
        for _ in 0..if warm { 8 } else { N } {
            match i % 3 {
                0 | 1 => {
                    let s = if i % 3 == 0 {
                        let f = hostile::moderate_frame(rng, ty);
                        let o = hostile::moderate_frame(rng, ty);
                        hostile::mutate(rng, f, &o)
                    } else {
                        hostile::moderate_frame(rng, ty)
                    };
                    let mut b = BytesMut::from(&s[..]);
                    let r = guarded(|| Packet::read(&mut b, None));
                    c.count(match r {
                        Ok(Ok(_)) => "accepted, dropped",
                        Ok(Err(_)) => "refused, dropped",
                        Err(_) => "panicked",
                    });
                }
                _ => {
                    let mut m = random_model(rng, ty).norm();
                    if rng.bool() {
                        let sl = slots();
                        m = rng.pick(&sl).put(vec![b'x'; 65_536]);
                    }
                    let p = to_packet(&m, false);
                    let mut b = BytesMut::new();
                    let r = guarded(|| p.write(&mut b));
                    c.count(if matches!(r, Ok(Ok(_))) { "written, dropped" } else { "not written, dropped" });
                }
            }
        }
    };
    work(c, &mut rng, true);
    let before = alloc::now().live;
    work(c, &mut rng, false);
    let left = alloc::now().live - before;
    c.eval(fnv(121_214, &i.to_le_bytes()));
    c.max("max bytes left after 400 packets", left.max(0) as u64);
    c.check(left <= 8192, "left-behind", &[], || {
        format!("{left} bytes are still allocated after {N} packets of {} have come and gone", type_name(ty))
    });
}

/// Encoding: allocations in proportion to the packet.
fn c12_write(c: &mut Ctx, _rng: &mut Rng, m: &M) {
    let p = to_packet(m, false);
    let mut b = BytesMut::new();
    let w = alloc::window();
    let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
    let u = alloc::since(w);
    let n = b.len() as u64;
    c.count("writes measured");
    if n > 64 {
        c.max("max allocated per 1000 bytes written", u.total * 1000 / n);
    }
    c.check(r.is_ok() && u.total <= 16 * n + 1024, "write-allocates", &b.clone(), || {
        format!("{} bytes allocated writing {n} bytes: {}", u.total, m.brief())
    });
    let s = b.to_vec();
    c12(c, &s);
}

/// Headers that announce anything up to 256 MB.
fn c12_announce(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let mut s = vec![*rng.pick(&[0x10u8, 0x20, 0x30, 0x32, 0x3D, 0x40, 0x82, 0x90, 0xA2, 0xB0, 0xE0])];
    let v = if i % 2 == 0 { MAX_REMAINING - rng.below(1000) } else { 1usize << rng.range(10, 27) };
    rc::put_varint(&mut s, v);
    let n = rng.below(60);
    let body = rc::body(&host(*rng.pick(&TYPES)), &Form { shuffle: None, explicit: 2 });
    s.extend(body.iter().take(n));
    c12(c, &s);
}

pub fn c12_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, scale.min(40), c12_write);
    on_hostile(&mut v, t, scale.min(80), |c, _, s| c12(c, s));
    v.push(fam("announced", if t { 500_000 } else { 10_000 }, c12_announce));
    v.push(fam("time", if t { 8 * 13 } else { 8 * 3 }, c12_time));
    v.push(fam("time-items", 48 + 2 * slots().len() as u64, c12_items));
    v.push(fam("time-place", 6 * TYPES.len() as u64, c12_place));
    v.push(fam("gone", 3 * TYPES.len() as u64 * if t { 60 } else { 4 }, c12_gone));
    v
}

// --------------------------------------------------------------------- C14

/// Outcome of a case as two digests: one for configurations whose strings are
/// text, one also for raw strings (where the difference by design is left out).
fn put(c: &mut Ctx, full: u64, reduced: u64) {
    c.digest.0 = fnv(c.digest.0, &full.to_le_bytes());
    c.digest.1 = fnv(c.digest.1, &reduced.to_le_bytes());
}

fn c14_stream(c: &mut Ctx, s: &[u8]) {
    let mut b = BytesMut::from(s);
    c.eval(fnv(14, s));
    loop {
        let before = b.clone();
        let r = guarded(|| Packet::read(&mut b, None));
        let frame = &before[..before.len() - b.len().min(before.len())];
        let (full, coarse) = match &r {
            Err(_) => (1, 1),
            Ok(Ok(p)) => {
                let m = mfp(&from_packet(p));
                c.count("accepted");
                (m, m)
            }
            Ok(Err(e)) => {
                c.count(err_kind(e));
                (fnv(3, format!("{e:?}").as_bytes()), fnv(4, format!("{}", frame.len()).as_bytes()))
            }
        };
        // Raw strings skip one check: only bytes from 0x80 on can tell.
        let ascii = frame.iter().all(|x| *x < 0x80) || frame.is_empty();
        let same = frame.is_empty() || ascii || {
            let (a, z) = (rc::judge(frame, true), rc::judge(frame, false));
            // Ill-formed text and nothing else: refused as text, delivered raw.
            if let (Verdict::Bad(_), Verdict::Good(y, 0)) = (&a, &z) {
                c.count("frames whose only fault is ill-formed text");
                let fine = match &r {
                    Ok(Ok(p)) => !TEXT && from_packet(p) == *y,
                    Ok(Err(e)) => TEXT && !matches!(e, Error::InsufficientBytes(_)),
                    Err(_) => false,
                };
                c.check(fine, "raw-text", frame, || {
                    format!("only its text is ill-formed: {}", match &r {
                        Ok(Ok(p)) => format!("{p:?}"),
                        Ok(Err(e)) => format!("{e:?}"),
                        Err(e) => e.clone(),
                    })
                });
            }
            match (&a, &z) {
                (Verdict::Good(x, _), Verdict::Good(y, q)) => x == y && *q & rc::quirk::PASSWORD_TEXT == 0 && !a_has_password_quirk(&a),
                (Verdict::Bad(_), Verdict::Bad(_)) => true,
                _ => false,
            }
        };
        if same {
            c.count("frames compared across all configurations");
            let red = if ascii && !frame.is_empty() { full } else { coarse };
            put(c, full, red);
        } else {
            c.count("frames compared across text configurations only");
            put(c, full, 9);
        }
        match r {
            Ok(Ok(_)) if b.is_empty() || frame.is_empty() => break,
            Ok(Ok(_)) => {}
            Ok(Err(_)) if frame.is_empty() || b.is_empty() => break,
            Ok(Err(_)) => {}
            Err(_) => break,
        }
    }
}

fn a_has_password_quirk(v: &Verdict) -> bool {
    matches!(v, Verdict::Good(_, q) if q & rc::quirk::PASSWORD_TEXT != 0)
}

fn c14_valid(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let keep = rng.chance(1, 3);
    let p = to_packet(m, keep);
    let mut b = BytesMut::new();
    let r = guarded(|| p.write(&mut b));
    let z = guarded(|| size_of(&p));
    let d = fnv(fnv(5, format!("{r:?} {z:?}").as_bytes()), &b);
    put(c, d, d);
    tick(c, m.ty);
    c.count("encodings compared across all configurations");
    c.sample(|| format!("{} -> {}", m.brief(), hex(&b)));
    let f = Form { shuffle: Some(rng.u64()), explicit: rng.below(3) as u8 };
    let w = rc::encode(m, &f);
    c14_stream(c, &w);
}

/// Values that cannot be encoded are refused alike.
fn c14_unencodable(c: &mut Ctx, i: u64) {
    let sl = slots();
    let s = sl[i as usize % sl.len()];
    let n = [65_536usize, 65_537, 70_000, 131_072][(i as usize / sl.len()) % 4];
    let p = to_packet(&s.put(vec![b'y'; n]), false);
    let mut b = BytesMut::new();
    let r = guarded(|| p.write(&mut b));
    let d = fnv(6, format!("{r:?} {}", b.len()).as_bytes());
    c.eval(d ^ i);
    c.count("refusals of the encoder compared");
    put(c, d, d);
}

pub fn c14_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, scale, c14_valid);
    on_hostile(&mut v, t, scale, |c, _, s| {
        c14_stream(c, s);
        c.sample(|| hex(s));
    });
    let n = slots().len() as u64 * 4;
    v.push(fam("unencodable", n, c14_unencodable));
    let n = slots().len() as u64;
    v.push(fam("raw-text", n * if t { 4_000 } else { 600 }, c14_raw));
    v
}

/// Every text and binary field with bytes that are not text: a single byte of
/// every value, ill-formed sequences in the middle, random bytes.
fn c14_raw(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let sl = slots();
    let s = sl[i as usize % sl.len()];
    let k = i as usize / sl.len();
    let v = match k {
        0..=255 => vec![k as u8],
        256..=511 => [b"ab".as_slice(), &[(k - 256) as u8], b"c"].concat(),
        _ => {
            let n = 1 + rng.below(40);
            rng.bytes(n)
        }
    };
    let w = rc::encode(&s.put(v).norm(), &Form { shuffle: None, explicit: 2 });
    c14_stream(c, &w);
}

// --------------------------------------------------------------------- C15

type Out = (Result<M, Error>, usize);

fn decode(s: &[u8]) -> Result<Out, String> {
    guarded(|| {
        let mut b = BytesMut::from(s);
        let r = Packet::read(&mut b, None);
        (r.map(|p| from_packet(&p)), b.len())
    })
}

/// The same bytes give the same outcome whatever happened before, wherever
/// they lie; a decoded packet does not change when the buffer does.
fn c15(c: &mut Ctx, rng: &mut Rng, s: &[u8]) {
    if s.len() > 60_000 {
        return;
    }
    c.eval(fnv(15, s));
    let Ok(want) = decode(s) else {
        c.fail("panic", "read".to_string(), s);
        return;
    };
    // After other work on this thread, good and bad.
    for _ in 0..rng.below(3) {
        let junk = hostile::random_frame(rng);
        let o = hostile::random_frame(rng);
        let junk = if rng.bool() { hostile::mutate(rng, junk, &o) } else { junk };
        let _ = decode(&junk);
        let mut b = BytesMut::new();
        let t = *rng.pick(&TYPES);
        let p = to_packet(&random_model(rng, t).norm(), false);
        let _ = guarded(|| p.write(&mut b));
    }
    c.count("decoded again after other work");
    let again = decode(s);
    if !c.check(again.as_ref() == Ok(&want), "history", s, || format!("first {want:?}, later {again:?}")) {
        return;
    }
    // At another place of a larger buffer, decoded from a shared allocation.
    let pre = rng.below(50);
    let mut big = BytesMut::with_capacity(pre + s.len() + rng.below(100));
    big.extend_from_slice(&vec![0x30; pre]);
    big.extend_from_slice(s);
    let front = if rng.bool() {
        Some(big.split_to(pre))
    } else {
        big.advance(pre);
        None
    };
    let Some(r) = c.cut("read", s, || Packet::read(&mut big, None)) else { return };
    let got = (r.as_ref().map(from_packet).map_err(|e| *e), big.len());
    c.count("decoded inside a larger buffer");
    if !c.check(got == want, "place", s, || format!("alone {want:?}, at offset {pre} {got:?}")) {
        return;
    }
    drop(front);
    // Now the buffer is used for something else while the packet is held.
    if let Ok(p) = r {
        let held = got.0.unwrap();
        let copy = p.clone();
        for k in 0..3 {
            match k {
                0 => {
                    for x in big.iter_mut() {
                        *x ^= 0xFF;
                    }
                    big.extend_from_slice(&[0xA5; 200]);
                }
                1 => {
                    big.clear();
                    big.reserve(s.len() * 2 + 64);
                    big.extend_from_slice(&vec![0x5A; s.len() + 64]);
                }
                _ => {
                    let all = big.split();
                    drop(all);
                    big.extend_from_slice(&vec![0xC3; s.len() + 300]);
                }
            }
            let now = from_packet(&p);
            c.count("held packets re-examined");
            if !c.check(now == held && p == copy, "aliasing", s, || {
                format!("held {} is now {}", held.brief(), now.brief())
            }) {
                return;
            }
        }
        // Writing it leaves it, and its copy, as they were; twice the same.
        let mut a = BytesMut::new();
        let mut z = BytesMut::with_capacity(rng.below(300));
        let Some(ra) = c.cut("write", s, || p.write(&mut a)) else { return };
        drop(big);
        let Some(rz) = c.cut("write", s, || copy.write(&mut z)) else { return };
        c.check(ra == rz && a == z && p == copy, "write-twice", s, || {
            format!("{ra:?} {} then {rz:?} {}", hex(&a), hex(&z))
        });
        let written = a.clone();
        drop(p);
        drop(copy);
        z.clear();
        z.extend_from_slice(&[0u8; 64]);
        c.check(a == written, "write-aliasing", s, || "written bytes changed".to_string());
    }
    c.sample(|| format!("{} at offset {pre}", hex(s)));
}

/// Failures leave nothing behind either: the packets written and the frames
/// read after one fare as they did before it.
fn c15_failures(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let ty = TYPES[(i % 14) as usize];
    let ms: Vec<M> = (0..4)
        .map(|k| {
            let t = if k < 3 { ty } else { *rng.pick(&TYPES) };
            let m = if rng.bool() { random_model(&mut rng, t) } else { bases_of(&mut rng, t) };
            m.norm()
        })
        .collect();
    let look = |c: &mut Ctx| -> Option<Vec<(Vec<u8>, Vec<u8>, Result<Out, String>)>> {
        let mut v = Vec::new();
        for m in &ms {
            let p = to_packet(m, false);
            let (mut a, mut b) = (BytesMut::new(), BytesMut::new());
            let r = c.cut("write", &[], || p.write(&mut a))?;
            c.cut("typed write", &[], || typed_write(&p, &mut b))?.ok();
            if r != Ok(a.len()) || !matches!(rc::judge(&a, TEXT), Verdict::Good(x, _) if x == *m) {
                c.fail("history", format!("{r:?}, {} wrote {}", m.brief(), hex(&a)), &a.to_vec());
                return None;
            }
            let d = decode(&rc::encode(m, &Form { shuffle: None, explicit: 2 }));
            v.push((a.to_vec(), b.to_vec(), d));
        }
        Some(v)
    };
    let Some(before) = look(c) else { return };
    c.eval(fnv(151, &before.concat_bytes()));
    for _ in 0..rng.range(1, 4) {
        match rng.below(4) {
            0 => {
                let w = hostile::structured(&mut rng, ty);
                let _ = decode(&w);
                c.count("failures in between: damaged frame");
            }
            1 => {
                // a frame that is not all there
                let w = rc::encode(&ms[0], &Form::default());
                let n = rng.below(w.len());
                let _ = decode(&w[..n]);
                c.count("failures in between: incomplete frame");
            }
            _ => {
                let t = if rng.chance(3, 4) { ty } else { *rng.pick(&TYPES) };
                if let Some(p) = crate::mons_enc::unencodable(&mut rng, t) {
                    let mut b = BytesMut::with_capacity(rng.below(100));
                    let _ = guarded(|| p.write(&mut b));
                    let mut b = BytesMut::new();
                    let _ = guarded(|| typed_write(&p, &mut b));
                    c.count("failures in between: packet that cannot be written");
                }
            }
        }
        let Some(after) = look(c) else { return };
        c.count("outcomes compared across a failure");
        if let Some(k) = (0..ms.len()).find(|k| after[*k] != before[*k]) {
            c.fail(
                "history",
                format!(
                    "{}: before {} {:?}, after a failure {} {:?}",
                    ms[k].brief(),
                    hex(&before[k].1),
                    before[k].2,
                    hex(&after[k].1),
                    after[k].2
                ),
                &after[k].0,
            );
            return;
        }
    }
}

fn bases_of(rng: &mut Rng, t: u8) -> M {
    let b: Vec<&M> = hostile::bases().iter().filter(|m| m.ty == t).collect();
    b[rng.below(b.len())].clone()
}

trait ConcatBytes {
    fn concat_bytes(&self) -> Vec<u8>;
}
impl<T> ConcatBytes for Vec<(Vec<u8>, Vec<u8>, T)> {
    fn concat_bytes(&self) -> Vec<u8> {
        self.iter().flat_map(|x| x.0.iter().copied()).collect()
    }
}

/// The same frames on several threads at once, against one thread.
fn c15_threads(c: &mut Ctx, _i: u64) {
    let mut rng = c.rng();
    let n = if cfg!(miri) { 6 } else { 300 };
    let frames: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let f = hostile::random_frame(&mut rng);
            if rng.chance(1, 3) {
                let o = hostile::random_frame(&mut rng);
                hostile::mutate(&mut rng, f, &o)
            } else {
                f
            }
        })
        .collect();
    let want: Vec<_> = frames.iter().map(|f| decode(f)).collect();
    // packets shared between threads, encoded by all of them at once
    let ps: Vec<(Packet, Bytes)> = frames
        .iter()
        .filter_map(|f| {
            let mut b = BytesMut::from(&f[..]);
            guarded(|| Packet::read(&mut b, None).ok()).ok().flatten()
        })
        .filter_map(|p| {
            let mut b = BytesMut::new();
            guarded(|| p.write(&mut b).is_ok()).ok()?;
            Some((p, b.freeze()))
        })
        .collect();
    let threads = 3;
    let bad: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (frames, want, ps) = (&frames, &want, &ps);
                let mut order: Vec<usize> = (0..frames.len()).collect();
                let mut r = Rng::new(c.seed, 99, t);
                r.shuffle(&mut order);
                sc.spawn(move || {
                    for &k in &order {
                        let got = decode(&frames[k]);
                        if got != want[k] {
                            return Some(format!("frame {}: alone {:?}, among threads {got:?}", hex(&frames[k]), want[k]));
                        }
                        if let Some((p, b)) = ps.get(k) {
                            let mut x = BytesMut::new();
                            let r = guarded(|| p.write(&mut x));
                            if !matches!(r, Ok(Ok(_))) || x[..] != b[..] {
                                return Some(format!("writing {p:?}: {r:?} {} not {}", hex(&x), hex(b)));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().expect("harness thread")).collect()
    });
    c.eval(fnv(1515, &frames.concat()));
    c.add("frames decoded on several threads", (frames.len() * threads as usize) as u64);
    c.add("packets encoded on several threads", (ps.len() * threads as usize) as u64);
    if let Some(b) = bad.first() {
        c.fail("threads", b.clone(), &[]);
    }
}

pub fn c15_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, scale.min(60), |c, rng, m| {
        let w = rc::encode(m, &Form { shuffle: Some(rng.u64()), explicit: rng.below(3) as u8 });
        c15(c, rng, &w);
    });
    on_hostile(&mut v, t, scale.min(60), |c, rng, s| c15(c, rng, s));
    v.push(fam("amid-much", if t { 40_000 } else { 1200 * scale / 100 + 1 }, crate::mons_dec::amid_much));
    v.push(fam("failures", if t { 400_000 } else { 14_000 * scale / 100 + 1 }, c15_failures));
    v.push(fam("threads", if t { 3000 } else { 100 * scale / 100 + 2 }, c15_threads));
    v
}

// --------------------------------------------------------------------- C18

/// Several threads, each with packets of its own, that share nothing and have
/// nothing to wait for: whatever they touch in common they race on.
fn c18_races(c: &mut Ctx, i: u64) {
    let threads = if cfg!(miri) { 2usize } else { 3 };
    let steps = if cfg!(miri) { 2 } else { 6 };
    let work: Vec<Vec<Vec<u8>>> = (0..threads)
        .map(|t| {
            let mut rng = Rng::new(c.seed ^ 0xACE, i, t as u64);
            let mut v = Vec::new();
            for k in 0..steps {
                for ty in TYPES {
                    // fields that get longer from step to step, on every thread
                    let n = 1 + (k * threads + t) * 2 + (i as usize % 50) * 40;
                    let mut m = random_model(&mut rng, ty);
                    let small = rc::encode(&m, &Form::default()).len() < if cfg!(miri) { 300 } else { 3000 };
                    if !small || rng.bool() {
                        m = bases_of(&mut rng, ty);
                    }
                    match ty {
                        CONNECT | PUBLISH => m.name = vec![b'n'; n],
                        SUBSCRIBE | UNSUBSCRIBE => m.filters[0].path = vec![b'f'; n],
                        _ => {}
                    }
                    if k == 0 && !section_props(ty).is_empty() {
                        m.props.retain(|p| p.0 != 0x26);
                        m.props.push((0x26, PV::Pair(vec![b'k'; n], vec![b'v'; n])));
                    }
                    let w = rc::encode(&m.norm(), &Form { shuffle: None, explicit: 2 });
                    if k % 2 == 1 {
                        let (first, body) = hostile::split_frame(&w);
                        let b = hostile::mutate(&mut rng, body, &[]);
                        v.push(hostile::refix(first, &b));
                    }
                    v.push(w);
                }
            }
            v
        })
        .collect();
    let bad: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = work
            .iter()
            .map(|frames| {
                sc.spawn(move || {
                    let r = guarded(|| {
                        let mut out = BytesMut::new();
                        for f in frames {
                            let mut b = BytesMut::from(&f[..]);
                            let r = Packet::read(&mut b, Some(1 << 20));
                            match &r {
                                Ok(p) => {
                                    let q = p.clone();
                                    let _ = std::hint::black_box(q == *p);
                                    let _ = q.write(&mut out);
                                    let _ = typed_write(p, &mut out);
                                    let _ = size_of(p);
                                    if !cfg!(miri) {
                                        let _ = std::hint::black_box(format!("{p:?}"));
                                    }
                                }
                                Err(e) => {
                                    let _ = std::hint::black_box(e.to_string());
                                }
                            }
                            if let Ok(h) = check(f.iter(), None) {
                                let _ = h.packet_type();
                                let n = h.frame_length().min(f.len());
                                let _ = typed_read(f[0] >> 4, h, Bytes::copy_from_slice(&f[..n]));
                            }
                        }
                    });
                    r.err()
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().expect("harness thread")).collect()
    });
    c.eval(fnv(1818, &work.concat().concat()));
    c.add("frames handled by unsynchronised threads", work.iter().map(Vec::len).sum::<usize>() as u64);
    if let Some(b) = bad.first() {
        c.fail("panic", b.clone(), &[]);
    }
}

/// Decode, look at everything, encode, drop: nothing may stay allocated, every
/// text must be text. Run plain, under AddressSanitizer and under Miri.
fn c18(c: &mut Ctx, s: &[u8]) {
    c.eval(fnv(18, s));
    let mut texts_ok = true;
    let mut packets = 0u64;
    let w = alloc::window();
    let r = guarded(|| {
        let mut b = BytesMut::from(s);
        let mut out = BytesMut::new();
        loop {
            let n = b.len();
            let r = Packet::read(&mut b, Some(1 << 22));
            if let Ok(p) = &r {
                packets += 1;
                texts_ok &= c13_check_text(p);
                let q = p.clone();
                let _ = p == &q;
                let _ = q.write(&mut out);
                let _ = typed_write(p, &mut out);
            }
            if b.len() == n || b.is_empty() {
                break;
            }
        }
        // the buffer goes away while slices of it are held
        let mut b = BytesMut::from(s);
        let p = Packet::read(&mut b, None).ok();
        drop(b);
        if let Some(p) = &p {
            let _ = p.write(&mut out);
        }
        drop(p);
        // part readers
        if !s.is_empty() && s.len() < 5000 {
            let x = Bytes::copy_from_slice(&s[1..]);
            let f = s[0];
            let mut y = x.clone();
            let _ = LastWill::read(f | 4, &mut y);
            let mut y = x.clone();
            let _ = Login::read(f | 0xC0, &mut y);
            let mut y = x.clone();
            let _ = Filter::read(&mut y);
            let mut y = x.clone();
            let _ = ConnectProperties::read(&mut y);
            let mut y = x.clone();
            let _ = PublishProperties::read(&mut y);
            let mut y = x;
            let _ = ConnAckProperties::read(&mut y);
        }
    });
    let u = alloc::since(w);
    c.add("packets handled", packets);
    match r {
        Err(p) => c.fail("panic", p, s),
        Ok(()) => {
            c.count("leak windows closed");
            c.check(u.live == 0, "leak", s, || format!("{} bytes still allocated", u.live));
        }
    }
    c.check(texts_ok, "invalid-str", s, || "a str that is not UTF-8".to_string());
    c.sample(|| hex(s));
}

pub fn c18_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    v.push(fam("races", if t { 2000 } else { 2 * scale + 4 }, c18_races));
    on_valid(&mut v, t, scale.min(40), |c, rng, m| {
        let w = rc::encode(m, &Form { shuffle: Some(rng.u64()), explicit: rng.below(3) as u8 });
        c18(c, &w);
    });
    on_hostile(&mut v, t, scale.min(60), |c, _, s| c18(c, s));
    v.push(fam("threads", if t { 600 } else { 20 * scale / 100 + 2 }, c15_threads));
    v
}

/// The small workload for Miri: every packet type, every kind of damage.
pub fn c18_miri_fams(n: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    let b = hostile::bases();
    // First, while whatever is set up on first use is not yet set up.
    v.push(fam("miri-races", (n / 14).max(1), c18_races));
    v.push(fam("miri-bases", b.len() as u64, |c, i| {
        let m = &hostile::bases()[i as usize];
        let w = rc::encode(m, &Form { shuffle: Some(i), explicit: (i % 3) as u8 });
        c18(c, &w);
    }));
    v.push(fam("miri-truncated", n, |c, _| {
        let mut rng = c.rng();
        let m = rng.pick(hostile::bases()).clone();
        let w = rc::encode(&m, &Form { shuffle: None, explicit: 2 });
        let (first, body) = hostile::split_frame(&w);
        let k = rng.below(body.len() + 1);
        c18(c, &hostile::refix(first, &body[..k]));
    }));
    v.push(fam("miri-damaged", n * 2, |c, _| {
        let mut rng = c.rng();
        let m = rng.pick(hostile::bases()).clone();
        let w = rc::encode(&m, &Form { shuffle: None, explicit: 2 });
        let (first, body) = hostile::split_frame(&w);
        let o = rc::encode(rng.pick(hostile::bases()), &Form::default());
        let b = hostile::mutate(&mut rng, body, &o);
        c18(c, &hostile::refix(first, &b));
    }));
    v.push(fam("miri-text", n, |c, i| {
        let mut rng = c.rng();
        let sl = slots();
        let s = sl[i as usize % sl.len()];
        let mut t = gstr_n(&mut rng, 12);
        let at = rng.below(t.len());
        t[at] = hostile::hot(&mut rng);
        c18(c, &rc::encode(&s.put(t), &Form::default()));
    }));
    v.push(fam("miri-faults", 40, |c, i| {
        let mut rng = c.rng();
        let sl = slots();
        let s = sl[(i as usize * 7) % sl.len()];
        let p = to_packet(&s.put(vec![b'z'; 65_536]), false);
        let mut b = BytesMut::with_capacity(rng.below(50));
        let r = guarded(|| p.write(&mut b).is_err());
        c.eval(i);
        c.check(r == Ok(true), "panic", &[], || format!("{r:?}"));
    }));
    v.push(fam("miri-isolation", n / 2, |c, _| {
        let mut rng = c.rng();
        let m = rng.pick(hostile::bases()).clone();
        let w = rc::encode(&m, &Form::default());
        c15(c, &mut rng, &w);
    }));
    v.push(fam("miri-threads", 3, c15_threads));
    v
}

// --------------------------------------------------------------------- C19

/// Subscription identifiers: written minimal, read back exactly.
fn c19_ids(c: &mut Ctx, lo: u32, n: u32, step: u32) {
    let mut want = Vec::with_capacity(32);
    let mut b = BytesMut::with_capacity(64);
    let m = host(SUBSCRIBE);
    let mut p = to_packet(&m, true);
    let mut v = lo;
    for _ in 0..n {
        if v == 0 || v as usize > MAX_REMAINING {
            v = v.wrapping_add(step);
            continue;
        }
        if let Packet::Subscribe(s) = &mut p {
            s.properties.as_mut().unwrap().id = Some(v as usize);
        }
        b.clear();
        let r = guarded(|| p.write(&mut b));
        want.clear();
        let k = rc::varint_len(v as usize);
        want.extend_from_slice(&[0x82, (2 + 1 + 1 + k + 4) as u8, 0, 7, (1 + k) as u8, 0x0B]);
        rc::put_varint(&mut want, v as usize);
        want.extend_from_slice(&[0, 1, b'f', 1]);
        let ok = matches!(r, Ok(Ok(x)) if x == want.len()) && b[..] == want[..];
        if !c.check(ok, "written", &b.clone(), || format!("{v}: {r:?} {} not {}", hex(&b), hex(&want))) {
            return;
        }
        let q = guarded(|| Packet::read(&mut b, None));
        let got = match &q {
            Ok(Ok(Packet::Subscribe(s))) => s.properties.as_ref().and_then(|p| p.id),
            _ => None,
        };
        if !c.check(got == Some(v as usize), "read", &want.clone(), || format!("{v}: read {q:?}")) {
            return;
        }
        c.evals += 1;
        v = v.wrapping_add(step);
    }
    c.distinct.insert(fnv(u64::from(lo), &step.to_le_bytes()));
    c.add("identifiers written and read", u64::from(n));
    c.sample(|| format!("identifiers {lo}.. step {step}, {n} of them"));
}

/// Remaining lengths: the exact value is read from every header.
fn c19_headers(c: &mut Ctx, lo: u32, n: u32, step: u32) {
    let mut v = lo;
    let mut h = Vec::with_capacity(8);
    for _ in 0..n {
        if v as usize > MAX_REMAINING {
            break;
        }
        h.clear();
        h.push(0x30);
        rc::put_varint(&mut h, v as usize);
        let r = guarded(|| check(h.iter(), None));
        let ok = if v == 0 {
            matches!(r, Ok(Ok(x)) if x.frame_length() == 2)
        } else {
            r == Ok(Err(Error::InsufficientBytes(v as usize)))
        };
        if !c.check(ok, "length", &h.clone(), || format!("{v}: {r:?}")) {
            return;
        }
        // a header cut short asks for one more byte
        if h.len() > 2 {
            let r = guarded(|| check(h[..h.len() - 1].iter(), None));
            let ok = r == Ok(Err(Error::InsufficientBytes(1)));
            if !c.check(ok, "cut", &h.clone(), || format!("{v} cut: {r:?}")) {
                return;
            }
        }
        c.evals += 1;
        v = v.wrapping_add(step);
    }
    c.distinct.insert(fnv(1 << 40 | u64::from(lo), &step.to_le_bytes()));
    c.add("length headers read", u64::from(n));
}

/// Remaining lengths and property lengths as the encoder writes them.
fn c19_frames(c: &mut Ctx, n: usize) {
    let mut m = M { ty: PUBLISH, ..M::default() };
    if n < 3 {
        return;
    }
    m.payload = vec![0x2A; n - 3];
    let p = to_packet(&m, false);
    let mut b = BytesMut::new();
    let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
    let mut h = vec![0x30];
    rc::put_varint(&mut h, n);
    c.eval(0x19_0000_0000 + n as u64);
    c.count("frames of every length written");
    let ok = r == Ok(h.len() + n) && b.len() == h.len() + n && b[..h.len()] == h[..];
    c.check(ok, "frame", &b[..b.len().min(16)].to_vec(), || {
        format!("remaining length {n}: {r:?}, {} bytes, starts {}", b.len(), hex(&b[..b.len().min(8)]))
    });
    let Some(q) = c.cut("read", &[], || Packet::read(&mut b, None)) else { return };
    let ok = matches!(&q, Ok(Packet::Publish(x)) if x.payload.len() == n - 3) && b.is_empty();
    c.check(ok, "frame", &h, || format!("remaining length {n} read back: {}", if q.is_ok() { "other content" } else { "error" }));
}

fn c19_props(c: &mut Ctx, sec: u8, n: usize) {
    let mut rng = c.rng();
    if n > 0 && n < 5 {
        return;
    }
    let m = with_prop_len(sec, n, &mut rng).norm();
    let p = to_packet(&m, n % 2 == 0);
    let mut b = BytesMut::new();
    let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
    let want = rc::encode(&m, &Form::default());
    c.eval(fnv(u64::from(sec) << 32 | n as u64, &want[..want.len().min(64)]));
    c.count("property sections of every length written");
    // The order of properties is the encoder's choice, the lengths are not.
    // An empty section may be left out where MQTT allows it.
    let ok = r == Ok(b.len())
        && (b.len() == want.len() || n == 0)
        && matches!(rc::judge(&b, TEXT), rc::Verdict::Good(x, q) if x == m && q & rc::quirk::OVERLONG_VARINT == 0);
    c.check(ok, "section", &b[..b.len().min(64)].to_vec(), || {
        format!("{} property length {n}: {r:?}, {} bytes, expected {}", type_name(sec), b.len(), want.len())
    });
    let Some(q) = c.cut("read", &[], || Packet::read(&mut b, None)) else { return };
    let ok = matches!(&q, Ok(p) if from_packet(p) == m);
    c.check(ok, "section", &want[..want.len().min(64)].to_vec(), || {
        format!("{} property length {n} read back: {}", type_name(sec), if q.is_ok() { "other content" } else { "error" })
    });
}

/// Five-byte lengths, identifiers and property lengths do not exist.
fn c19_toolong(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let mut ext: Vec<u8> = (0..4).map(|_| 0x80 | rng.u8()).collect();
    ext.push(rng.u8() & 0x7F);
    c.eval(fnv(i, &ext));
    c.count("integers of five bytes refused");
    match i % 3 {
        0 => {
            let mut s = vec![0x30];
            s.extend_from_slice(&ext);
            let k = rng.below(20);
            s.extend(rng.bytes(k));
            let r = guarded(|| check(s.iter(), None));
            c.check(r == Ok(Err(Error::MalformedRemainingLength)), "five-bytes", &s, || format!("{r:?}"));
        }
        1 => {
            // subscription identifier
            let sec = if i % 2 == 0 { SUBSCRIBE } else { PUBLISH };
            let mut raw = vec![0x0B];
            raw.extend_from_slice(&ext);
            let s = hostile::with_raw_props(&host(sec), sec, raw.len(), &raw);
            let mut b = BytesMut::from(&s[..]);
            let r = guarded(|| Packet::read(&mut b, None));
            let ok = matches!(&r, Ok(Err(e)) if !matches!(e, Error::InsufficientBytes(_)));
            c.check(ok, "five-bytes", &s, || format!("{r:?}"));
        }
        _ => {
            // property length
            let sec = SECTIONS[(i / 3 % 13) as usize];
            let h = host(sec);
            let base = hostile::with_raw_props(&h, sec, 0, &[]);
            let (first, body) = hostile::split_frame(&base);
            let at = match sec {
                CONNECT => 10,
                WILL => 10 + 1 + 2 + h.name.len(),
                CONNACK => 2,
                PUBLISH => 2 + h.name.len() + 2,
                PUBACK..=PUBCOMP => 3,
                DISCONNECT => 1,
                _ => 2,
            };
            let mut x = body[..at].to_vec();
            x.extend_from_slice(&ext);
            x.extend_from_slice(&body[at + 1..]);
            let s = hostile::refix(first, &x);
            let mut b = BytesMut::from(&s[..]);
            let r = guarded(|| Packet::read(&mut b, None));
            let ok = matches!(&r, Ok(Err(e)) if !matches!(e, Error::InsufficientBytes(_)));
            c.check(ok, "five-bytes", &s, || format!("{r:?}"));
        }
    }
}

pub fn c19_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    let all = (MAX_REMAINING + 1) as u64;
    if t {
        v.push(fam("ids-all", all / 4096, |c, i| c19_ids(c, i as u32 * 4096, 4096, 1)));
        v.push(fam("headers-all", all / 4096, |c, i| c19_headers(c, i as u32 * 4096, 4096, 1)));
    } else {
        // dense where the number of bytes changes, coprime strides elsewhere
        let dense = 2_200_000 * scale / 100;
        v.push(fam("ids-dense", dense / 1000, |c, i| c19_ids(c, i as u32 * 1000, 1000, 1)));
        v.push(fam("headers-dense", dense / 1000, |c, i| c19_headers(c, i as u32 * 1000, 1000, 1)));
        v.push(fam("ids-stride", 400 * scale / 100 + 1, |c, i| c19_ids(c, (i * 677) as u32, 1000, 268_133)));
        v.push(fam("headers-stride", 400 * scale / 100 + 1, |c, i| c19_headers(c, (i * 677) as u32, 1000, 268_133)));
    }
    v.push(fam("edges", 5 * 2, |c, i| {
        let e = [127u32, 16_383, 2_097_151, 268_435_455, 300][(i % 5) as usize];
        if i < 5 {
            c19_ids(c, e.saturating_sub(200).max(1), 400.min(268_435_456 - e.saturating_sub(200)), 1);
        } else {
            c19_headers(c, e.saturating_sub(200), 400, 1);
        }
    }));
    let top = if t { 300_000 } else { 20_000 * scale / 100 + 1 };
    v.push(fam("frames", top, |c, i| c19_frames(c, i as usize)));
    let edges: Vec<usize> = boundary_lengths(2_200_000);
    v.push(fam("frame-edges", edges.len() as u64, move |c, i| c19_frames(c, edges[i as usize])));
    if t {
        v.push(fam("frames-stride", 400, |c, i| c19_frames(c, 300_000 + i as usize * 4787)));
    }
    let top = if t { 17_000 } else { 400 };
    v.push(fam("sections", 13 * top, |c, i| c19_props(c, SECTIONS[(i % 13) as usize], (i / 13) as usize)));
    let edges: Vec<usize> = boundary_lengths(70_000);
    v.push(fam("section-edges", 13 * edges.len() as u64, move |c, i| {
        c19_props(c, SECTIONS[(i % 13) as usize], edges[(i / 13) as usize]);
    }));
    if scale >= 50 {
        v.push(fam("section-large", 13 * 6, |c, i| {
            c19_props(c, SECTIONS[(i % 13) as usize], 2_097_149 + (i / 13) as usize);
        }));
    }
    v.push(fam("five-bytes", if t { 200_000 } else { 9000 }, c19_toolong));
    v
}

#[allow(dead_code)]
fn unused(_: Framing) {}
