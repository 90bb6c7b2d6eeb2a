//! Workload of byte streams: exhaustive short streams, truncations and
//! substitutions of real packets, random mutations, structured faults, bombs.

use crate::gen;
use crate::model::*;
use crate::refcodec::{self as rc, Form, MK};
use crate::rng::Rng;

pub struct HFam {
    pub name: String,
    pub count: u64,
    pub gen: Box<dyn Fn(&mut Rng, u64) -> Vec<u8> + Sync + Send>,
}

fn hf(
    name: &str,
    count: u64,
    gen: impl Fn(&mut Rng, u64) -> Vec<u8> + Sync + Send + 'static,
) -> HFam {
    HFam { name: name.to_string(), count, gen: Box::new(gen) }
}

/// Header for a body of this size, same first byte.
pub fn refix(first: u8, body: &[u8]) -> Vec<u8> {
    rc::frame_of(first, body)
}

pub fn split_frame(f: &[u8]) -> (u8, Vec<u8>) {
    match rc::framing(f) {
        rc::Framing::Frame { header, remaining } => (f[0], f[header..header + remaining].to_vec()),
        _ => (f[0], f[f.len().min(2)..].to_vec()),
    }
}

const HOT: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x0B, 0x0F, 0x10, 0x11, 0x1F, 0x20, 0x21,
    0x26, 0x30, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0x82, 0x87, 0x8F, 0xA2, 0xC0, 0xC3, 0xE2, 0xED, 0xF0,
    0xF4, 0xFE, 0xFF,
];

pub fn hot(rng: &mut Rng) -> u8 {
    if rng.chance(3, 4) {
        *rng.pick(HOT)
    } else {
        rng.u8()
    }
}

pub fn bases() -> &'static [M] {
    static B: std::sync::OnceLock<Vec<M>> = std::sync::OnceLock::new();
    B.get_or_init(gen::bases)
}

/// A random valid frame, small more often than not.
pub fn random_frame(rng: &mut Rng) -> Vec<u8> {
    let ty = *rng.pick(&TYPES);
    let mut m = gen::random_model(rng, ty);
    if rng.chance(2, 3) {
        m = rng.pick(bases()).clone();
    }
    let f = Form {
        shuffle: if rng.bool() { Some(rng.u64()) } else { None },
        explicit: rng.below(3) as u8,
    };
    rc::encode(&m, &f)
}

/// A random valid frame of one type, of moderate size (now and then one with a
/// long list in it).
pub fn moderate_frame(rng: &mut Rng, ty: u8) -> Vec<u8> {
    let f = Form {
        shuffle: if rng.bool() { Some(rng.u64()) } else { None },
        explicit: rng.below(3) as u8,
    };
    if rng.chance(1, 24) {
        let w = rc::encode(&gen::long_model(rng, ty).norm(), &f);
        if w.len() < 40_000 {
            return w;
        }
    }
    for _ in 0..6 {
        let w = rc::encode(&gen::random_model(rng, ty).norm(), &f);
        if w.len() < 1200 {
            return w;
        }
    }
    let b: Vec<&M> = bases().iter().filter(|m| m.ty == ty).collect();
    rc::encode(b[rng.below(b.len())], &f)
}

/// A frame taken apart, so that single parts can be damaged while all the
/// lengths around them still fit, or the other way round.
struct Piece {
    k: MK,
    sec: u8,
    bytes: Vec<u8>,
    /// Lengths: keep the bytes as they are instead of the real length.
    lie: bool,
}

fn pieces(frame: &[u8]) -> Vec<Piece> {
    rc::marks(frame)
        .into_iter()
        .map(|m| Piece { k: m.k, sec: m.sec, bytes: frame[m.at..m.at + m.n].to_vec(), lie: false })
        .collect()
}

/// Puts the pieces together; lengths that are not lies are made to fit.
fn join(ps: &mut [Piece]) -> Vec<u8> {
    for i in 0..ps.len() {
        if ps[i].lie {
            continue;
        }
        if ps[i].k == MK::Len && i + 1 < ps.len() && matches!(ps[i + 1].k, MK::Text | MK::Raw) {
            let n = ps[i + 1].bytes.len().min(65_535) as u16;
            ps[i].bytes = n.to_be_bytes().to_vec();
        }
    }
    let mut sections = 0;
    for i in 0..ps.len() {
        if ps[i].k == MK::PropLen {
            sections += 1;
            if !ps[i].lie {
                let n = ps[i + 1..].iter().take_while(|p| p.sec == sections).map(|p| p.bytes.len()).sum();
                ps[i].bytes.clear();
                rc::put_varint(&mut ps[i].bytes, n);
            }
        }
    }
    ps.iter().flat_map(|p| p.bytes.iter().copied()).collect()
}

const ILL: &[&[u8]] = &[
    &[0xFF],
    &[0x80],
    &[0xC0, 0x80],
    &[0xC3],
    &[0xED, 0xA0, 0x80],
    &[0xE2, 0x82],
    &[0xF4, 0x90, 0x80, 0x80],
    &[0xF0, 0x9F, 0x92],
    &[0],
];

/// A random valid frame with one or two of its parts damaged.
pub fn structured(rng: &mut Rng, ty: u8) -> Vec<u8> {
    let w = moderate_frame(rng, ty);
    let first = w[0];
    let mut ps = pieces(&w);
    let mut first_out = first;
    let mut tail = Vec::new();
    for _ in 0..*rng.pick(&[1, 1, 1, 2]) {
        if ps.is_empty() {
            tail.push(hot(rng));
            break;
        }
        // single bytes of the variable header are few: give them weight
        let single: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].k == MK::U8 && ps[*i].sec == 0).collect();
        let at = if !single.is_empty() && rng.chance(1, 3) { *rng.pick(&single) } else { rng.below(ps.len()) };
        match rng.below(20) {
            0 => first_out ^= 1 << rng.below(8),
            1 => {
                let k = rng.range(1, 4);
                tail = (0..k).map(|_| hot(rng)).collect();
            }
            2 => ps.truncate(at),
            3 => {
                ps.remove(at);
            }
            4 => {
                let p = &ps[at];
                let q = Piece { k: p.k, sec: p.sec, bytes: p.bytes.clone(), lie: p.lie };
                ps.insert(at, q);
            }
            5 if at + 1 < ps.len() => ps.swap(at, at + 1),
            6 => {
                // cut inside a part
                let n = rng.below(ps[at].bytes.len() + 1);
                ps[at].bytes.truncate(n);
                ps[at].lie = true;
                ps.truncate(at + 1);
            }
            7 => {
                // a whole property again, or under another name
                let ids: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].k == MK::PropId).collect();
                if !ids.is_empty() {
                    let a = *rng.pick(&ids);
                    if rng.bool() {
                        let sec = ps[a].sec;
                        let e = (a + 1..ps.len())
                            .find(|i| ps[*i].k == MK::PropId || ps[*i].sec != sec)
                            .unwrap_or(ps.len());
                        let copy: Vec<Piece> = ps[a..e]
                            .iter()
                            .map(|p| Piece { k: p.k, sec: p.sec, bytes: p.bytes.clone(), lie: p.lie })
                            .collect();
                        for (k, p) in copy.into_iter().enumerate() {
                            ps.insert(e + k, p);
                        }
                    } else {
                        ps[a].bytes = vec![rng.below(48) as u8];
                    }
                }
            }
            _ => damage(rng, &mut ps, at),
        }
        if ps.len() > 1 && rng.chance(1, 6) {
            // some text of it empty, as well
            let t: Vec<usize> = (0..ps.len()).filter(|i| matches!(ps[*i].k, MK::Text | MK::Raw)).collect();
            if !t.is_empty() {
                let i = *rng.pick(&t);
                ps[i].bytes.clear();
            }
        }
    }
    let mut body = join(&mut ps);
    body.extend_from_slice(&tail);
    if rng.chance(1, 20) {
        // the length of the packet lies
        let mut s = vec![first_out];
        let d = rng.range(1, 5);
        let n = if rng.bool() { body.len() + d } else { body.len().saturating_sub(d) };
        rc::put_varint(&mut s, n);
        s.extend_from_slice(&body);
        return s;
    }
    refix(first_out, &body)
}

fn damage(rng: &mut Rng, ps: &mut [Piece], at: usize) {
    let rest: usize = ps[at + 1..].iter().map(|p| p.bytes.len()).sum();
    let p = &mut ps[at];
    match p.k {
        MK::U8 | MK::PropId => {
            let b = p.bytes.first().copied().unwrap_or(0);
            p.bytes = vec![match rng.below(3) {
                0 => b ^ (1 << rng.below(8)),
                1 => hot(rng),
                _ => rng.u8(),
            }];
        }
        MK::U16 => {
            p.bytes = rng.pick(&[0u16, 1, 0x100, 0xFF, 0xFFFF]).to_be_bytes().to_vec();
        }
        MK::U32 => {
            p.bytes = rng.pick(&[0u32, 1, 0xFFFF_FFFF, 0x8000_0000, 0x100]).to_be_bytes().to_vec();
        }
        MK::Len => {
            let n = u16::from_be_bytes([*p.bytes.first().unwrap_or(&0), *p.bytes.get(1).unwrap_or(&0)]);
            let v = match rng.below(7) {
                0 => n.wrapping_add(1),
                1 => n.wrapping_sub(1),
                2 => rest as u16,
                3 => rest as u16 + 1,
                4 => 0,
                5 => 0xFFFF,
                _ => n.wrapping_add(rng.below(9) as u16),
            };
            p.bytes = v.to_be_bytes().to_vec();
            p.lie = true;
        }
        MK::Text | MK::Raw => {
            let i = rng.below(p.bytes.len() + 1);
            let x: &[u8] = rng.pick(ILL);
            p.bytes.splice(i..i, x.iter().copied());
        }
        MK::PropLen => {
            let mut n = 0usize;
            for (i, b) in p.bytes.iter().enumerate() {
                n |= ((b & 0x7F) as usize) << (7 * i.min(4));
            }
            let v = match rng.below(6) {
                0 => n + 1,
                1 => n.saturating_sub(1),
                2 => rest,
                3 => rest + 1,
                4 => rng.below(rest + 3),
                _ => n,
            };
            p.bytes.clear();
            let min = rc::varint_len(v);
            match rng.below(8) {
                0 => rc::put_varint_n(&mut p.bytes, v, rng.range(min, 5)),
                1 => {
                    // goes on for ever
                    let k = rng.range(1, 6);
                    p.bytes = (0..k).map(|_| 0x80 | rng.u8()).collect();
                }
                _ => rc::put_varint(&mut p.bytes, v),
            }
            p.lie = true;
        }
        MK::Var => {
            let k = rng.range(1, 6);
            p.bytes = (0..k).map(|_| if rng.bool() { 0x80 } else { 0 } | rng.u8()).collect();
        }
    }
}

/// Every value of one flag, option or code byte of a random frame.
pub fn every_value(i: u64) -> Vec<u8> {
    let mut rng = Rng::new(0xF1A6, 0, i / 256);
    let ty = TYPES[(i / 256 % 12) as usize];
    let ty = if ty >= PINGREQ { DISCONNECT } else { ty };
    let mut w = moderate_frame(&mut rng, ty);
    let singles: Vec<usize> =
        rc::marks(&w).iter().filter(|m| m.k == MK::U8 && m.sec == 0).map(|m| m.at).collect();
    let at = if singles.is_empty() || rng.chance(1, 8) { 0 } else { *rng.pick(&singles) };
    w[at] = i as u8;
    w
}

pub fn mutate(rng: &mut Rng, mut s: Vec<u8>, other: &[u8]) -> Vec<u8> {
    for _ in 0..*rng.pick(&[1usize, 1, 1, 2, 2, 3, 4, 8]) {
        if s.is_empty() {
            s.push(hot(rng));
            continue;
        }
        let n = s.len();
        // Prefer the first 64 bytes: that is where the structure is.
        let at = if rng.bool() { rng.below(n) } else { rng.below(n.min(64)) };
        match rng.below(12) {
            0 | 1 => s[at] ^= 1 << rng.below(8),
            2 | 3 => s[at] = hot(rng),
            4 => s.insert(at, hot(rng)),
            5 => {
                s.remove(at);
            }
            6 => s.truncate(at),
            7 => {
                let k = rng.range(1, 12).min(n - at);
                let blk = s[at..at + k].to_vec();
                let to = rng.below(n + 1);
                s.splice(to..to, blk);
            }
            8 => {
                let k = rng.range(1, 8).min(n - at);
                s.drain(at..at + k);
            }
            9 if !other.is_empty() => {
                let a = rng.below(other.len());
                let k = rng.range(1, 24).min(other.len() - a);
                s.splice(at..at, other[a..a + k].iter().copied());
            }
            10 if at + 1 < n => {
                let v = match rng.below(4) {
                    0 => (n - at) as u16,
                    1 => (n - at).wrapping_sub(2) as u16,
                    2 => rng.below(64) as u16,
                    _ => (rng.u64() >> 48) as u16,
                };
                s[at..at + 2].copy_from_slice(&v.to_be_bytes());
            }
            11 => s[at] = s[at].wrapping_add(*rng.pick(&[1, 255, 2, 254, 127, 128])),
            _ => s.push(hot(rng)),
        }
    }
    s
}

/// Frames with many, tiny, or huge parts, and lengths that lie.
pub fn bomb(rng: &mut Rng, kind: u64, n: usize) -> Vec<u8> {
    let sec = SECTIONS[(kind as usize / 12) % 13];
    let host = gen::host(sec);
    let (first, _) = (rc::first_byte(&host), ());
    match kind % 12 {
        0 => {
            // n empty user properties
            let mut m = host;
            *gen::props_mut(&mut m, sec) = vec![(0x26, PV::Pair(vec![], vec![])); n / 5];
            rc::encode(&m, &Form { explicit: 2, ..Form::default() })
        }
        1 => {
            let mut m = gen::host(PUBLISH);
            m.props = vec![(0x0B, PV::Var(1)); n / 2];
            rc::encode(&m, &Form::default())
        }
        2 => {
            let mut m = gen::host(SUBSCRIBE);
            m.filters = vec![Filt::default(); n / 3 + 1];
            rc::encode(&m, &Form::default())
        }
        3 => {
            let mut m = gen::host(UNSUBSCRIBE);
            m.filters = vec![Filt::default(); n / 2 + 1];
            rc::encode(&m, &Form::default())
        }
        4 => {
            let mut m = gen::host(*rng.pick(&[SUBACK, UNSUBACK]));
            m.codes = vec![0; n + 1];
            rc::encode(&m, &Form::default())
        }
        5 => {
            let mut m = gen::host(PUBLISH);
            m.payload = vec![7; n];
            rc::encode(&m, &Form::default())
        }
        6 => {
            // huge declared remaining length, few bytes
            let mut s = vec![first];
            let declared = *rng.pick(&[n, 65_535, 1 << 20, 1 << 24, gen::MAX_REMAINING]);
            rc::put_varint(&mut s, declared);
            s.extend(rng.bytes(n.min(64)));
            s
        }
        7 => {
            // complete frame whose property length is huge
            let b = rc::body(&host, &Form { explicit: 2, ..Form::default() });
            let at = rng.below(b.len());
            let mut v = b[..at].to_vec();
            rc::put_varint(&mut v, *rng.pick(&[b.len(), 65_535, 1 << 20, gen::MAX_REMAINING]));
            v.extend_from_slice(&b[at..]);
            refix(first, &v)
        }
        8 => {
            // complete frame, every length byte says 0xFFFF
            let b = rc::body(&host, &Form { explicit: 2, ..Form::default() });
            let at = rng.below(b.len());
            let mut v = b[..at].to_vec();
            v.extend_from_slice(&[0xFF, 0xFF]);
            v.extend(rng.bytes(n.min(300)));
            refix(first, &v)
        }
        9 => {
            // the same single property over and over
            let ids = section_props(sec);
            let id = ids[rng.below(ids.len())];
            let mut m = host;
            let unit = match prop_kind(id).unwrap() {
                Kind::U8 => 2,
                Kind::U16 => 3,
                _ => 6,
            };
            *gen::props_mut(&mut m, sec) = vec![(id, gen::small_val(id, 1)); n / unit + 1];
            rc::encode(&m, &Form { explicit: 2, ..Form::default() })
        }
        10 => {
            // a run of one byte
            let b = hot(rng);
            refix(first, &vec![b; n])
        }
        _ => {
            // many tiny frames
            let mut s = Vec::new();
            // (monitors look at the rest of the stream after every frame)
            while s.len() < n.min(70_000) {
                s.extend_from_slice(*rng.pick(&[
                    &[0xC0u8, 0][..],
                    &[0xD0, 0],
                    &[0xE0, 0],
                    &[0x40, 2, 0, 1],
                    &[0x00, 0],
                    &[0x30, 3, 0, 0, 0],
                ]));
            }
            s
        }
    }
}

pub fn families(thorough: bool, scale: u64) -> Vec<HFam> {
    let sc = |n: u64| (n * scale / 100).max(1);
    let mut v = Vec::new();
    // All streams of 0, 1 and 2 bytes.
    v.push(hf("short-0-1-2", 1 + 256 + 65_536, |_, i| {
        if i == 0 {
            vec![]
        } else if i <= 256 {
            vec![(i - 1) as u8]
        } else {
            let k = i - 257;
            vec![(k >> 8) as u8, k as u8]
        }
    }));
    if scale >= 60 {
        v.push(hf("huge-lists", if thorough { gen::HUGE * 2 } else { 36 }, |rng, i| {
            let mut w = rc::encode(&gen::huge_list(i / 2).norm(), &Form { shuffle: None, explicit: 2 });
            if i % 2 == 1 {
                let at = w.len() - 1 - rng.below(100);
                w[at] = hot(rng);
            }
            w
        }));
    }
    // Every first byte with every short body over a small alphabet.
    const AL: &[u8] = &[0, 1, 2, 4, 0x26, 0x7F, 0x80, 0xFF];
    let bodies = 1 + 8 + 64 + 512 + if thorough { 4096 } else { 0 };
    v.push(hf("short-bodies", 256 * bodies, move |_, i| {
        let (first, mut k) = ((i / bodies) as u8, i % bodies);
        let mut len = 0;
        let mut pow = 1;
        while k >= pow {
            k -= pow;
            pow *= 8;
            len += 1;
        }
        let mut b = Vec::new();
        for _ in 0..len {
            b.push(AL[(k % 8) as usize]);
            k /= 8;
        }
        refix(first, &b)
    }));
    // Every prefix of every base packet: as it is, and with the length repaired.
    let mut frames: Vec<Vec<u8>> = Vec::new();
    for m in gen::bases() {
        for e in 0..3 {
            let f = rc::encode(&m, &Form { shuffle: None, explicit: e });
            if !frames.contains(&f) {
                frames.push(f);
            }
        }
    }
    let mut cuts = Vec::new();
    for (i, f) in frames.iter().enumerate() {
        for c in 0..f.len() {
            cuts.push((i, c));
        }
    }
    let nc = cuts.len() as u64;
    let fr = frames.clone();
    v.push(hf("truncate", nc * 2, move |_, i| {
        let (f, c) = cuts[(i % nc) as usize];
        if i < nc {
            return fr[f][..c].to_vec();
        }
        let (first, body) = split_frame(&fr[f]);
        refix(first, &body[..c.min(body.len())])
    }));
    // Extra bytes after the last field, with the length repaired.
    let fr = frames.clone();
    v.push(hf("extend", frames.len() as u64 * 8, move |rng, i| {
        let (first, mut body) = split_frame(&fr[(i / 8) as usize]);
        for _ in 0..=i % 4 {
            body.push(hot(rng));
        }
        refix(first, &body)
    }));
    // Substitution of every byte of every base packet by other values.
    let mut subs = Vec::new();
    for (i, f) in frames.iter().enumerate() {
        for c in 0..f.len().min(if thorough { 400 } else { 160 }) {
            subs.push((i, c));
        }
    }
    let fr = frames.clone();
    let per = if thorough { 256 } else { sc(48).min(48) };
    v.push(hf("substitute", subs.len() as u64 * per, move |rng, i| {
        let (f, c) = subs[(i / per) as usize];
        let mut s = fr[f].clone();
        let k = i % per;
        s[c] = if per == 256 {
            k as u8
        } else if k < 8 {
            s[c] ^ (1 << k)
        } else if k < 8 + HOT.len() as u64 {
            HOT[(k - 8) as usize]
        } else {
            rng.u8()
        };
        s
    }));
    // Two bytes substituted (a length and something it measures, often).
    let fr = frames.clone();
    v.push(hf("substitute-two", if thorough { sc(2_000_000) } else { sc(60_000) }, move |rng, _| {
        let k = rng.below(fr.len());
        let mut s = fr[k].clone();
        let n = s.len();
        for _ in 0..2 {
            let at = rng.below(n);
            s[at] = hot(rng);
        }
        s
    }));
    // A byte inserted in or removed from the body, with the length repaired.
    let fr = frames.clone();
    v.push(hf("shift-body", if thorough { sc(1_000_000) } else { sc(60_000) }, move |rng, _| {
        let k = rng.below(fr.len());
        let (first, mut b) = split_frame(&fr[k]);
        if b.is_empty() || rng.bool() {
            let at = rng.below(b.len() + 1);
            b.insert(at, hot(rng));
        } else {
            let at = rng.below(b.len());
            b.remove(at);
        }
        refix(first, &b)
    }));
    v.push(hf("mutate", if thorough { sc(3_000_000) } else { sc(80_000) }, |rng, _| {
        let s = random_frame(rng);
        let other = random_frame(rng);
        let fix = rng.chance(2, 3);
        if fix {
            let (first, body) = split_frame(&s);
            let first = if rng.chance(1, 8) { hot(rng) } else { first };
            refix(first, &mutate(rng, body, &other))
        } else {
            mutate(rng, s, &other)
        }
    }));
    // Random packets with a part damaged and everything around it fitting.
    v.push(hf("structured", if thorough { sc(6_000_000) } else { sc(150_000) }, |rng, i| {
        structured(rng, TYPES[(i % 14) as usize])
    }));
    let n = if thorough { 8000 } else { sc(360).max(12) };
    v.push(hf("every-value", n * 256, |_, i| every_value(i)));
    v.push(hf("type-swap", frames.len() as u64 * 16, move |_, i| {
        let (first, body) = split_frame(&frames[(i / 16) as usize]);
        let t = (i % 16) as u8;
        let low = match t {
            6 | 8 | 10 => 2,
            3 => first & 7,
            _ => 0,
        };
        refix((t << 4) | low, &body)
    }));
    v.push(hf("random", if thorough { sc(3_000_000) } else { sc(60_000) }, |rng, i| {
        let n = rng.range(0, 48);
        let b: Vec<u8> = (0..n).map(|_| hot(rng)).collect();
        if i % 4 == 0 {
            b
        } else {
            let t = *rng.pick(&TYPES);
            let low = if matches!(t, 6 | 8 | 10) { 2 } else { 0 };
            let low = if t == 3 { rng.below(6) as u8 } else { low };
            refix((t << 4) | low, &b)
        }
    }));
    // Random bytes behind a correct start, so deep code is reached.
    v.push(hf("random-properties", if thorough { sc(2_000_000) } else { sc(60_000) }, |rng, _| {
        let sec = *rng.pick(&SECTIONS);
        let m = gen::host(sec);
        let mut p = Vec::new();
        for _ in 0..rng.range(1, 5) {
            let ids = section_props(sec);
            let id = if rng.chance(7, 8) { ids[rng.below(ids.len())] } else { hot(rng) };
            match rng.below(3) {
                0 => {
                    p.push(id);
                    p.extend((0..rng.range(0, 6)).map(|_| hot(rng)));
                }
                _ => {
                    if prop_kind(id).is_some() {
                        let v = gen::gval(rng, id);
                        let mut b = Vec::new();
                        rc::put_prop(&mut b, id, &v);
                        b.truncate(300);
                        p.extend_from_slice(&b);
                    } else {
                        p.push(id);
                    }
                }
            }
        }
        let declared = match rng.below(6) {
            0 => p.len() + 1,
            1 => p.len().saturating_sub(1),
            2 => rng.below(40),
            _ => p.len(),
        };
        with_raw_props(&m, sec, declared, &p)
    }));
    let sizes: &[usize] = if thorough {
        &[16, 200, 5000, 70_000, 600_000, 2_200_000]
    } else {
        &[16, 200, 5000, 70_000]
    };
    let ns = sizes.len() as u64;
    let sizes = sizes.to_vec();
    v.push(hf("bomb", 12 * 13 * ns * 2, move |rng, i| {
        let k = i % (12 * 13);
        bomb(rng, k, sizes[((i / (12 * 13)) % ns) as usize])
    }));
    v
}

/// The packet `m` with its property section `sec` replaced by raw bytes and a
/// declared length.
pub fn with_raw_props(m: &M, sec: u8, declared: usize, raw: &[u8]) -> Vec<u8> {
    let mut m = m.clone();
    gen::props_mut(&mut m, sec).clear();
    let b = rc::body(&m, &Form { shuffle: None, explicit: 2 });
    // Where the (single zero) property length byte is.
    let at = match sec {
        CONNECT => 10,
        WILL => 10 + 1 + 2 + m.name.len(),
        CONNACK => 2,
        PUBLISH => 2 + m.name.len() + if m.qos > 0 { 2 } else { 0 },
        PUBACK..=PUBCOMP => 3,
        DISCONNECT => 1,
        _ => 2,
    };
    assert_eq!(b[at], 0);
    let mut o = b[..at].to_vec();
    rc::put_varint(&mut o, declared);
    o.extend_from_slice(raw);
    o.extend_from_slice(&b[at + 1..]);
    refix(rc::first_byte(&m), &o)
}
