//! Monitors of the encoder: C01 C02 C03 C04 C05 C16 C22.

use crate::bridge::*;
use crate::ctx::*;
use crate::gen::{self, *};
use crate::hostile;
use crate::model::*;
use crate::refcodec::{self as rc, quirk, Form, Framing, Verdict};
use crate::rng::{fnv, Rng};
use crate::tables::{connack_props_from, connect_props_from, publish_props_from};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use mqtt_bytes_v5::*;

pub type OnModel = fn(&mut Ctx, &mut Rng, &M);

pub fn on_valid(out: &mut Vec<Fam>, thorough: bool, scale: u64, f: OnModel) {
    for vf in gen::families(thorough, scale) {
        let g = vf.gen;
        out.push(fam(&format!("valid/{}", vf.name), vf.count, move |c, i| {
            let mut rng = c.rng();
            let m = g(&mut rng, i).norm();
            f(c, &mut rng, &m);
        }));
    }
}

pub fn on_hostile(
    out: &mut Vec<Fam>,
    thorough: bool,
    scale: u64,
    f: fn(&mut Ctx, &mut Rng, &[u8]),
) {
    for hf in hostile::families(thorough, scale) {
        let g = hf.gen;
        out.push(fam(&format!("hostile/{}", hf.name), hf.count, move |c, i| {
            let mut rng = c.rng();
            let s = g(&mut rng, i);
            f(c, &mut rng, &s);
        }));
    }
}

/// Encodes through the packet-level writer into a fresh buffer.
pub fn enc(c: &mut Ctx, m: &M, keep_empty: bool) -> Option<(Packet, BytesMut, usize)> {
    let p = to_packet(m, keep_empty);
    let mut b = BytesMut::new();
    let r = c.cut("write", &[], || p.write(&mut b));
    match r {
        None => None,
        Some(Ok(n)) => Some((p, b, n)),
        Some(Err(e)) => {
            c.fail("write-error", format!("{e:?} writing {}", m.brief()), &[]);
            None
        }
    }
}

/// Fingerprint of a model through its canonical wire form.
pub fn mfp(m: &M) -> u64 {
    fnv(0xF00D, &rc::encode(m, &Form { shuffle: None, explicit: 2 }))
}

fn type_counter(t: u8) -> &'static str {
    match t {
        1 => "CONNECT",
        2 => "CONNACK",
        3 => "PUBLISH",
        4 => "PUBACK",
        5 => "PUBREC",
        6 => "PUBREL",
        7 => "PUBCOMP",
        8 => "SUBSCRIBE",
        9 => "SUBACK",
        10 => "UNSUBSCRIBE",
        11 => "UNSUBACK",
        12 => "PINGREQ",
        13 => "PINGRESP",
        14 => "DISCONNECT",
        _ => "other",
    }
}

pub fn tick(c: &mut Ctx, t: u8) {
    c.count(type_counter(t));
}

// --------------------------------------------------------------------- C01

pub fn c01(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let keep = rng.chance(1, 3);
    let Some((p, b, _)) = enc(c, m, keep) else { return };
    let wire = b.clone();
    c.eval(fnv(1, &wire) ^ u64::from(keep));
    tick(c, m.ty);
    c.sample(|| format!("{} -> {}", m.brief(), hex(&wire)));
    let mut s = b;
    let Some(r) = c.cut("read", &wire, || Packet::read(&mut s, None)) else { return };
    let q = match r {
        Ok(q) => q,
        Err(e) => {
            c.fail("not-readable", format!("{e:?} reading back {}", m.brief()), &wire);
            return;
        }
    };
    let got = from_packet(&q);
    c.check(got == *m, "content", &wire, || {
        format!("wrote {} read {}", m.brief(), got.brief())
    });
    c.check(s.is_empty(), "left-over", &wire, || format!("{} bytes not consumed", s.len()));
    if !keep {
        // Without empty-but-present sets the very value comes back.
        c.check(p == q, "value", &wire, || format!("{p:?} != {q:?}"));
        c.count("compared by value");
    }
}

/// Sequences of packets written to one buffer come back in order.
fn c01_seq(c: &mut Ctx, _i: u64) {
    let mut rng = c.rng();
    let n = rng.range(2, 12);
    let ms: Vec<M> = (0..n)
        .map(|_| {
            let t = *rng.pick(&TYPES);
            random_model(&mut rng, t).norm()
        })
        .collect();
    let mut b = BytesMut::new();
    for m in &ms {
        let p = to_packet(m, false);
        let Some(r) = c.cut("write", &b.clone(), || p.write(&mut b)) else { return };
        if let Err(e) = r {
            c.fail("write-error", format!("{e:?} writing {}", m.brief()), &[]);
            return;
        }
    }
    let wire = b.clone();
    c.eval(fnv(2, &wire));
    c.count("sequences");
    for (k, m) in ms.iter().enumerate() {
        let Some(r) = c.cut("read", &wire, || Packet::read(&mut b, None)) else { return };
        match r {
            Ok(q) => {
                let got = from_packet(&q);
                if !c.check(got == *m, "sequence", &wire, || {
                    format!("packet {k} of {n}: wrote {} read {}", m.brief(), got.brief())
                }) {
                    return;
                }
            }
            Err(e) => {
                c.fail("sequence", format!("packet {k} of {n}: {e:?}"), &wire);
                return;
            }
        }
    }
    c.check(b.is_empty(), "sequence", &wire, || format!("{} bytes left", b.len()));
}

pub fn c01_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, scale, c01);
    v.push(fam("sequence", if t { 400_000 } else { 8000 * scale / 100 + 1 }, c01_seq));
    v
}

// --------------------------------------------------------------------- C02

fn c02(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let keep = rng.chance(1, 3);
    let Some((_, b, _)) = enc(c, m, keep) else { return };
    c.eval(fnv(1, &b) ^ u64::from(keep));
    tick(c, m.ty);
    c.sample(|| format!("{} -> {}", m.brief(), hex(&b)));
    c02_wire(c, m, &b);
}

fn c02_wire(c: &mut Ctx, m: &M, b: &[u8]) {
    if !matches!(rc::framing(b), Framing::Frame { remaining, header } if remaining + header == b.len())
    {
        c.fail("not-one-frame", format!("{:?} for {}", rc::framing(b), m.brief()), b);
        return;
    }
    match rc::judge(b, TEXT) {
        Verdict::Bad(why) => c.fail("malformed", format!("{why}: {}", m.brief()), b),
        Verdict::Good(got, q) => {
            c.check(got == *m, "content", b, || {
                format!("meant {} but the bytes say {}", m.brief(), got.brief())
            });
            let bad = q & (quirk::OVERLONG_VARINT | quirk::DUPLICATE_PROPERTY);
            c.check(bad == 0, "form", b, || {
                format!("overlong integer or repeated property: {}", m.brief())
            });
            c.count("judged by the reference decoder");
        }
    }
}

pub fn c02_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, scale, c02);
    v
}

// --------------------------------------------------------------------- C03

fn c03(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let keep = rng.chance(1, 3);
    let p = to_packet(m, keep);
    let pre = rng.below(4) * 3;
    let mut b = BytesMut::from(&vec![0xEE; pre][..]);
    let Some(size) = c.cut("size", &[], || size_of(&p)) else { return };
    let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
    let Ok(n) = r else {
        c.fail("write-error", format!("{r:?} writing {}", m.brief()), &[]);
        return;
    };
    if b.len() < pre {
        c.fail("returned-count", format!("returned {n}, {} bytes of the buffer lost", pre - b.len()), &[]);
        return;
    }
    let wire = &b[pre..];
    c.eval(fnv(1, wire) ^ u64::from(keep));
    tick(c, m.ty);
    c.sample(|| format!("{}: returned {n}, size {size:?}, appended {}", m.brief(), wire.len()));
    c.max("max frame bytes", wire.len() as u64);
    c.check(n == wire.len(), "returned-count", wire, || {
        format!("returned {n}, appended {} for {}", wire.len(), m.brief())
    });
    match rc::framing(wire) {
        Framing::Frame { remaining, header } => {
            c.check(header + remaining == wire.len(), "declared-length", wire, || {
                format!("declares {} but is {} bytes: {}", header + remaining, wire.len(), m.brief())
            });
            c.check(rc::varint_len(remaining) + 1 == header, "length-form", wire, || {
                format!("remaining length {remaining} took {} bytes", header - 1)
            });
        }
        f => c.fail("declared-length", format!("{f:?} after writing {}", m.brief()), wire),
    }
    if let Some(s) = size {
        c.count("size() compared");
        c.check(s == wire.len(), "predicted-size", wire, || {
            format!("size() says {s}, {} bytes written for {}", wire.len(), m.brief())
        });
    }
    // The writer of the packet's own type keeps the same accounts.
    let mut b2 = BytesMut::new();
    if let Some(Ok(n2)) = c.cut("typed write", &[], || typed_write(&p, &mut b2)) {
        c.check(n2 == b2.len(), "typed-returned-count", &b2.clone(), || {
            format!("returned {n2}, appended {} for {}", b2.len(), m.brief())
        });
    }
}

pub fn c03_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, scale, c03);
    v
}

// --------------------------------------------------------------------- C04

const FILL: u8 = 0xE7;

fn c04(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let keep = rng.chance(1, 3);
    let Some((p, fresh, n0)) = enc(c, m, keep) else { return };
    c.eval(fnv(1, &fresh));
    tick(c, m.ty);
    let len = fresh.len();
    let plen = *rng.pick(&[1usize, 2, 3, 5, 7, 64, 127, 128, 129, 300, 1000, 20_000]);
    let prefix: Vec<u8> = match rng.below(3) {
        0 => vec![FILL; plen],
        1 => rng.bytes(plen),
        _ => fresh.iter().copied().cycle().take(plen).collect(),
    };
    let big = len > 100_000;
    for variant in 0..6 {
        if big && variant > 1 {
            break;
        }
        // A neighbour that shares the allocation must not be touched.
        let mut before: Option<BytesMut> = None;
        let mut after: Option<BytesMut> = None;
        let mut frozen: Option<Bytes> = None;
        let mut b = match variant {
            0 => BytesMut::from(&prefix[..]),
            1 => {
                let mut b = BytesMut::with_capacity(prefix.len() + len);
                b.extend_from_slice(&prefix);
                b
            }
            2 => {
                // one byte short of room: grows in the middle of the packet
                let mut b = BytesMut::with_capacity(prefix.len() + rng.below(len));
                b.extend_from_slice(&prefix);
                b
            }
            3 => {
                // an earlier part was split off and is still alive
                let mut b = BytesMut::with_capacity(prefix.len() + 40 + rng.below(2 * len + 1));
                b.extend_from_slice(&[FILL; 40]);
                before = Some(b.split_to(40));
                b.extend_from_slice(&prefix);
                b
            }
            4 => {
                // a later part was split off and is still alive
                let mut b = BytesMut::with_capacity(prefix.len() + 40);
                b.extend_from_slice(&prefix);
                b.extend_from_slice(&[FILL; 40]);
                after = Some(b.split_off(prefix.len()));
                b
            }
            _ => {
                // bytes consumed from the front, an earlier packet frozen
                let mut b = BytesMut::with_capacity(prefix.len() + 80 + len);
                b.extend_from_slice(&[FILL; 80]);
                b.advance(40);
                frozen = Some(b.split_to(40).freeze());
                b.extend_from_slice(&prefix);
                b
            }
        };
        let typed = variant % 2 == 1;
        let Some(r) = c.cut("write", &prefix, || {
            if typed {
                typed_write(&p, &mut b)
            } else {
                p.write(&mut b)
            }
        }) else {
            return;
        };
        c.count("writes into used buffers");
        let tag = format!("variant {variant}, {plen} bytes before, {}", m.brief());
        if !c.check(r == Ok(n0), "result", &b.clone(), || format!("{r:?} not Ok({n0}): {tag}")) {
            return;
        }
        let ok = b.len() == prefix.len() + len;
        if !c.check(ok, "appended-length", &b.clone(), || {
            format!("{} bytes appended, {len} expected: {tag}", b.len() as i64 - plen as i64)
        }) {
            return;
        }
        c.check(b[..plen] == prefix[..], "earlier-bytes", &b.clone(), || {
            format!("bytes written before were changed: {tag}")
        });
        c.check(b[plen..] == fresh[..], "context", &b.clone(), || {
            format!("packet differs from the one in a fresh buffer: {tag}")
        });
        for (name, x) in [("before", &before), ("after", &after)] {
            if let Some(x) = x {
                c.check(x.len() == 40 && x.iter().all(|y| *y == FILL), "neighbour", &b.clone(), || {
                    format!("neighbour {name} changed: {tag}")
                });
            }
        }
        if let Some(x) = frozen {
            c.check(x.len() == 40 && x.iter().all(|y| *y == FILL), "neighbour", &b.clone(), || {
                format!("frozen earlier bytes changed: {tag}")
            });
        }
    }
    c.sample(|| format!("{} after {plen} bytes", m.brief()));
}

/// Many packets in one buffer equal the concatenation of each alone.
fn c04_seq(c: &mut Ctx, _i: u64) {
    let mut rng = c.rng();
    let n = rng.range(2, 30);
    let mut want: Vec<u8> = Vec::new();
    let mut b = BytesMut::with_capacity(rng.below(64));
    for _ in 0..n {
        let t = *rng.pick(&TYPES);
        let m = random_model(&mut rng, t).norm();
        let Some((p, one, _)) = enc(c, &m, false) else { return };
        want.extend_from_slice(&one);
        let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
        c.count("writes into used buffers");
        let ok = r == Ok(one.len()) && b[..] == want[..];
        if !c.check(ok, "concatenation", &b.clone(), || {
            format!("after {} in a row of {n}: {r:?}", m.brief())
        }) {
            return;
        }
        // Drain from the front now and then, as a connection does.
        if rng.chance(1, 6) {
            let k = rng.below(b.len() + 1);
            b.advance(k);
            want.drain(..k);
        }
    }
    c.eval(fnv(3, &want));
}

/// Far into a long buffer: writers that patch what they wrote must find it there.
fn c04_far(c: &mut Ctx, i: u64) {
    const AT: [usize; 15] = [
        (1 << 15) - 3, 1 << 15, (1 << 16) - 6, 1 << 16, (1 << 16) + 9, 1 << 17, (1 << 18) + 5, (1 << 19) - 2,
        1 << 20, (1 << 20) + 5, (1 << 21) + 1, (1 << 22) + 3, (1 << 23) + 2, (1 << 24) - 4, (1 << 24) + 11,
    ];
    let mut rng = c.rng();
    let at = AT[i as usize % AT.len()];
    let mut want = vec![FILL; at];
    let mut b = BytesMut::from(&want[..]);
    for t in TYPES {
        let mut m = random_model(&mut rng, t).norm();
        if t == CONNECT {
            m.will.get_or_insert_with(Will::default).qos = 1;
            m.user = b"u".to_vec();
            m = m.norm();
        }
        let Some((p, one, _)) = enc(c, &m, false) else { return };
        want.extend_from_slice(&one);
        c.eval(fnv(at as u64, &one));
        let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
        c.count("writes far into a buffer");
        let from = want.len() - one.len();
        if !c.check(r == Ok(one.len()) && b[from.min(b.len())..] == one[..], "far", &[], || {
            format!("{} written behind {from} bytes: {r:?}", m.brief())
        }) {
            return;
        }
    }
    let same = b[..] == want[..];
    c.check(same, "far-disturbed", &[], || {
        let k = b.iter().zip(&want).position(|(x, y)| x != y);
        format!("behind {at} bytes: byte {k:?} of what was there changed")
    });
    // One packet refused there leaves it all in place.
    let mut bad = M::new(PUBLISH);
    bad.name = vec![b'x'; 65_536];
    let p = to_packet(&bad, false);
    let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
    c.check(r.is_err() && b[..] == want[..], "far-refused", &[], || format!("behind {} bytes: {r:?}", want.len()));
}

pub fn c04_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    v.push(fam("far", if t { 150 } else { 15 }, c04_far));
    on_valid(&mut v, t, if t { 100 } else { scale.min(200) }, c04);
    v.push(fam("sequence", if t { 200_000 } else { 4000 * scale / 100 + 1 }, c04_seq));
    v
}

// --------------------------------------------------------------------- C05

/// Ways to make a packet that has no MQTT 5 encoding.
#[derive(Clone, Copy, Debug)]
enum Fault {
    Field(Slot, usize),
    SubId(u8, usize, usize),
    ZeroId(u8),
    OldCode(u8),
    Payload(usize),
    Will(usize),
}

fn faults() -> Vec<Fault> {
    let mut v = Vec::new();
    for s in slots() {
        for n in [65_536usize, 65_537, 65_540, 65_791, 70_000, 131_071, 131_072, 131_077, 200_000] {
            v.push(Fault::Field(s, n));
        }
    }
    for sec in [SUBSCRIBE, PUBLISH] {
        for k in 0..3 {
            for x in [
                268_435_456usize,
                268_435_457,
                268_435_456 + 127,
                1 << 29,
                1 << 31,
                u32::MAX as usize,
                1 << 32,
                (1 << 32) + 1,
                (1 << 35) + 7,
                usize::MAX - 1,
                usize::MAX,
            ] {
                if sec == PUBLISH || k == 0 {
                    v.push(Fault::SubId(sec, x, k));
                }
            }
        }
    }
    for q in 1..=2 {
        for _ in 0..6 {
            v.push(Fault::ZeroId(q));
        }
    }
    for k in 1..=3 {
        for _ in 0..6 {
            v.push(Fault::OldCode(k));
        }
    }
    for n in [MAX_REMAINING + 1, MAX_REMAINING, MAX_REMAINING - 2, MAX_REMAINING + 500] {
        v.push(Fault::Payload(n));
    }
    for n in [65_536, 65_600, 131_072] {
        v.push(Fault::Will(n));
    }
    v
}

pub fn v3_code(k: u8) -> ConnectReturnCode {
    match k {
        1 => ConnectReturnCode::RefusedProtocolVersion,
        2 => ConnectReturnCode::BadClientId,
        _ => ConnectReturnCode::ServiceUnavailable,
    }
}

/// The packet and the errors that describe the reason.
fn faulty(rng: &mut Rng, f: Fault) -> (Packet, &'static str, Vec<Error>, String) {
    // Around the fault, a packet as rich as any other.
    let around = |rng: &mut Rng, m: &mut M| {
        let x = random_model(rng, m.ty);
        if rng.bool() {
            m.props.extend(x.props.into_iter().filter(|a| a.0 == 0x26 || a.0 == 0x1F));
            m.props.sort_by_key(|a| a.0);
            m.props.dedup_by_key(|a| if a.0 == 0x26 { 0 } else { u32::from(a.0) });
        }
        if rng.bool() {
            m.keep_alive = x.keep_alive;
            m.clean = x.clean;
            m.code = if m.ty == CONNACK || m.ty == DISCONNECT { x.code } else { m.code };
        }
    };
    match f {
        Fault::Field(s, n) => {
            let mut m = s.put(vec![b'L'; n]);
            around(rng, &mut m);
            // keep the fault itself
            (to_packet(&m, false), "field", vec![Error::BinaryDataTooLong], format!("{s:?} of {n} bytes"))
        }
        Fault::SubId(sec, x, k) => {
            let m = host(sec);
            let mut p = to_packet(&m, true);
            match &mut p {
                Packet::Subscribe(s) => s.properties.as_mut().unwrap().id = Some(x),
                Packet::Publish(s) => {
                    let ids = &mut s.properties.as_mut().unwrap().subscription_identifiers;
                    *ids = vec![5, 200, 300];
                    ids[k] = x;
                }
                _ => unreachable!(),
            }
            (p, "subscription-id", vec![Error::PayloadTooLong], format!("{} id {x} at {k}", type_name(sec)))
        }
        Fault::ZeroId(q) => {
            let mut m = random_model(rng, PUBLISH);
            m.qos = q;
            m.pkid = 0;
            (to_packet(&m, rng.bool()), "zero-id", vec![Error::PacketIdZero], m.brief())
        }
        Fault::OldCode(k) => {
            let m = random_model(rng, CONNACK);
            let mut p = to_packet(&m, rng.bool());
            if let Packet::ConnAck(a) = &mut p {
                a.code = v3_code(k);
            }
            (p, "old-code", vec![Error::InvalidConnectReturnCode(k)], format!("code {k}: {}", m.brief()))
        }
        Fault::Payload(n) => {
            let mut m = host(PUBLISH);
            m.payload.clear();
            let mut p = to_packet(&m, false);
            if let Packet::Publish(x) = &mut p {
                x.payload = Bytes::from(vec![0u8; n]);
            }
            (p, "payload", vec![Error::PayloadTooLong], format!("payload of {n} bytes"))
        }
        Fault::Will(n) => {
            let mut m = random_model(rng, CONNECT);
            let mut w = gwill(rng);
            if rng.bool() {
                w.topic = vec![b'L'; n];
            } else {
                w.message = vec![b'L'; n];
            }
            m.will = Some(w);
            (to_packet(&m, rng.bool()), "field", vec![Error::BinaryDataTooLong], format!("will of {n}: {}", m.brief()))
        }
    }
}

/// A packet of this type that cannot be written, if there is any.
pub fn unencodable(rng: &mut Rng, ty: u8) -> Option<Packet> {
    static F: std::sync::OnceLock<Vec<Vec<Fault>>> = std::sync::OnceLock::new();
    let by_type = F.get_or_init(|| {
        let mut v: Vec<Vec<Fault>> = (0..16).map(|_| Vec::new()).collect();
        for f in faults() {
            let t = match f {
                Fault::Field(_, n) if n > 70_000 => continue,
                Fault::Field(s, _) => s.put(vec![]).ty,
                Fault::SubId(sec, ..) => sec,
                Fault::ZeroId(_) => PUBLISH,
                Fault::OldCode(_) => CONNACK,
                Fault::Payload(_) => continue,
                Fault::Will(_) => CONNECT,
            };
            v[t as usize].push(f);
        }
        v
    });
    let fs = &by_type[ty as usize];
    if fs.is_empty() {
        return None;
    }
    let f = fs[rng.below(fs.len())];
    Some(faulty(rng, f).0)
}

/// Puts much data into the packet, ahead of most of its other fields.
fn fatten(p: &mut Packet, n: usize) -> bool {
    let text = |x: usize| mk(&vec![b'f'; x]);
    let ups = || -> Vec<_> {
        let mut v = Vec::new();
        let mut left = n;
        while left > 0 {
            let x = left.min(60_000);
            v.push((text(3), text(x)));
            left -= x;
        }
        v
    };
    macro_rules! props {
        ($x:expr) => {
            match &mut $x.properties {
                Some(q) => {
                    q.user_properties.splice(0..0, ups());
                    true
                }
                None => false,
            }
        };
    }
    match p {
        Packet::Connect(x, ..) => props!(x),
        Packet::ConnAck(x) => props!(x),
        Packet::Publish(x) => props!(x),
        Packet::PubAck(x) => props!(x),
        Packet::PubRec(x) => props!(x),
        Packet::PubRel(x) => props!(x),
        Packet::PubComp(x) => props!(x),
        Packet::SubAck(x) => props!(x),
        Packet::UnsubAck(x) => props!(x),
        Packet::Disconnect(x) => props!(x),
        Packet::Subscribe(x) => {
            let (q, t) = (QoS::AtLeastOnce, n / 60_000 + 1);
            x.filters.splice(0..0, (0..t).map(|_| Filter::new(text(60_000), q)));
            true
        }
        Packet::Unsubscribe(x) => {
            x.filters.splice(0..0, (0..n / 60_000 + 1).map(|_| text(60_000)));
            true
        }
        _ => false,
    }
}

fn c05_fault(c: &mut Ctx, i: u64, faults: &[Fault]) {
    let mut rng = c.rng();
    let f = faults[(i % faults.len() as u64) as usize];
    if cfg!(miri) && matches!(f, Fault::Payload(_)) {
        return;
    }
    let (mut p, kind, want, mut what) = faulty(&mut rng, f);
    let small = !matches!(f, Fault::Payload(_)) && !cfg!(miri);
    if small && rng.chance(1, 12) {
        let n = *rng.pick(&[65_000usize, 140_000, 300_000, 1_200_000]);
        if fatten(&mut p, n) {
            c.count("faults behind much else");
            what = format!("{n} bytes first, {what}");
        }
    }
    let pre = if small && rng.chance(1, 16) {
        let n = *rng.pick(&[65_535usize, 65_536, 65_537, 70_001, 131_080, 200_003, 1_048_577]);
        c.count("faults behind a large buffer");
        vec![rng.u8(); n]
    } else if small && rng.chance(1, 800) {
        vec![rng.u8(); (1 << 24) + 17]
    } else {
        let n = *rng.pick(&[0usize, 1, 9, 200]);
        rng.bytes(n)
    };
    let mut b = BytesMut::with_capacity(rng.below(400));
    b.put_slice(&pre);
    let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
    c.eval(fnv(i, what.as_bytes()));
    c.count(match kind {
        "field" => "fault: field over 65535 bytes",
        "subscription-id" => "fault: subscription identifier over 268435455",
        "zero-id" => "fault: QoS > 0 without packet identifier",
        "old-code" => "fault: return code MQTT 5 does not have",
        _ => "fault: packet over 268435455 bytes",
    });
    c.sample(|| format!("{what}: {r:?}"));
    match r {
        Ok(n) => c.fail("accepted", format!("{what}: Ok({n}), {} bytes appended", b.len() - pre.len().min(b.len())), &[]),
        Err(e) => {
            c.check(want.contains(&e), "reason", &[], || format!("{what}: {e:?}, expected {want:?}"));
        }
    }
    if r.is_err() {
        if !c.check(b[..] == pre[..], "partial", &b[..b.len().min(4096)].to_vec(), || {
            format!("{what}: buffer was {} bytes, is {}", pre.len(), b.len())
        }) {
            return;
        }
        // and the buffer still works
        let m = host(PUBACK);
        let Some(r) = c.cut("write after error", &[], || to_packet(&m, false).write(&mut b)) else { return };
        let ok = r.is_ok()
            && b.len() > pre.len()
            && b[..pre.len()] == pre[..]
            && matches!(rc::judge(&b[pre.len()..], TEXT), rc::Verdict::Good(x, _) if x == m);
        c.check(ok, "after-error", &[], || format!("{what}: next packet {r:?}"));
    }
}

/// Everything representable is written without error, into any buffer.
fn c05_ok(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let keep = rng.bool();
    let p = to_packet(m, keep);
    let mut b = BytesMut::new();
    let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
    c.eval(fnv(2, &b));
    c.count("representable packets");
    c.check(r.is_ok(), "refused", &[], || format!("{r:?}: {}", m.brief()));
    // Typed writers and size() must not panic either.
    let mut b = BytesMut::new();
    c.cut("typed write", &[], || typed_write(&p, &mut b));
    c.cut("size", &[], || size_of(&p));
}

/// The largest packet MQTT allows is written; one byte more is refused.
fn c05_limit(c: &mut Ctx, i: u64) {
    if cfg!(miri) {
        return;
    }
    let mut rng = c.rng();
    let m = host(PUBLISH);
    let mut p = to_packet(&m, false);
    let over = i % 2;
    let fixed = 2 + 1 + 2 + 1;
    if let Packet::Publish(x) = &mut p {
        x.payload = Bytes::from(vec![0u8; MAX_REMAINING - fixed + over as usize]);
    }
    let pre = rng.bytes(3);
    let mut b = BytesMut::from(&pre[..]);
    let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
    c.eval(0xAAAA + i);
    c.count("packets at the size limit");
    if over == 0 {
        c.check(r == Ok(MAX_REMAINING + 5), "limit", &[], || format!("largest packet: {r:?}"));
        let ok = b.len() == 3 + 5 + MAX_REMAINING && b[3..8] == [0x32, 0xFF, 0xFF, 0xFF, 0x7F];
        c.check(ok, "limit", &[], || format!("largest packet: {} bytes", b.len()));
    } else {
        c.check(r == Err(Error::PayloadTooLong), "limit", &[], || format!("one over: {r:?}"));
        c.check(b[..] == pre[..], "partial", &[], || format!("one over: buffer has {} bytes", b.len()));
    }
}

/// One text of the longest size, shared where the configuration can share.
fn longest() -> S {
    static T: std::sync::OnceLock<&'static str> = std::sync::OnceLock::new();
    let t: &'static str = T.get_or_init(|| Box::leak("x".repeat(65_535).into_boxed_str()));
    S::from(t)
}

/// User properties that take exactly `n` bytes.
fn pairs_of(n: usize) -> Vec<(S, S)> {
    const FULL: usize = 5 + 2 * 65_535;
    let mut v = Vec::with_capacity(n / FULL + 3);
    let mut left = n;
    while left >= FULL + 5 {
        v.push((longest(), longest()));
        left -= FULL;
    }
    while left > 0 {
        let take = if left > FULL { 1000 } else { left };
        let k = (take - 5).min(65_535);
        v.push((mk(&vec![b'k'; k]), mk(&vec![b'v'; take - 5 - k])));
        left -= take;
    }
    v
}

/// Packets around the size limit of every kind, by what makes them large:
/// (a packet, its exact remaining length, its property length if that is large)
fn oversize(sec: u8, by: u8, over: i64) -> Packet {
    let m = host(sec);
    let mut p = to_packet(&m, true);
    let mut b = BytesMut::new();
    let base = p.write(&mut b).unwrap() - 2;
    let total = (MAX_REMAINING as i64 + over) as usize;
    match (by, &mut p) {
        // properties: their length takes four bytes instead of one
        (0, p) => {
            let n = pairs_of(total - base - 3);
            match p {
                Packet::Connect(_, Some(w), _) if sec == WILL => w.properties.as_mut().unwrap().user_properties = n,
                Packet::Connect(x, ..) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::ConnAck(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::Publish(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::PubAck(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::PubRec(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::PubRel(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::PubComp(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::Subscribe(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::SubAck(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::Unsubscribe(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::UnsubAck(x) => x.properties.as_mut().unwrap().user_properties = n,
                Packet::Disconnect(x) => x.properties.as_mut().unwrap().user_properties = n,
                _ => unreachable!(),
            }
        }
        (_, Packet::Subscribe(x)) => {
            let mut left = total - base;
            while left > 65_538 + 3 {
                x.filters.push(Filter::new(longest(), QoS::AtMostOnce));
                left -= 65_538;
            }
            x.filters.push(Filter::new(mk(&vec![b'f'; left.min(40_000) - 3]), QoS::AtMostOnce));
            if left > 40_000 {
                x.filters.push(Filter::new(mk(&vec![b'f'; left - 40_000 - 3]), QoS::AtMostOnce));
            }
        }
        (_, Packet::Unsubscribe(x)) => {
            let mut left = total - base;
            while left > 65_537 + 2 {
                x.filters.push(longest());
                left -= 65_537;
            }
            x.filters.push(mk(&vec![b'f'; left.min(40_000) - 2]));
            if left > 40_000 {
                x.filters.push(mk(&vec![b'f'; left - 40_000 - 2]));
            }
        }
        (_, Packet::SubAck(x)) => x.return_codes.resize(total - base + 1, SubscribeReasonCode::NotAuthorized),
        (_, Packet::UnsubAck(x)) => x.reasons.resize(total - base + 1, UnsubAckReason::NotAuthorized),
        _ => unreachable!(),
    }
    p
}

/// The parts of a packet written on their own, where the library offers that.
fn part_write(p: &Packet, sec: u8, b: &mut BytesMut) -> Option<Result<(), Error>> {
    Some(match p {
        Packet::Connect(_, Some(w), _) if sec == WILL => w.properties.as_ref()?.write(b),
        Packet::Connect(x, ..) => x.properties.as_ref()?.write(b),
        Packet::ConnAck(x) => x.properties.as_ref()?.write(b),
        Packet::Publish(x) => x.properties.as_ref()?.write(b),
        Packet::PubAck(x) => x.properties.as_ref()?.write(b),
        Packet::PubRec(x) => x.properties.as_ref()?.write(b),
        Packet::PubRel(x) => x.properties.as_ref()?.write(b),
        Packet::PubComp(x) => x.properties.as_ref()?.write(b),
        Packet::Subscribe(x) => x.properties.as_ref()?.write(b),
        Packet::SubAck(x) => x.properties.as_ref()?.write(b),
        Packet::Unsubscribe(x) => x.properties.as_ref()?.write(b),
        Packet::UnsubAck(x) => x.properties.as_ref()?.write(b),
        _ => return None,
    })
}

fn oversize_cases() -> Vec<(u8, u8, i64)> {
    let mut v = Vec::new();
    for sec in SECTIONS {
        for over in [0, 1, 600] {
            v.push((sec, 0, over));
        }
    }
    for sec in [SUBSCRIBE, UNSUBSCRIBE, SUBACK, UNSUBACK] {
        for over in [0, 1, 70_000] {
            v.push((sec, 1, over));
        }
    }
    v
}

/// Packets of every kind at, and over, the largest size MQTT has.  One at a
/// time: each takes up to half a gigabyte.
fn c05_oversize(c: &mut Ctx, i: u64) {
    if cfg!(miri) {
        return;
    }
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock();
    let (sec, by, over) = oversize_cases()[i as usize];
    let p = oversize(sec, by, over);
    let what = format!("{} made large by {}, {over} over the limit", type_name(sec), if by == 0 { "properties" } else { "its list" });
    let mut b = BytesMut::from(&b"pre"[..]);
    if over == 0 {
        b.reserve(MAX_REMAINING + 10);
    }
    let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
    c.eval(0xBBBB + i);
    c.count("packets at the size limit");
    let Some(size) = c.cut("size", &[], || size_of(&p)) else { return };
    if over == 0 {
        c.check(r == Ok(MAX_REMAINING + 5), "limit", &[], || format!("{what}: {r:?}"));
        c.check(b.len() == MAX_REMAINING + 8 && b[4..8] == [0xFF, 0xFF, 0xFF, 0x7F], "limit", &[], || {
            format!("{what}: {} bytes, begins {}", b.len(), hex(&b[..b.len().min(12)]))
        });
        if let Some(n) = size {
            c.check(n == MAX_REMAINING + 5, "limit", &[], || format!("{what}: size() {n}"));
        }
        return;
    }
    c.check(r == Err(Error::PayloadTooLong), "limit", &[], || format!("{what}: {r:?}"));
    c.check(b[..] == b"pre"[..], "partial", &[], || format!("{what}: buffer has {} bytes", b.len()));
    drop(b);
    if by == 0 && over == 600 {
        // here the properties alone are too long
        let mut b = BytesMut::new();
        let Some(r) = c.cut("part", &[], || part_write(&p, sec, &mut b)) else { return };
        let Some(r) = r else { return };
        c.count("parts over the limit");
        c.check(r == Err(Error::PayloadTooLong), "limit", &[], || format!("{what}: properties alone: {r:?}"));
    }
}

pub fn c05_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, if t { 100 } else { scale.min(200) }, c05_ok);
    let fs = faults();
    let n = fs.len() as u64;
    let reps = if scale < 10 { 1 } else if t { 40 } else { 3 };
    let nn = if scale < 10 { n / 12 } else { n * reps };
    v.push(fam("fault", nn, move |c, i| {
        let i = if nn < n { i * 12 } else { i };
        c05_fault(c, i, &fs)
    }));
    if scale >= 50 {
        v.push(fam("size-limit", 2, c05_limit));
        // Where text cannot be shared this is slow: all of it when thorough.
        let n = oversize_cases().len() as u64;
        if t || cfg!(any(feature = "cow_string", feature = "binary_string")) {
            v.push(fam("oversize", n, c05_oversize));
        } else {
            v.push(fam("oversize-some", 6, |c, i| {
                let n = oversize_cases().len() as u64;
                let mut rng = c.rng();
                let k = (i * n / 6 + rng.below((n / 6) as usize) as u64) % n;
                c05_oversize(c, k)
            }));
        }
    }
    v
}

// --------------------------------------------------------------------- C16

/// Whatever the decoder accepts, the encoder can write, and it reads back the
/// same; writing that again gives the same bytes.
pub fn c16_frame(c: &mut Ctx, wire: &[u8]) {
    let mut s = BytesMut::from(wire);
    loop {
        let before = s.clone();
        let Some(r) = c.cut("read", wire, || Packet::read(&mut s, None)) else { return };
        let p = match r {
            Ok(p) => p,
            Err(Error::InsufficientBytes(_)) | Err(Error::MalformedRemainingLength) => return,
            Err(_) if s.len() < before.len() => continue,
            Err(_) => return,
        };
        let frame = &before[..before.len() - s.len()];
        let m = from_packet(&p);
        c.eval(fnv(16, frame));
        c.count("frames accepted");
        tick(c, m.ty);
        let canonical = c16_value(c, &p, &m, frame);
        if let Some(b) = canonical {
            if b[..] != frame[..] {
                c.count("accepted in another form than the encoder's");
                c.sample(|| format!("{} accepted, written as {}", hex(frame), hex(&b)));
            }
        }
        if s.is_empty() {
            return;
        }
    }
}

fn c16_value(c: &mut Ctx, p: &Packet, m: &M, frame: &[u8]) -> Option<BytesMut> {
    let mut b = BytesMut::new();
    let r = c.cut("write", frame, || p.write(&mut b))?;
    if let Err(e) = r {
        c.fail("not-writable", format!("{e:?}: accepted {} cannot be written", m.brief()), frame);
        return None;
    }
    let bytes = b.clone();
    let r = c.cut("read back", frame, || Packet::read(&mut b, None))?;
    match r {
        Err(e) => {
            c.fail("not-readable", format!("{e:?} reading back {}", m.brief()), frame);
            None
        }
        Ok(q) => {
            let got = from_packet(&q);
            c.check(got == *m && b.is_empty(), "changed", frame, || {
                format!("accepted {} came back as {}", m.brief(), got.brief())
            });
            let mut b2 = BytesMut::new();
            let r = c.cut("write again", frame, || q.write(&mut b2))?;
            c.check(r.is_ok() && b2[..] == bytes[..], "unstable", frame, || {
                format!("second writing differs: {} / {}", hex(&bytes), hex(&b2))
            });
            Some(bytes)
        }
    }
}

fn c16_valid(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let f = Form { shuffle: Some(rng.u64()), explicit: rng.below(3) as u8 };
    c16_frame(c, &rc::encode(m, &f));
}

pub fn c16_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, scale.min(200), c16_valid);
    on_hostile(&mut v, t, scale, |c, _, s| c16_frame(c, s));
    v
}

// --------------------------------------------------------------------- C22

fn c22_valid(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let keep = rng.chance(1, 3);
    let Some((p, b, n)) = enc(c, m, keep) else { return };
    c.eval(fnv(1, &b));
    tick(c, m.ty);
    let mut b2 = BytesMut::new();
    if let Some(r) = c.cut("typed write", &b, || typed_write(&p, &mut b2)) {
        c.count("writers compared");
        c.check(r == Ok(n) && b2 == b, "writers", &b, || {
            format!("packet-level {} ({n}), typed {} ({r:?}): {}", hex(&b), hex(&b2), m.brief())
        });
    }
    let f = Form { shuffle: Some(rng.u64()), explicit: rng.below(3) as u8 };
    c22_read(c, &rc::encode(m, &f));
    c22_constructors(c, m);
    c22_parts(c, m);
}

/// Reader of the packet's own type against the packet-level reader.
fn c22_read(c: &mut Ctx, wire: &[u8]) {
    let Framing::Frame { remaining, header } = rc::framing(wire) else { return };
    let frame = &wire[..header + remaining];
    let ty = frame[0] >> 4;
    let low = frame[0] & 15;
    let flags_ok = ty == PUBLISH || low == if matches!(ty, 6 | 8 | 10) { 2 } else { 0 };
    // The typed readers are only offered whole frames with a body.
    if !flags_ok || (remaining == 0 && ty != DISCONNECT) {
        return;
    }
    let mut s = BytesMut::from(frame);
    let Some(a) = c.cut("read", frame, || Packet::read(&mut s, None)) else { return };
    let Some(b) = c.cut("typed read", frame, || {
        let h = check(frame.iter(), None)?;
        Ok(typed_read(ty, h, Bytes::copy_from_slice(frame)))
    }) else {
        return;
    };
    let b: Result<Packet, Error> = match b {
        Ok(Some(b)) => b,
        Ok(None) => return,
        Err(e) => Err(e),
    };
    c.eval(fnv(22, frame));
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            c.count("readers agree on a packet");
            c.check(x == y, "readers", frame, || format!("packet-level {x:?}, typed {y:?}"));
        }
        (Err(_), Err(_)) => c.count("readers agree on a refusal"),
        _ => c.fail("readers", format!("packet-level {a:?}, typed {b:?}"), frame),
    }
}

/// Constructors build the packet their arguments describe.
fn c22_constructors(c: &mut Ctx, m: &M) {
    let p = to_packet(m, false);
    let id0 = M { pkid: 0, ..m.clone() };
    let q: Option<Packet> = match &p {
        Packet::Publish(x) if m.props.is_empty() && !m.dup => c.cut("Publish::new", &[], || {
            let mut y = Publish::new(x.topic.clone(), x.qos, x.payload.clone(), x.properties.clone());
            y.pkid = x.pkid;
            y.retain = x.retain;
            Packet::Publish(y)
        }),
        Packet::PubAck(x) if m.code == 0 => {
            c.cut("PubAck::new", &[], || Packet::PubAck(PubAck::new(x.pkid, x.properties.clone())))
        }
        Packet::PubRec(x) if m.code == 0 => {
            c.cut("PubRec::new", &[], || Packet::PubRec(PubRec::new(x.pkid, x.properties.clone())))
        }
        Packet::PubRel(x) if m.code == 0 => {
            c.cut("PubRel::new", &[], || Packet::PubRel(PubRel::new(x.pkid, x.properties.clone())))
        }
        Packet::PubComp(x) if m.code == 0 => c.cut("PubComp::new", &[], || {
            Packet::PubComp(PubComp::new(x.pkid, x.properties.clone()))
        }),
        Packet::Subscribe(x) => c.cut("Subscribe::new", &[], || {
            let mut y = if x.filters.len() == 1 && m.pkid % 2 == 0 {
                Subscribe::new(x.filters[0].clone(), x.properties.clone())
            } else {
                Subscribe::new_many(x.filters.clone(), x.properties.clone())
            };
            y.pkid = x.pkid;
            Packet::Subscribe(y)
        }),
        Packet::Unsubscribe(x) if x.filters.len() == 1 => c.cut("Unsubscribe::new", &[], || {
            let mut y = Unsubscribe::new(x.filters[0].clone(), x.properties.clone());
            y.pkid = x.pkid;
            Packet::Unsubscribe(y)
        }),
        Packet::Disconnect(x) if m.props.is_empty() => {
            c.cut("Disconnect::new", &[], || Packet::Disconnect(Disconnect::new(x.reason_code)))
        }
        Packet::Connect(a, w, Some(l)) => c.cut("Login::new", &[], || {
            let l2 = Login::new(l.username.clone(), l.password.clone());
            Packet::Connect(a.clone(), w.clone(), Some(l2))
        }),
        _ => None,
    };
    let _ = id0;
    if let Some(q) = q {
        c.count("constructors compared");
        c.check(p == q, "constructor", &[], || format!("{p:?} but built {q:?}"));
    }
    if let Packet::Subscribe(x) = &p {
        for f in &x.filters {
            if !f.nolocal && !f.preserve_retain && f.retain_forward_rule == RetainForwardRule::OnEverySubscribe {
                if let Some(g) = c.cut("Filter::new", &[], || Filter::new(f.path.clone(), f.qos)) {
                    c.check(*f == g, "constructor", &[], || format!("{f:?} but built {g:?}"));
                }
            }
        }
    }
}

/// Parts with their own reader and writer: will, login, filters.
fn c22_parts(c: &mut Ctx, m: &M) {
    match to_packet(m, false) {
        Packet::Connect(_, w, l) => {
            if let Some(w) = w {
                let mut b = BytesMut::new();
                let Some(r) = c.cut("LastWill::write", &[], || w.write(&mut b)) else { return };
                let Ok(flags) = r else {
                    c.fail("parts", format!("will: {r:?}"), &[]);
                    return;
                };
                let wm = m.will.as_ref().unwrap();
                let want = 0x04 | (wm.qos << 3) | (u8::from(wm.retain) << 5);
                c.check(flags == want, "parts", &b.clone(), || format!("will flags {flags:#x}, not {want:#x}"));
                let bytes = b.clone();
                let mut s = b.freeze();
                let Some(r) = c.cut("LastWill::read", &bytes, || LastWill::read(flags, &mut s)) else { return };
                c.count("parts compared");
                c.check(r.as_ref() == Ok(&Some(w.clone())) && s.is_empty(), "parts", &bytes, || {
                    format!("will {w:?} came back as {r:?}, {} bytes left", s.len())
                });
            }
            if let Some(l) = l {
                let mut b = BytesMut::new();
                let Some(r) = c.cut("Login::write", &[], || l.write(&mut b)) else { return };
                let Ok(flags) = r else {
                    c.fail("parts", format!("login: {r:?}"), &[]);
                    return;
                };
                let want = (u8::from(!m.user.is_empty()) << 7) | (u8::from(!m.pass.is_empty()) << 6);
                c.check(flags == want, "parts", &b.clone(), || format!("login flags {flags:#x}, not {want:#x}"));
                let bytes = b.clone();
                let mut s = b.freeze();
                let Some(r) = c.cut("Login::read", &bytes, || Login::read(flags, &mut s)) else { return };
                c.count("parts compared");
                c.check(r.as_ref() == Ok(&Some(l.clone())) && s.is_empty(), "parts", &bytes, || {
                    format!("login {l:?} came back as {r:?}")
                });
            }
        }
        Packet::Subscribe(x) => {
            let mut b = BytesMut::new();
            for f in &x.filters {
                let Some(r) = c.cut("Filter::write", &[], || f.write(&mut b)) else { return };
                c.check(r.is_ok(), "parts", &[], || format!("filter: {r:?}"));
            }
            let bytes = b.clone();
            let mut s = b.freeze();
            let Some(r) = c.cut("Filter::read", &bytes, || Filter::read(&mut s)) else { return };
            c.count("parts compared");
            c.check(r.as_ref() == Ok(&x.filters) && s.is_empty(), "parts", &bytes, || {
                format!("filters {:?} came back as {r:?}", x.filters)
            });
        }
        _ => {}
    }
    c22_props(c, m);
}

/// Property sections have public readers and writers of their own.
fn c22_props(c: &mut Ctx, m: &M) {
    macro_rules! section {
        ($name:literal, $ty:ident, $val:expr) => {
            if let Some(v) = $val {
                let mut b = BytesMut::new();
                let Some(r) = c.cut(concat!($name, " properties write"), &[], || v.write(&mut b)) else { return };
                if r.is_err() {
                    c.fail("parts", format!("{} properties: {r:?}", $name), &[]);
                    return;
                }
                let bytes = b.clone();
                b.extend_from_slice(b"tail");
                let mut s = b.freeze();
                let Some(r) = c.cut(concat!($name, " properties read"), &bytes, || $ty::read(&mut s)) else { return };
                c.count("property sections compared");
                c.check(r.as_ref() == Ok(&Some(v.clone())) && s[..] == b"tail"[..], "parts", &bytes, || {
                    format!("{} properties {v:?} came back as {r:?}, {} bytes left", $name, s.len())
                });
            }
        };
    }
    match to_packet(m, false) {
        Packet::Connect(a, w, _) => {
            section!("CONNECT", ConnectProperties, a.properties);
            if let Some(w) = w {
                section!("will", LastWillProperties, w.properties);
            }
        }
        Packet::ConnAck(a) => section!("CONNACK", ConnAckProperties, a.properties),
        Packet::Publish(a) => section!("PUBLISH", PublishProperties, a.properties),
        Packet::PubAck(a) => section!("PUBACK", PubAckProperties, a.properties),
        Packet::PubRec(a) => section!("PUBREC", PubRecProperties, a.properties),
        Packet::PubRel(a) => section!("PUBREL", PubRelProperties, a.properties),
        Packet::PubComp(a) => section!("PUBCOMP", PubCompProperties, a.properties),
        Packet::Subscribe(a) => section!("SUBSCRIBE", SubscribeProperties, a.properties),
        Packet::SubAck(a) => section!("SUBACK", SubAckProperties, a.properties),
        Packet::Unsubscribe(a) => section!("UNSUBSCRIBE", UnsubscribeProperties, a.properties),
        Packet::UnsubAck(a) => section!("UNSUBACK", UnsubAckProperties, a.properties),
        Packet::Disconnect(a) => {
            // the writer of this section is private: take its bytes from the packet
            let Some(v) = a.properties else { return };
            let mut raw = rc::props_bytes(&m.props);
            let mut bytes = Vec::new();
            rc::put_varint(&mut bytes, raw.len());
            bytes.append(&mut raw);
            let mut s = Bytes::from([&bytes[..], b"tail"].concat());
            let Some(r) = c.cut("DISCONNECT properties read", &bytes, || DisconnectProperties::extract(&mut s)) else {
                return;
            };
            c.count("property sections compared");
            c.check(r.as_ref() == Ok(&Some(v.clone())) && s[..] == b"tail"[..], "parts", &bytes, || {
                format!("DISCONNECT properties {v:?} came back as {r:?}")
            });
        }
        _ => {}
    }
}

/// Header accessors, constants, defaults and the routes for empty sections.
fn c22_api(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let first = (i % 256) as u8;
    // header built by hand = header parsed = what the frame says
    let n = match i / 256 {
        0..=9 => *rng.pick(&[0usize, 1, 2, 126, 127, 128, 129]),
        10..=13 => *rng.pick(&[16_382usize, 16_383, 16_384, 16_385]),
        _ => rng.below(3000),
    };
    let frame = rc::frame_of(first, &vec![0x5A; n]);
    let ll = rc::varint_len(n);
    c.eval(fnv(2201, &frame));
    let Some(h) = c.cut("FixedHeader::new", &frame, || FixedHeader::new(first, ll, n)) else { return };
    let Some(p) = c.cut("check", &frame, || check(frame.iter(), None)) else { return };
    c.count("headers compared");
    c.check(p == Ok(h), "header", &frame, || format!("built {h:?}, parsed {p:?}"));
    if let Some((len, ty)) = c.cut("header accessors", &frame, || (h.frame_length(), h.packet_type())) {
        c.check(len == frame.len(), "header", &frame, || format!("frame_length {len} of {} bytes", frame.len()));
        let t = first >> 4;
        let want = if (1..=14).contains(&t) { Ok(t) } else { Err(Error::InvalidPacketType(t)) };
        let got = ty.map(|t| t as u8);
        c.check(got == want, "header", &frame, || format!("type {got:?}, not {want:?}"));
    }
    if i >= 256 {
        return;
    }
    c.check(qos(first).map(|q| q as u8) == (first < 3).then_some(first), "qos", &[first], || {
        format!("qos({first}) = {:?}", qos(first))
    });
    if i > 0 {
        return;
    }
    let words = ["", "a", "MQTT", "top/ic \u{20ac}"];
    for w in words {
        c.check(sb(&mqtt_string_new(w)) == w.as_bytes(), "string", w.as_bytes(), || format!("mqtt_string_new({w:?})"));
    }
    // defaults hold nothing
    let ok = connect_props_from(&Some(ConnectProperties::new())).is_empty()
        && connect_props_from(&Some(ConnectProperties::default())).is_empty()
        && connack_props_from(&Some(ConnAckProperties::new())).is_empty()
        && connack_props_from(&Some(ConnAckProperties::default())).is_empty()
        && publish_props_from(&Some(PublishProperties::default())).is_empty();
    c.check(ok, "default", &[], || "a default property section holds properties".into());
    let d = Publish::default();
    let ok = !d.dup && !d.retain && d.qos == QoS::AtMostOnce && d.pkid == 0 && d.properties.is_none()
        && sb(&d.topic).is_empty() && d.payload.is_empty();
    c.check(ok, "default", &[], || format!("{d:?}"));
    let f = Filter::default();
    let ok = filter_from(&f) == Filt::default();
    c.check(ok, "default", &[], || format!("{f:?}"));
    let s = Subscribe::default();
    c.check(s.pkid == 0 && s.filters.is_empty() && s.properties.is_none(), "default", &[], || format!("{s:?}"));
    let s = Unsubscribe::default();
    c.check(s.pkid == 0 && s.filters.is_empty() && s.properties.is_none(), "default", &[], || format!("{s:?}"));
    c.check(QoS::default() == QoS::AtMostOnce, "default", &[], || "QoS".into());
    c.check(RetainForwardRule::default() == RetainForwardRule::OnEverySubscribe, "default", &[], || "rule".into());
    // an empty section is no section, and its reader takes one byte
    macro_rules! empty {
        ($($ty:ident::$f:ident),*) => {$({
            let mut b = Bytes::from_static(b"\0tail");
            if let Some(r) = c.cut(stringify!($ty), b"\0tail", || $ty::$f(&mut b)) {
                c.count("empty sections");
                c.check(r == Ok(None) && b[..] == b"tail"[..], "empty-section", b"\0tail", || {
                    format!("{}: {r:?}, {} left", stringify!($ty), b.len())
                });
            }
        })*};
    }
    empty!(
        ConnectProperties::read, LastWillProperties::read, ConnAckProperties::read, PublishProperties::read,
        PubAckProperties::read, PubRecProperties::read, PubRelProperties::read, PubCompProperties::read,
        SubscribeProperties::read, SubAckProperties::read, UnsubscribeProperties::read,
        UnsubAckProperties::read, DisconnectProperties::extract
    );
    for (name, r) in [("PINGREQ", PingReq::write as fn(&mut BytesMut) -> _), ("PINGRESP", PingResp::write)] {
        let mut b = BytesMut::from(&b"x"[..]);
        let n: Option<Result<usize, Error>> = c.cut(name, &[], || r(&mut b));
        let want = if name == "PINGREQ" { b"x\xC0\0" } else { b"x\xD0\0" };
        c.check(n == Some(Ok(2)) && b[..] == want[..], "ping", &b.clone(), || format!("{name}: {n:?}"));
    }
}

pub fn c22_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    v.push(fam("api", 256 * 32, c22_api));
    on_valid(&mut v, t, scale.min(150), c22_valid);
    on_hostile(&mut v, t, scale, |c, _, s| c22_read(c, s));
    v
}

// --------------------------------------------------------------------- C23

fn alter_bytes(rng: &mut Rng, v: &mut Vec<u8>) {
    match if v.len() > 65_000 { 5 } else { rng.below(6) } {
        0 => v.push(b'x'),
        1 if !v.is_empty() && v[v.len() - 1] < 0x80 => {
            v.pop();
        }
        2 => v.insert(0, b' '),
        3 => v.extend_from_slice(" \u{FEFF}".as_bytes()),
        _ => {
            let at: Vec<usize> = (0..v.len()).filter(|k| v[*k].is_ascii_graphic()).collect();
            if at.is_empty() {
                v.push(b'y');
            } else {
                let k = *rng.pick(&at);
                // case, or another letter
                v[k] = if v[k].is_ascii_alphabetic() && rng.bool() { v[k] ^ 0x20 } else { b'!' + (v[k] - b'!' + 1) % 94 };
            }
        }
    }
}

fn alter_props(rng: &mut Rng, ps: &mut Props, sec: u8) {
    let ids = section_props(sec);
    if ids.is_empty() {
        return;
    }
    match rng.below(4) {
        0 if !ps.is_empty() => {
            let k = rng.below(ps.len());
            ps.remove(k);
        }
        1 => {
            let id = *rng.pick(ids);
            if repeatable(sec, id) || !ps.iter().any(|p| p.0 == id) {
                ps.push((id, gval(rng, id)));
            }
        }
        2 if ps.len() > 1 => {
            // order of repeated ones is content, order of others is not
            let k = rng.below(ps.len() - 1);
            ps.swap(k, k + 1);
        }
        _ if !ps.is_empty() => {
            let k = rng.below(ps.len());
            match &mut ps[k].1 {
                PV::U8(x) => *x = x.wrapping_add(1 + rng.below(255) as u8),
                PV::U16(x) => *x ^= 1 << rng.below(16),
                PV::U32(x) => *x ^= 1 << rng.below(32),
                PV::Var(x) => *x = (*x ^ 1 << rng.below(27)).max(1),
                PV::Bin(v) | PV::Str(v) => alter_bytes(rng, v),
                PV::Pair(k, v) => match rng.below(3) {
                    0 => alter_bytes(rng, k),
                    1 => alter_bytes(rng, v),
                    _ => std::mem::swap(k, v),
                },
            }
        }
        _ => {}
    }
}

/// A packet that differs in one place (or in nothing, now and then).
fn alter(rng: &mut Rng, m: &M) -> M {
    let mut m = m.clone();
    if rng.chance(1, 3) {
        let ty = m.ty;
        alter_props(rng, &mut m.props, ty);
        return m;
    }
    let b = 1u16 << rng.below(16);
    match m.ty {
        CONNECT => match rng.below(8) {
            0 => m.clean = !m.clean,
            1 => m.keep_alive ^= b,
            2 => alter_bytes(rng, &mut m.name),
            3 => alter_bytes(rng, &mut m.user),
            4 => alter_bytes(rng, &mut m.pass),
            5 => std::mem::swap(&mut m.user, &mut m.pass),
            _ => match &mut m.will {
                None => m.will = Some(gwill(rng)),
                Some(w) => match rng.below(6) {
                    0 => m.will = None,
                    1 => w.qos = (w.qos + 1) % 3,
                    2 => w.retain = !w.retain,
                    3 => alter_bytes(rng, &mut w.topic),
                    4 => alter_bytes(rng, &mut w.message),
                    _ => alter_props(rng, &mut w.props, WILL),
                },
            },
        },
        CONNACK => match rng.below(2) {
            0 => m.session_present = !m.session_present,
            _ => m.code = *rng.pick(reason_codes(m.ty)),
        },
        PUBLISH => match rng.below(6) {
            0 => m.dup = !m.dup,
            1 => m.retain = !m.retain,
            2 => m.qos = (m.qos + 1) % 3,
            3 => m.pkid = (m.pkid ^ b).max(1),
            4 => alter_bytes(rng, &mut m.name),
            _ => alter_bytes(rng, &mut m.payload),
        },
        PUBACK..=PUBCOMP => match rng.below(2) {
            0 => m.pkid = (m.pkid ^ b).max(1),
            _ => m.code = *rng.pick(reason_codes(m.ty)),
        },
        SUBSCRIBE | UNSUBSCRIBE => {
            let k = rng.below(m.filters.len());
            match rng.below(8) {
                0 => m.pkid = (m.pkid ^ b).max(1),
                1 => {
                    let f = m.filters[k].clone();
                    m.filters.push(f);
                }
                2 if k > 0 => m.filters.swap(k, k - 1),
                3 if m.ty == SUBSCRIBE => m.filters[k].qos = (m.filters[k].qos + 1) % 3,
                4 if m.ty == SUBSCRIBE => m.filters[k].rule = (m.filters[k].rule + 1) % 3,
                5 if m.ty == SUBSCRIBE => m.filters[k].nolocal = !m.filters[k].nolocal,
                6 if m.ty == SUBSCRIBE => m.filters[k].rap = !m.filters[k].rap,
                _ => alter_bytes(rng, &mut m.filters[k].path),
            }
        }
        SUBACK | UNSUBACK => {
            let k = rng.below(m.codes.len());
            match rng.below(4) {
                0 => m.pkid = (m.pkid ^ b).max(1),
                1 => m.codes.push(0),
                2 if k > 0 => m.codes.swap(k, k - 1),
                _ => m.codes[k] = *rng.pick(reason_codes(m.ty)),
            }
        }
        DISCONNECT => m.code = *rng.pick(reason_codes(m.ty)),
        _ => m.ty = if m.ty == PINGREQ { PINGRESP } else { PINGREQ },
    }
    m
}

/// Packets are values: equal exactly when their content is, clones included.
fn c23(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let keep = rng.chance(1, 3);
    let p = to_packet(m, keep);
    let fp = mfp(m);
    for _ in 0..4 {
        let m2 = alter(rng, m).norm();
        let q = to_packet(&m2, keep);
        c.eval(fp ^ mfp(&m2).rotate_left(17));
        let same = *m == m2;
        c.count(if same { "same content" } else { "different content" });
        let Some((a, b, ne)) = c.cut("==", &[], || (p == q, q == p, p != q)) else { return };
        c.check(a == same && b == same && ne != same, "equality", &rc::encode(m, &Form::default()), || {
            format!("{} / {}: == says {a}, {b}, != says {ne}", m.brief(), m2.brief())
        });
    }
    let Some(k) = c.cut("clone", &[], || p.clone()) else { return };
    c.check(k == p, "clone", &[], || format!("{} clones to {k:?}", m.brief()));
    let Some(text) = c.cut("Debug", &[], || format!("{p:?}")) else { return };
    drop(p);
    c.count("clones compared");
    c.check(from_packet(&k) == *m, "clone", &[], || {
        format!("clone of {} holds {}", m.brief(), from_packet(&k).brief())
    });
    let t2 = c.cut("Debug", &[], || format!("{k:?}"));
    c.check(t2.as_ref() == Some(&text), "debug", &[], || format!("{text} / {t2:?}"));
    // decoded twice, from separate buffers: equal values
    let wire = rc::encode(m, &Form { shuffle: Some(rng.u64()), explicit: rng.below(3) as u8 });
    let r = c.cut("read", &wire, || {
        let (mut a, mut b) = (BytesMut::from(&wire[..]), BytesMut::from(&wire[..]));
        b.extend_from_slice(b"more");
        (Packet::read(&mut a, None), Packet::read(&mut b, None))
    });
    if let Some((a, b)) = r {
        c.count("decoded twice");
        c.check(a == b, "decoded", &wire, || format!("{a:?} / {b:?}"));
    }
}

/// Every error value, several arguments each.
pub fn error_values() -> Vec<Error> {
    let mut v = vec![
        Error::InvalidProtocol, Error::IncorrectPacketFormat, Error::PacketIdZero,
        Error::EmptySubscription, Error::SubscriptionIdZero, Error::PayloadSizeIncorrect,
        Error::PayloadTooLong, Error::BinaryDataTooLong, Error::PayloadRequired,
        Error::TopicNotUtf8, Error::MalformedPacket, Error::MalformedRemainingLength,
    ];
    for n in [0u8, 1, 2, 127, 128, 255] {
        v.extend([
            Error::InvalidConnectReturnCode(n), Error::InvalidReason(n), Error::InvalidProtocolLevel(n),
            Error::InvalidPacketType(n), Error::InvalidRetainForwardRule(n), Error::InvalidQoS(n),
            Error::InvalidSubscribeReasonCode(n), Error::InvalidPropertyType(n),
        ]);
    }
    for n in [0usize, 1, 255, 256, 65_536, 268_435_455, 268_435_456, usize::MAX] {
        v.extend([Error::InvalidRemainingLength(n), Error::BoundaryCrossed(n), Error::InsufficientBytes(n)]);
        for max in [0usize, 1, 256, usize::MAX] {
            v.push(Error::PayloadSizeLimitExceeded { pkt_size: n, max });
        }
    }
    for bad in [&b"\xff"[..], b"a\xff", b"ab\xe4\xb8"] {
        v.push(Error::PayloadNotUtf8(std::str::from_utf8(bad).unwrap_err()));
    }
    v
}

/// The small values: QoS levels, headers, errors, packet types, all codes of a packet.
fn c23_scalars(c: &mut Ctx, i: u64) {
    c.eval(fnv(0x5ca1, &i.to_le_bytes()));
    match i {
        0 => {
            let all = [QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce];
            for (x, a) in all.iter().enumerate() {
                for (y, b) in all.iter().enumerate() {
                    c.count("QoS pairs");
                    let Some((o, e, l)) = c.cut("compare", &[], || (a.partial_cmp(b), a == b, a < b)) else { return };
                    c.check(o == Some(x.cmp(&y)) && e == (x == y) && l == (x < y), "qos-order", &[x as u8, y as u8], || {
                        format!("{a:?} against {b:?}: {o:?}, equal {e}, less {l}")
                    });
                }
            }
            c.check(QoS::default() == QoS::AtMostOnce, "qos-default", &[], || format!("{:?}", QoS::default()));
        }
        1 => {
            let (v, w) = (error_values(), error_values());
            for (x, a) in v.iter().enumerate() {
                for (y, b) in w.iter().enumerate() {
                    c.count("error pairs");
                    let Some((e, k)) = c.cut("compare", &[], || (a == b, a.clone() == *b)) else { return };
                    c.check(e == (x == y) && k == e, "error-equality", &[], || {
                        format!("{a:?} against {b:?}: equal {e}, its clone {k}")
                    });
                }
            }
        }
        2 => {
            let bytes = [0u8, 0x10, 0x30, 0x3d, 0x62, 0xe0, 0xff];
            let lens = [0usize, 1, 127, 128, 16_383, 16_384, 268_435_455];
            let all: Vec<(u8, usize, usize)> = bytes
                .iter()
                .flat_map(|b| (1..5).flat_map(move |l| lens.into_iter().map(move |n| (*b, l, n))))
                .collect();
            for a in &all {
                for b in &all {
                    c.count("header pairs");
                    let Some(e) = c.cut("compare", &[], || {
                        FixedHeader::new(a.0, a.1, a.2) == FixedHeader::new(b.0, b.1, b.2)
                    }) else { return };
                    c.check(e == (a == b), "header-equality", &[a.0, b.0], || format!("{a:?} against {b:?}: {e}"));
                }
            }
        }
        3 => {
            for a in 1..15u8 {
                for b in 1..15u8 {
                    c.count("type pairs");
                    let t = |n: u8| FixedHeader::new(n << 4, 1, 0).packet_type();
                    let Some((x, y)) = c.cut("packet_type", &[], || (t(a), t(b))) else { return };
                    c.check((x == y) == (a == b), "type-equality", &[a, b], || format!("{x:?} against {y:?}"));
                }
            }
        }
        _ => {
            // every pair of codes of one packet type
            let t = [CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT][(i - 4) as usize % 8];
            let p: Vec<Packet> = reason_codes(t)
                .iter()
                .map(|&x| {
                    let mut m = M::new(t);
                    m.pkid = 7;
                    if t == SUBACK || t == UNSUBACK {
                        m.codes = vec![0, x];
                    } else {
                        m.code = x;
                    }
                    to_packet(&m, false)
                })
                .collect();
            for (x, a) in p.iter().enumerate() {
                for (y, b) in p.iter().enumerate() {
                    c.count("code pairs");
                    let Some(e) = c.cut("==", &[], || a == b) else { return };
                    c.check(e == (x == y), "code-equality", &[x as u8, y as u8], || format!("{a:?} against {b:?}: {e}"));
                }
            }
        }
    }
}

pub fn c23_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    v.push(fam("scalars", 12, c23_scalars));
    on_valid(&mut v, t, scale.min(200), c23);
    v
}
