//! Monitors of the decoder: C06 C07 C08 C09 C10 C11 C13 C17 C20 C21.

use crate::bridge::*;
use crate::ctx::*;
use crate::gen::*;
use crate::hostile::{self, with_raw_props};
use crate::model::*;
use crate::mons_enc::{on_hostile, on_valid, tick};
use crate::refcodec::{self as rc, Form, Framing, Verdict};
use crate::rng::{fnv, Rng};
use bytes::{Bytes, BytesMut};
use mqtt_bytes_v5::*;

pub fn err_kind(e: &Error) -> &'static str {
    match e {
        Error::InvalidConnectReturnCode(_) => "error InvalidConnectReturnCode",
        Error::InvalidReason(_) => "error InvalidReason",
        Error::InvalidRemainingLength(_) => "error InvalidRemainingLength",
        Error::InvalidProtocol => "error InvalidProtocol",
        Error::InvalidProtocolLevel(_) => "error InvalidProtocolLevel",
        Error::IncorrectPacketFormat => "error IncorrectPacketFormat",
        Error::InvalidPacketType(_) => "error InvalidPacketType",
        Error::InvalidRetainForwardRule(_) => "error InvalidRetainForwardRule",
        Error::InvalidQoS(_) => "error InvalidQoS",
        Error::InvalidSubscribeReasonCode(_) => "error InvalidSubscribeReasonCode",
        Error::PacketIdZero => "error PacketIdZero",
        Error::EmptySubscription => "error EmptySubscription",
        Error::PayloadTooLong => "error PayloadTooLong",
        Error::BinaryDataTooLong => "error BinaryDataTooLong",
        Error::PayloadSizeLimitExceeded { .. } => "error PayloadSizeLimitExceeded",
        Error::PayloadRequired => "error PayloadRequired",
        Error::TopicNotUtf8 => "error TopicNotUtf8",
        Error::BoundaryCrossed(_) => "error BoundaryCrossed",
        Error::MalformedPacket => "error MalformedPacket",
        Error::MalformedRemainingLength => "error MalformedRemainingLength",
        Error::InvalidPropertyType(_) => "error InvalidPropertyType",
        Error::InsufficientBytes(_) => "error InsufficientBytes",
        _ => "error other",
    }
}

// --------------------------------------------------------------------- C06

/// Every decoding entry point, on any bytes: returns, never panics.
fn c06_stream(c: &mut Ctx, rng: &mut Rng, s: &[u8]) {
    c.eval(fnv(6, s));
    let limit = match *rng.pick(&[None, None, None, Some(0), Some(1), Some(100), Some(usize::MAX)]) {
        // the few large ones are worth reading whole
        Some(n) if n <= 100 && s.len() > 60_000 => None,
        l => l,
    };
    let mut b = BytesMut::from(s);
    let mut guard = 0;
    loop {
        let before = b.len();
        let Some(r) = c.cut("Packet::read", s, || Packet::read(&mut b, limit)) else { break };
        match &r {
            Ok(p) => {
                c.count("packets decoded");
                c.cut("Debug", s, || format!("{p:?}"));
            }
            Err(e) => {
                c.count(err_kind(e));
                c.cut("Display", s, || format!("{e} {e:?}"));
            }
        }
        guard += 1;
        // An endless loop of a client: an accepted packet must consume bytes.
        if r.is_ok() && b.len() >= before {
            c.fail("no-progress", format!("accepted {r:?} without consuming"), s);
            break;
        }
        if r.is_err() && b.len() == before || b.is_empty() {
            break;
        }
        if guard > s.len() + 2 {
            c.fail("no-progress", format!("{guard} reads of {} bytes", s.len()), s);
            break;
        }
    }
    c.sample(|| format!("stream {}", hex(s)));
    let h = c.cut("check", s, || check(s.iter(), limit));
    if let Some(Ok(h)) = h {
        c.cut("packet_type", s, || h.packet_type());
        let fl = h.frame_length();
        if fl <= s.len() {
            let frame = Bytes::copy_from_slice(&s[..fl]);
            // Own reader, and a reader of another type on the same frame.
            let own = s[0] >> 4;
            let other = *rng.pick(&TYPES);
            for t in [own, other] {
                let f = frame.clone();
                if c.cut("typed read", s, || typed_read(t, h, f)).flatten().is_some() {
                    c.count("typed readers run");
                }
            }
            c06_parts(c, rng, &s[(fl - (fl - 2).min(fl))..fl]);
        }
    }
    c06_parts(c, rng, s);
}

/// Readers of parts of packets, on any bytes.
fn c06_parts(c: &mut Ctx, rng: &mut Rng, s: &[u8]) {
    if s.len() > 100_000 {
        return;
    }
    let at = if s.is_empty() { 0 } else { rng.below(s.len().min(16)) };
    let b = Bytes::copy_from_slice(&s[at..]);
    let flags = if s.is_empty() { 0 } else { s[0] ^ rng.u8() };
    macro_rules! part {
        ($($name:literal => $e:expr),* $(,)?) => {$(
            let mut x = b.clone();
            let n = x.len();
            let f: fn(&mut Bytes, u8) -> bool = $e;
            if let Some(_) = c.cut($name, s, || f(&mut x, flags)) {
                c.check(x.len() <= n, "grew", s, || format!("{} grew its input", $name));
            }
        )*};
    }
    match rng.below(3) {
        0 => {
            part!(
                "ConnectProperties::read" => |b, _| ConnectProperties::read(b).is_ok(),
                "LastWillProperties::read" => |b, _| LastWillProperties::read(b).is_ok(),
                "ConnAckProperties::read" => |b, _| ConnAckProperties::read(b).is_ok(),
                "PublishProperties::read" => |b, _| PublishProperties::read(b).is_ok(),
                "DisconnectProperties::extract" => |b, _| DisconnectProperties::extract(b).is_ok(),
            );
        }
        1 => {
            part!(
                "PubAckProperties::read" => |b, _| PubAckProperties::read(b).is_ok(),
                "PubRecProperties::read" => |b, _| PubRecProperties::read(b).is_ok(),
                "PubRelProperties::read" => |b, _| PubRelProperties::read(b).is_ok(),
                "PubCompProperties::read" => |b, _| PubCompProperties::read(b).is_ok(),
                "SubAckProperties::read" => |b, _| SubAckProperties::read(b).is_ok(),
            );
        }
        _ => {
            part!(
                "SubscribeProperties::read" => |b, _| SubscribeProperties::read(b).is_ok(),
                "UnsubscribeProperties::read" => |b, _| UnsubscribeProperties::read(b).is_ok(),
                "UnsubAckProperties::read" => |b, _| UnsubAckProperties::read(b).is_ok(),
                "LastWill::read" => |b, f| LastWill::read(f, b).is_ok(),
                "LastWill::read with will" => |b, f| LastWill::read(f | 4, b).is_ok(),
                "Login::read" => |b, f| Login::read(f, b).is_ok(),
                "Login::read with both" => |b, f| Login::read(f | 0xC0, b).is_ok(),
                "Filter::read" => |b, _| Filter::read(b).is_ok(),
            );
        }
    }
    c.count("part readers run (groups)");
}

/// Every part reader on every short input, exhaustively.
fn c06_parts_short(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    const AL: &[u8] = &[0, 1, 2, 3, 4, 5, 8, 0x0B, 0x11, 0x1F, 0x26, 0x7F, 0x80, 0x85, 0xFF];
    let mut k = i;
    let n = (k % 5) as usize;
    k /= 5;
    let mut s = Vec::new();
    for _ in 0..n {
        s.push(AL[(k % 15) as usize]);
        k /= 15;
    }
    for _ in 0..6 {
        c06_parts(c, &mut rng, &s);
    }
    c.eval(fnv(66, &s));
    c.cut("qos", &s, || qos(i as u8));
    c.cut("FixedHeader", &s, || {
        let h = FixedHeader::new(i as u8, 1 + (i % 4) as usize, (i * 37 % 300_000) as usize);
        let _ = h.packet_type();
        h.frame_length()
    });
}

pub fn c06_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_hostile(&mut v, t, scale, c06_stream);
    v.push(fam("parts-short", if t { 400_000 } else { 12_000 * scale / 100 + 1 }, c06_parts_short));
    v
}

// --------------------------------------------------------------------- C07

fn read_one(c: &mut Ctx, wire: &[u8]) -> Option<(Result<Packet, Error>, usize)> {
    let mut s = BytesMut::from(wire);
    let r = c.cut("read", wire, || Packet::read(&mut s, None))?;
    Some((r, s.len()))
}

fn c07_frame(c: &mut Ctx, m: &M, wire: &[u8]) {
    let Some((r, left)) = read_one(c, wire) else { return };
    match r {
        Ok(p) => {
            let got = from_packet(&p);
            c.check(got == *m && left == 0, "content", wire, || {
                format!("the bytes say {} but read {}", m.brief(), got.brief())
            });
        }
        Err(e) => c.fail("rejected", format!("{e:?} for {}", m.brief()), wire),
    }
}

fn c07(c: &mut Ctx, rng: &mut Rng, m: &M) {
    for k in 0..3u8 {
        let f = Form {
            shuffle: if k == 0 { None } else { Some(rng.u64()) },
            explicit: k,
        };
        let wire = rc::encode(m, &f);
        c.eval(fnv(7, &wire));
        if k == 1 {
            c.sample(|| format!("{} from {}", m.brief(), hex(&wire)));
        }
        c07_frame(c, m, &wire);
        if wire.len() > 50_000 {
            break;
        }
    }
    tick(c, m.ty);
}

/// Hostile frames that happen to be well formed must be accepted as well.
fn c07_hostile(c: &mut Ctx, _rng: &mut Rng, s: &[u8]) {
    let Framing::Frame { remaining, header } = rc::framing(s) else { return };
    let frame = &s[..header + remaining];
    if let Verdict::Good(m, 0) = rc::judge(frame, TEXT) {
        c.eval(fnv(7, frame));
        c.count("well-formed frames out of mutation");
        c07_frame(c, &m, frame);
    }
}

/// Every order of the properties of small sets.
fn c07_orders(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let sec = SECTIONS[(i % 13) as usize];
    let ids = section_props(sec);
    let mut m = host(sec);
    let n = ids.len().min(4);
    let mut pick: Vec<u8> = ids.to_vec();
    rng.shuffle(&mut pick);
    pick.truncate(n);
    let mut perm: Vec<u8> = pick.clone();
    // all permutations (Heap's algorithm, iterative)
    let mut cnt = vec![0usize; n];
    let mut orders = vec![perm.clone()];
    let mut k = 0;
    while k < n {
        if cnt[k] < k {
            if k % 2 == 0 {
                perm.swap(0, k);
            } else {
                perm.swap(cnt[k], k);
            }
            orders.push(perm.clone());
            cnt[k] += 1;
            k = 0;
        } else {
            cnt[k] = 0;
            k += 1;
        }
    }
    for o in orders {
        let ps: Props = o.iter().map(|id| (*id, small_val(*id, (i % 9) as u8))).collect();
        *props_mut(&mut m, sec) = ps;
        let wire = rc::encode(&m, &Form { shuffle: None, explicit: 2 });
        c.eval(fnv(7, &wire));
        c.count("property orders");
        c07_frame(c, &m.clone().norm(), &wire);
    }
}

/// Binary fields hold any bytes.
fn c07_binary(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let bins: Vec<Slot> = slots().into_iter().filter(|s| !s.is_text()).collect();
    let s = bins[(i as usize) % bins.len()];
    let n = rng.range(1, 40);
    let v = if s == Slot::WillTopic { gstr_n(&mut rng, n) } else { rng.bytes(n) };
    let m = s.put(v).norm();
    let wire = rc::encode(&m, &Form::default());
    c.eval(fnv(7, &wire));
    c.count("binary fields");
    c07_frame(c, &m, &wire);
}

/// The password is binary data in MQTT 5. Known finding K01: the text
/// configurations hold it in a string and refuse one that is not UTF-8.
fn c07_password(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let mut pass = match i {
        0 => vec![0xFF],
        1 => vec![0x80],
        2 => vec![b'a', 0xC3],
        _ => {
            let n = rng.range(1, 24);
            rng.bytes(n)
        }
    };
    if rc::utf8_ok(&pass) {
        pass.push(0xFE);
    }
    let m = Slot::Pass.put(pass).norm();
    let wire = rc::encode(&m, &Form::default());
    c.eval(fnv(7, &wire));
    let Some((r, _)) = read_one(c, &wire) else { return };
    match r {
        Err(Error::TopicNotUtf8) if TEXT => {
            let k = "K01 CONNECT whose password is not UTF-8 is refused with TopicNotUtf8";
            *c.known.entry(k.to_string()).or_insert(0) += 1;
            c.count("known finding K01 observed");
        }
        _ => c07_frame(c, &m, &wire),
    }
}

pub fn c07_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, scale.min(200), c07);
    on_hostile(&mut v, t, scale, c07_hostile);
    v.push(fam("property-orders", if t { 13 * 2000 } else { 13 * 40 }, c07_orders));
    v.push(fam("binary-fields", if t { 100_000 } else { 4000 }, c07_binary));
    v.push(fam("password-bytes", if t { 20_000 } else { 500 }, c07_password));
    v
}

// --------------------------------------------------------------------- C08

fn c08_frame(c: &mut Ctx, s: &[u8]) {
    let Framing::Frame { remaining, header } = rc::framing(s) else {
        if rc::framing(s) == Framing::BadLength {
            let Some((r, _)) = read_one(c, s) else { return };
            c.eval(fnv(8, &s[..5]));
            c.count("bad: remaining length of five bytes");
            c.check(matches!(r, Err(ref e) if !matches!(e, Error::InsufficientBytes(_))), "accepted", s, || {
                format!("remaining length longer than four bytes: {r:?}")
            });
        }
        return;
    };
    let frame = &s[..header + remaining];
    let why = match rc::judge(frame, TEXT) {
        Verdict::Bad(why) => why,
        Verdict::Good(m, q) => return c08_forbidden(c, frame, &m, q),
    };
    let Some((r, _)) = read_one(c, frame) else { return };
    c.eval(fnv(8, frame));
    c.count(why);
    c.sample(|| format!("{why}: {} -> {r:?}", hex(frame)));
    match r {
        Ok(p) => {
            let got = from_packet(&p);
            c.fail("accepted", format!("{why}, but read {}", got.brief()), frame);
        }
        Err(Error::InsufficientBytes(n)) => {
            c.fail("asks-for-more", format!("{why}, but wants {n} more bytes"), frame);
        }
        Err(_) => {}
    }
}

/// A value the standard forbids but the format can carry (a zero identifier, a
/// boolean of 7, DUP on QoS 0): refused, or delivered as it is for the caller to
/// judge; never mended in silence.
fn c08_forbidden(c: &mut Ctx, frame: &[u8], m: &M, q: u32) {
    let told = rc::quirk::VALUE_RANGE | rc::quirk::DUP_ON_QOS0 | rc::quirk::ZERO_PACKET_ID | rc::quirk::NUL_IN_STRING;
    if q & told == 0 || q & !told != 0 {
        return;
    }
    let Some((r, _)) = read_one(c, frame) else { return };
    c.eval(fnv(8, frame));
    c.count("forbidden values");
    match r {
        Ok(p) => {
            let got = from_packet(&p);
            c.check(got == *m, "mended", frame, || format!("{} read as {}", m.brief(), got.brief()));
        }
        Err(e) => {
            c.check(!matches!(e, Error::InsufficientBytes(_)), "asks-for-more", frame, || format!("{e:?}: {}", m.brief()));
        }
    }
}

/// Every property of every section with the values the standard forbids.
fn c08_values(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let sec = SECTIONS[i as usize % SECTIONS.len()];
    let mut m = host(sec);
    let ids = section_props(sec);
    let id = *rng.pick(ids);
    let v = match small_val(id, 0) {
        PV::U8(_) => PV::U8(if rng.bool() { rng.range(2, 255) as u8 } else { *rng.pick(&[2, 3, 127, 128, 254, 255]) }),
        PV::U16(_) => PV::U16(0),
        PV::U32(_) => PV::U32(0),
        PV::Var(_) => PV::Var(0),
        PV::Str(_) => PV::Str(rng.pick(&[&b"\0"[..], b"a\0", b"\0a", b"a\0b"]).to_vec()),
        PV::Pair(..) => PV::Pair(b"a\0".to_vec(), b"\0".to_vec()),
        v => v,
    };
    props_mut(&mut m, sec).push((id, v));
    if rng.bool() {
        let k = *rng.pick(ids);
        if k != id {
            props_mut(&mut m, sec).insert(0, (k, small_val(k, 3)));
        }
    }
    match rng.below(4) {
        0 => m.pkid = 0,
        1 if m.ty == PUBLISH => {
            m.qos = 0;
            m.dup = true;
        }
        2 if m.ty == PUBLISH || m.ty == CONNECT => m.name = b"t\0p".to_vec(),
        _ => {}
    }
    let wire = rc::encode(&m, &Form { shuffle: Some(rng.u64()), explicit: 2 });
    c08_frame(c, &wire);
}

/// Frames with exactly one thing wrong, for every kind of wrong.
fn c08_single(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let (m, e) = (rng.pick(hostile::bases()).clone(), rng.below(3) as u8);
    let wire = rc::encode(&m, &Form { shuffle: Some(i), explicit: e });
    let (first, body) = hostile::split_frame(&wire);
    let frame = match i % 8 {
        0 => hostile::refix(first ^ (1 << rng.below(4)), &body),
        1 => {
            let mut b = body;
            b.push(hostile::hot(&mut rng));
            hostile::refix(first, &b)
        }
        2 => {
            let n = rng.below(body.len() + 1);
            hostile::refix(first, &body[..n])
        }
        3 => {
            // a property of another packet, well formed otherwise
            let sec = *rng.pick(&SECTIONS);
            let all: Vec<u8> = (1..=42).filter(|x| prop_kind(*x).is_some()).collect();
            let id = *rng.pick(&all);
            let mut m = host(sec);
            props_mut(&mut m, sec).push((id, small_val(id, 2)));
            if rng.bool() {
                let ids = section_props(sec);
                let k = *rng.pick(ids);
                props_mut(&mut m, sec).insert(rng.below(2), (k, small_val(k, 3)));
            }
            rc::encode(&m, &Form { shuffle: None, explicit: 2 })
        }
        4 => {
            // property length one too short or too long
            let sec = *rng.pick(&SECTIONS);
            let ids = section_props(sec);
            let id = *rng.pick(ids);
            let mut raw = Vec::new();
            rc::put_prop(&mut raw, id, &gval(&mut rng, id));
            let d = rng.range(1, 6);
            let declared = if rng.bool() { raw.len() + d } else { raw.len().saturating_sub(d) };
            with_raw_props(&host(sec), sec, declared, &raw)
        }
        5 => {
            let mut b = body;
            if !b.is_empty() {
                let at = rng.below(b.len());
                b[at] = *rng.pick(&[0xFF, 0xC0, 0xFE, 0x80]);
            }
            hostile::refix(first, &b)
        }
        6 => {
            // ill-formed text in a text field
            let ss: Vec<Slot> = slots().into_iter().filter(|s| s.is_text() && *s != Slot::Pass).collect();
            let s = *rng.pick(&ss);
            let n = rng.below(12);
            let mut v = gstr_n(&mut rng, n);
            let at = rng.below(v.len() + 1);
            let bad: &[u8] = rng.pick(&[&[0xFFu8][..], &[0x80], &[0xC0, 0x80], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xE2, 0x82]]);
            v.splice(at..at, bad.iter().copied());
            rc::encode(&s.put(v), &Form::default())
        }
        _ => {
            let mut b = body;
            if b.len() > 1 {
                let at = rng.below(b.len() - 1);
                let v = ((b.len() - at) as u16).wrapping_add(*rng.pick(&[0, 1, 2, 0x100, 0xFFFF]));
                b[at..at + 2].copy_from_slice(&v.to_be_bytes());
            }
            hostile::refix(first, &b)
        }
    };
    c08_frame(c, &frame);
}

pub fn c08_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_hostile(&mut v, t, scale, |c, _, s| c08_frame(c, s));
    v.push(fam("single-fault", if t { 4_000_000 } else { 120_000 * scale / 100 + 1 }, c08_single));
    v.push(fam("forbidden-value", if t { 400_000 } else { 30_000 * scale / 100 + 1 }, c08_values));
    v
}

// --------------------------------------------------------------------- C09

/// One call: consumes exactly one frame or nothing, and says why.
fn c09(c: &mut Ctx, rng: &mut Rng, s: &[u8]) {
    let limit = *rng.pick(&[None, None, Some(usize::MAX), Some(268_435_455)]);
    let mut b = BytesMut::from(s);
    let Some(r) = c.cut("read", s, || Packet::read(&mut b, limit)) else { return };
    let Some(h) = c.cut("check", s, || check(s.iter(), limit)) else { return };
    c.eval(fnv(9, s));
    let consumed = s.len() - b.len().min(s.len());
    c.check(b[..] == s[consumed..], "rest-changed", s, || "bytes after the frame changed".to_string());
    let f = rc::framing(s);
    c.sample(|| format!("{} -> {f:?}, consumed {consumed}", hex(s)));
    if let Framing::Frame { remaining, header } | Framing::NeedBody { remaining, header, .. } = f {
        if rc::varint_len(remaining) + 1 != header && r == Err(Error::MalformedRemainingLength) {
            // The standard forbids this form of the length; refusing the frame
            // for it is fine (a bad length inside the frame is told alike).
            c.count("overlong length refused");
            let whole = matches!(f, Framing::Frame { .. }) && consumed == header + remaining;
            c.check(consumed == 0 || whole, "consumed", s, || {
                format!("{consumed} bytes consumed after a bad length")
            });
            return;
        }
    }
    match f {
        Framing::NeedHeader(n) => {
            c.count("incomplete header");
            let want = if s.len() < 2 { 2 - s.len() } else { n };
            for (name, got) in [("read", r.as_ref().err().copied()), ("check", h.err())] {
                // The length is not known yet: any number up to what is missing.
                let ok = matches!(got, Some(Error::InsufficientBytes(k)) if (1..=want).contains(&k));
                c.check(ok, "incomplete", s, || {
                    format!("{name}: {got:?}, expected InsufficientBytes of 1 to {want}")
                });
            }
            c.check(consumed == 0, "consumed", s, || format!("{consumed} bytes of an incomplete frame"));
        }
        Framing::NeedBody { missing, .. } => {
            c.count("incomplete body");
            for (name, got) in [("read", r.as_ref().err().copied()), ("check", h.err())] {
                c.check(got == Some(Error::InsufficientBytes(missing)), "incomplete", s, || {
                    format!("{name}: {got:?}, expected InsufficientBytes({missing})")
                });
            }
            c.check(consumed == 0, "consumed", s, || format!("{consumed} bytes of an incomplete frame"));
        }
        Framing::BadLength => {
            c.count("impossible length");
            for (name, got) in [("read", r.as_ref().err().copied()), ("check", h.err())] {
                let ok = matches!(got, Some(e) if !matches!(e, Error::InsufficientBytes(_)));
                c.check(ok, "bad-length", s, || {
                    format!("{name}: {got:?}, expected an error that does not wait for more")
                });
            }
            c.check(consumed == 0, "consumed", s, || format!("{consumed} bytes after a bad length"));
        }
        Framing::Frame { remaining, header } => {
            c.count(if r.is_ok() { "complete, accepted" } else { "complete, refused" });
            c.check(consumed == header + remaining, "consumed", s, || {
                format!("{consumed} bytes consumed, the frame has {}: {r:?}", header + remaining)
            });
            c.check(!matches!(r, Err(Error::InsufficientBytes(_))), "asks-for-more", s, || {
                format!("{r:?} on a complete frame")
            });
            match h {
                Err(e) => c.fail("check", format!("{e:?} on a complete frame"), s),
                Ok(h) => {
                    c.check(h.frame_length() == header + remaining, "check", s, || {
                        format!("frame_length {} not {}", h.frame_length(), header + remaining)
                    });
                    let want = FixedHeader::new(s[0], header - 1, remaining);
                    c.check(h == want, "check", s, || format!("{h:?} not {want:?}"));
                    let t = s[0] >> 4;
                    let pt = h.packet_type();
                    let ok = match pt {
                        Ok(x) => (1..=14).contains(&t) && x as u8 == t,
                        Err(e) => (t == 0 || t == 15) && e == Error::InvalidPacketType(t),
                    };
                    c.check(ok, "check", s, || format!("packet type {pt:?} of {:#x}", s[0]));
                }
            }
        }
    }
}

/// A frame followed by any other bytes is decoded like the frame alone.
fn c09_tail(c: &mut Ctx, rng: &mut Rng, s: &[u8]) {
    c09(c, rng, s);
    let Framing::Frame { remaining, header } = rc::framing(s) else { return };
    if s.len() > 20_000 {
        return;
    }
    let frame = &s[..header + remaining];
    let mut alone = BytesMut::from(frame);
    let mut with = BytesMut::from(frame);
    let tail: Vec<u8> = {
        let n = rng.range(1, 40);
        (0..n).map(|_| hostile::hot(rng)).collect()
    };
    with.extend_from_slice(&tail);
    let Some(a) = c.cut("read", s, || Packet::read(&mut alone, None)) else { return };
    let Some(b) = c.cut("read", s, || Packet::read(&mut with, None)) else { return };
    c.count("frames with and without a tail");
    c.check(a == b, "tail", s, || format!("alone {a:?}, followed by {} {b:?}", hex(&tail)));
    c.check(with[..] == tail[..], "tail", s, || format!("{} bytes left of {}", with.len(), tail.len()));
}

fn c09_valid(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let wire = rc::encode(m, &Form { shuffle: Some(rng.u64()), explicit: rng.below(3) as u8 });
    c09_tail(c, rng, &wire);
    // a few prefixes
    let cuts = [rng.below(wire.len()), wire.len() - 1, wire.len().min(2), wire.len().min(3) - 1];
    for k in cuts {
        c09(c, rng, &wire[..k]);
    }
}

/// Every length of every form, header only: the hint is the exact remainder.
fn c09_lengths(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    for k in 0..64u64 {
        let v = match (i + k) % 4 {
            0 => ((i * 64 + k) % 20_000) as usize,
            1 => 1usize << rng.below(28),
            2 => (1usize << rng.below(28)).saturating_sub(1),
            _ => (rng.u64() >> 36) as usize,
        };
        let min = rc::varint_len(v);
        for n in min..=4 {
            let mut s = vec![rng.u8()];
            rc::put_varint_n(&mut s, v, n);
            let extra = rng.below(v.min(30) + 1);
            s.extend(std::iter::repeat(0x55).take(if extra == v && v > 0 { extra - 1 } else { extra }));
            c09(c, &mut rng, &s);
        }
    }
}

/// A frame, large ones among them, amid much else in one allocation: the bytes
/// ahead are gone, the ones behind stay as they are.
pub fn amid_much(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let ty = TYPES[(i % 14) as usize];
    let mut frame = match i / 14 % 4 {
        0 => {
            let n = rng.below(400_000);
            rc::encode(&with_remaining(n.max(3), &mut rng).norm(), &Form { shuffle: None, explicit: 2 })
        }
        1 => rc::encode(&long_model(&mut rng, ty).norm(), &Form { shuffle: Some(i), explicit: rng.below(3) as u8 }),
        2 => rc::encode(&random_model(&mut rng, ty).norm(), &Form { shuffle: Some(i), explicit: rng.below(3) as u8 }),
        _ => hostile::random_frame(&mut rng),
    };
    if rng.chance(1, 4) {
        // damaged, but still as long as it says
        let Framing::Frame { header, .. } = rc::framing(&frame) else { return };
        if frame.len() > header {
            let at = header + rng.below((frame.len() - header).min(200));
            frame[at] = hostile::hot(&mut rng);
        }
    }
    let Some((alone, left)) = read_one(c, &frame) else { return };
    c.eval(fnv(0xA1, &frame));
    c.count("frames amid much else");
    c.check(left == 0, "consumed", &frame, || format!("{left} bytes left of the frame alone: {alone:?}"));
    let ahead = *rng.pick(&[0usize, 0, 1, 4096, 65_536, 300_000]);
    let behind = *rng.pick(&[1usize, 2, 100, 5000, 65_536, 70_003, 131_072, 400_000, 1_100_000]);
    let next = if rng.bool() { hostile::hot(&mut rng) } else { rng.u8() };
    let fill = rng.u8();
    let mut b = BytesMut::with_capacity(ahead + frame.len() + behind + rng.below(3) * 1000);
    b.resize(ahead, 0x30);
    b.extend_from_slice(&frame);
    b.resize(b.len() + behind, fill);
    b[ahead + frame.len()] = next;
    let front = if rng.bool() {
        Some(b.split_to(ahead))
    } else {
        bytes::Buf::advance(&mut b, ahead);
        None
    };
    let Some(r) = c.cut("read", &frame, || Packet::read(&mut b, None)) else { return };
    let brief = |r: &Result<Packet, Error>| match r {
        Ok(p) => from_packet(p).brief(),
        Err(e) => format!("{e:?}"),
    };
    c.check(r == alone, "amid", &frame[..frame.len().min(4096)], || {
        format!("alone {}, with {ahead} bytes ahead and {behind} behind {}", brief(&alone), brief(&r))
    });
    let kept = b.len() == behind && b[0] == next && b[1..].iter().all(|x| *x == fill);
    c.check(kept, "behind", &frame[..frame.len().min(4096)], || {
        format!("{behind} bytes behind the frame, {} left", b.len())
    });
    // the stream goes on to be used
    drop(front);
    for x in b.iter_mut() {
        *x = !*x;
    }
    b.clear();
    b.reserve(ahead + 100);
    b.resize(ahead + 100, 0x99);
    c.check(r == alone, "amid", &frame[..frame.len().min(4096)], || {
        format!("was {}, is {}", brief(&alone), brief(&r))
    });
}

/// Every beginning of a header that is made of telling bytes, up to a length of
/// five bytes, behind every first byte in turn.
fn c09_headers(c: &mut Ctx, i: u64) {
    const HOT: [u8; 10] = [0x00, 0x01, 0x02, 0x03, 0x7F, 0x80, 0x81, 0x82, 0xFE, 0xFF];
    let mut rng = c.rng();
    for n in 0..=5u32 {
        let all = 10u64.pow(n);
        // Long ones are many: a part of them per case.
        let (from, step) = if n <= 3 { (0, 1) } else { (i % 97, 97) };
        for k in (from..all).step_by(step) {
            let first = ((k / step as u64) as u8).wrapping_mul(0x4D).wrapping_add((i as u8).wrapping_mul(0x11));
            let mut s = vec![first];
            let mut r = k;
            for _ in 0..n {
                s.push(HOT[(r % 10) as usize]);
                r /= 10;
            }
            c09(c, &mut rng, &s);
        }
    }
    c.count("sets of header beginnings");
}

pub fn c09_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    v.push(fam("amid-much", if t { 40_000 } else { 1200 * scale / 100 + 1 }, amid_much));
    v.push(fam("headers", if t { 97 * 60 } else { 97 * scale.max(100) / 100 }, c09_headers));
    on_valid(&mut v, t, scale.min(200), c09_valid);
    on_hostile(&mut v, t, scale, c09_tail);
    v.push(fam("header-lengths", if t { 200_000 } else { 2000 * scale / 100 + 1 }, c09_lengths));
    v
}

// --------------------------------------------------------------------- C10

type Out = Result<M, Error>;

/// Waiting is right only while the frame at the front is incomplete, and only
/// for bytes that it will certainly have.
fn waits_rightly(c: &mut Ctx, b: &[u8], n: usize, s: &[u8]) -> Option<()> {
    let most = match rc::framing(b) {
        Framing::NeedHeader(_) if b.len() < 2 => 2 - b.len(),
        Framing::NeedHeader(n) => n,
        Framing::NeedBody { missing, .. } => missing,
        Framing::BadLength | Framing::Frame { .. } => 0,
    };
    if b.len() < 8 && most == 1 {
        c.count("waits inside a header");
    }
    let ok = n > 0 && n <= most;
    c.check(ok, "waits-in-vain", s, || {
        format!("waits for {n} more bytes behind {}, at most {most} may be asked for", hex(&b[..b.len().min(16)]))
    })
    .then_some(())
}

/// A connection that gets the whole stream at once.
fn at_once(c: &mut Ctx, s: &[u8]) -> Option<(Vec<Out>, usize)> {
    let mut b = BytesMut::from(s);
    let mut out = Vec::new();
    loop {
        let before = b.len();
        let r = c.cut("read", s, || Packet::read(&mut b, None))?;
        match r {
            Ok(p) => out.push(Ok(from_packet(&p))),
            Err(Error::InsufficientBytes(n)) => {
                waits_rightly(c, &b, n, s)?;
                return Some((out, b.len()));
            }
            Err(e) => {
                out.push(Err(e));
                if b.len() == before {
                    return Some((out, b.len()));
                }
            }
        }
        if b.len() >= before && !b.is_empty() {
            c.fail("no-progress", "a packet consumed nothing".to_string(), s);
            return None;
        }
    }
}

/// A connection that gets it in pieces. Mode: 0 pieces of random size, 1 one
/// byte at a time, 2 exactly as many bytes as the decoder asks for.
fn in_pieces(c: &mut Ctx, rng: &mut Rng, s: &[u8], mode: u8, reuse: bool) -> Option<(Vec<Out>, usize)> {
    let mut b = if reuse { BytesMut::with_capacity(rng.range(1, 200)) } else { BytesMut::new() };
    let mut out = Vec::new();
    let mut fed = 0;
    let mut done = 0; // bytes of the stream that belong to finished frames
    loop {
        let before = b.len();
        let r = c.cut("read", s, || Packet::read(&mut b, None))?;
        c.count("reads of partial streams");
        if fed - b.len() < done {
            c.fail("rest-changed", "the buffer grew".to_string(), s);
            return None;
        }
        match r {
            Ok(p) => {
                out.push(Ok(from_packet(&p)));
                done = fed - b.len();
            }
            Err(Error::InsufficientBytes(n)) => {
                c.count("waits for more bytes");
                if b.len() != before {
                    c.fail("consumed", format!("{} bytes consumed while waiting", before - b.len()), s);
                    return None;
                }
                // Never asks for bytes beyond the frame it is waiting for.
                waits_rightly(c, &b, n, s)?;
                if fed == s.len() {
                    return Some((out, b.len()));
                }
                let k = match mode {
                    0 => rng.range(1, 40),
                    1 => 1,
                    2 => n,
                    _ => {
                        if rng.chance(1, 5) {
                            n + rng.below(50)
                        } else {
                            rng.range(1, n)
                        }
                    }
                };
                let k = k.min(s.len() - fed);
                b.extend_from_slice(&s[fed..fed + k]);
                fed += k;
            }
            Err(e) => {
                out.push(Err(e));
                if b.len() == before {
                    // A framing error ends a connection.
                    return Some((out, s.len() - done));
                }
                done = fed - b.len();
            }
        }
    }
}

fn c10_stream(c: &mut Ctx, rng: &mut Rng, s: &[u8]) {
    let Some((want, left)) = at_once(c, s) else { return };
    c.add("packets in streams", want.iter().filter(|x| x.is_ok()).count() as u64);
    c.add("refused frames in streams", want.iter().filter(|x| x.is_err()).count() as u64);
    for mode in 0..4u8 {
        if mode == 1 && s.len() > 6000 {
            continue;
        }
        let reuse = rng.bool();
        let Some((got, gleft)) = in_pieces(c, rng, s, mode, reuse) else { return };
        c.eval(fnv(u64::from(mode), s));
        c.count(match mode {
            0 => "deliveries: random pieces",
            1 => "deliveries: byte by byte",
            2 => "deliveries: exactly what was asked for",
            _ => "deliveries: about what was asked for",
        });
        if !c.check(got == want && gleft == left, "delivery", s, || {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            format!(
                "mode {mode}: {} outcomes, {} at once, first difference at {k}: {:?} / {:?}; left {gleft}/{left}",
                got.len(),
                want.len(),
                got.get(k),
                want.get(k)
            )
        }) {
            return;
        }
        if mode == 2 {
            // Feeding what is asked for completes a frame in few steps.
            c.count("hint-driven deliveries");
        }
    }
    c.sample(|| format!("{} outcomes from {}", want.len(), hex(s)));
}

fn c10_valid(c: &mut Ctx, _i: u64) {
    let mut rng = c.rng();
    let mut s = Vec::new();
    for _ in 0..rng.range(1, 12) {
        let t = *rng.pick(&TYPES);
        let m = random_model(&mut rng, t);
        s.extend(rc::encode(&m, &Form { shuffle: Some(rng.u64()), explicit: rng.below(3) as u8 }));
        if s.len() > 60_000 {
            break;
        }
    }
    if rng.chance(1, 3) {
        let n = rng.below(s.len() + 1);
        s.truncate(n);
    }
    c10_stream(c, &mut rng, &s);
}

fn c10_mixed(c: &mut Ctx, _i: u64) {
    let mut rng = c.rng();
    let mut s = Vec::new();
    for _ in 0..rng.range(1, 10) {
        let f = hostile::random_frame(&mut rng);
        if rng.chance(1, 3) {
            let (first, body) = hostile::split_frame(&f);
            let o = hostile::random_frame(&mut rng);
            let b = hostile::mutate(&mut rng, body, &o);
            s.extend(hostile::refix(first, &b));
        } else {
            s.extend(f);
        }
        if s.len() > 30_000 {
            break;
        }
    }
    match rng.below(10) {
        0 => {
            let at = rng.below(s.len() + 1);
            s.splice(at..at, [0x30, 0xFF, 0xFF, 0xFF, 0xFF, 0x01]);
        }
        1 | 2 => {
            // an impossible header at the end, cut anywhere
            let mut h = vec![rng.u8()];
            let k = rng.range(1, 6);
            h.extend((0..k).map(|_| 0x80 | rng.u8()));
            s.extend_from_slice(&h);
        }
        3 => {
            // a possible one
            let mut h = vec![rng.u8()];
            let min = rng.range(1, 4);
            let v = rng.below(1 << (7 * min));
            rc::put_varint(&mut h, v);
            let k = rng.below(h.len() + 1);
            s.extend_from_slice(&h[..k]);
        }
        _ => {}
    }
    c10_stream(c, &mut rng, &s);
}

/// Every way to cut a short stream in two, and many in three.
fn c10_cuts(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let b = hostile::bases();
    let mut s = rc::encode(&b[(i as usize) % b.len()], &Form { shuffle: None, explicit: (i % 3) as u8 });
    s.extend(rc::encode(rng.pick(b), &Form::default()));
    if s.len() > 700 {
        s.truncate(700);
    }
    let Some((want, left)) = at_once(c, &s) else { return };
    for k in 0..=s.len() {
        let k2 = rng.range(k, s.len());
        let mut b = BytesMut::new();
        let mut out = Vec::new();
        for piece in [&s[..k], &s[k..k2], &s[k2..]] {
            b.extend_from_slice(piece);
            loop {
                let before = b.len();
                let Some(r) = c.cut("read", &s, || Packet::read(&mut b, None)) else { return };
                match r {
                    Ok(p) => out.push(Ok(from_packet(&p))),
                    Err(Error::InsufficientBytes(_)) => break,
                    Err(e) => {
                        out.push(Err(e));
                        if b.len() == before {
                            break;
                        }
                    }
                }
            }
        }
        c.eval(fnv(k as u64, &s));
        c.count("two-cut deliveries");
        if !c.check(out == want && b.len() == left, "delivery", &s, || {
            format!("cut at {k} and {k2}: {} outcomes, {} at once", out.len(), want.len())
        }) {
            return;
        }
    }
}

/// Two to four connections served in turns on one thread: each must come out
/// as if it were alone.
fn c10_turns(c: &mut Ctx, _i: u64) {
    let mut rng = c.rng();
    let k = rng.range(2, 4);
    let ty = *rng.pick(&TYPES);
    let alike = rng.bool();
    let mut streams = Vec::new();
    for _ in 0..k {
        let mut s = Vec::new();
        for _ in 0..rng.range(1, 5) {
            // often the same kind of packet on all of them
            let t = if alike { ty } else { *rng.pick(&TYPES) };
            let mut f = hostile::moderate_frame(&mut rng, t);
            if rng.chance(1, 8) {
                let (first, body) = hostile::split_frame(&f);
                let o = hostile::moderate_frame(&mut rng, t);
                let b = hostile::mutate(&mut rng, body, &o);
                f = hostile::refix(first, &b);
            }
            s.extend(f);
            if s.len() > 4000 {
                break;
            }
        }
        if rng.chance(1, 4) {
            let n = rng.below(s.len() + 1);
            s.truncate(n);
        }
        streams.push(s);
    }
    let mut want = Vec::new();
    for s in &streams {
        let Some(w) = at_once(c, s) else { return };
        want.push(w);
    }
    struct Conn {
        b: BytesMut,
        fed: usize,
        out: Vec<Out>,
        dead: bool,
    }
    let mut conns: Vec<Conn> =
        (0..k).map(|_| Conn { b: BytesMut::new(), fed: 0, out: Vec::new(), dead: false }).collect();
    let fine = rng.bool();
    for s in &streams {
        c.eval(fnv(1010, s));
    }
    loop {
        let open: Vec<usize> = (0..k).filter(|j| !conns[*j].dead && conns[*j].fed < streams[*j].len()).collect();
        if open.is_empty() {
            break;
        }
        let j = *rng.pick(&open);
        let (s, x) = (&streams[j], &mut conns[j]);
        let n = rng.range(1, if fine { 4 } else { 60 }).min(s.len() - x.fed);
        x.b.extend_from_slice(&s[x.fed..x.fed + n]);
        x.fed += n;
        c.count("turns between connections");
        loop {
            let before = x.b.len();
            let Some(r) = c.cut("read", s, || Packet::read(&mut x.b, None)) else { return };
            match r {
                Ok(p) => x.out.push(Ok(from_packet(&p))),
                Err(Error::InsufficientBytes(_)) => break,
                Err(e) => {
                    x.out.push(Err(e));
                    if x.b.len() == before {
                        x.dead = true;
                        break;
                    }
                }
            }
        }
    }
    for j in 0..k {
        let (out, x) = (&want[j].0, &conns[j]);
        if !c.check(x.out == *out && (x.dead || x.b.len() == want[j].1), "interleaved", &streams[j], || {
            format!("served in turns with {} other connections: {:?}, alone: {out:?}", k - 1, x.out)
        }) {
            return;
        }
    }
}

/// Frames whose length takes two, three and four bytes, cut within the header,
/// around its end, and near the end of the frame.
fn c10_large(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let edges = [127usize, 128, 16_383, 16_384, 16_385, 2_097_151, 2_097_152, 2_097_153, 2_500_000];
    let n = if rng.chance(1, 3) { *rng.pick(&edges) } else { edges[i as usize % edges.len()] + rng.below(3000) };
    let mut m = host(PUBLISH);
    let mut payload = vec![b'.'; n - 6];
    let k = payload.len();
    payload[k - 1] = b'!';
    m.payload = payload;
    let mut s = rc::encode(&m, &Form { shuffle: None, explicit: 2 });
    let frame = s.len();
    s.extend_from_slice(&[0xC0, 0]);
    let mut cuts = vec![rng.below(7), rng.below(14), frame - 1 - rng.below(4).min(frame - 1), frame, frame + 1];
    for _ in 0..3 {
        cuts.push(rng.below(frame));
    }
    cuts.sort_unstable();
    cuts.push(s.len());
    let asked = rng.chance(1, 3);
    let mut b = if rng.bool() { BytesMut::new() } else { BytesMut::with_capacity(s.len()) };
    let mut fed = 0;
    let mut events = Vec::new();
    c.eval(fnv(i, &s[..20]));
    let mut at = 0;
    for _ in 0..40 {
        let before = b.len();
        let Some(r) = c.cut("read", &s[..frame.min(64)], || Packet::read(&mut b, None)) else { return };
        c.count("reads of a large frame");
        match r {
            Ok(p) => events.push((from_packet(&p).ty, fed)),
            Err(Error::InsufficientBytes(n)) => {
                if b.len() != before {
                    c.fail("consumed", format!("{} bytes consumed while waiting", before - b.len()), &s[..64]);
                    return;
                }
                if fed == s.len() {
                    break;
                }
                let to = if asked {
                    (fed + n).min(s.len())
                } else {
                    while cuts[at] <= fed {
                        at += 1;
                    }
                    cuts[at]
                };
                if fed < frame && fed + n > frame {
                    c.fail("asks-too-much", format!("{n} more bytes wanted, {} are missing", frame - fed), &s[..64]);
                    return;
                }
                b.extend_from_slice(&s[fed..to]);
                fed = to;
            }
            Err(e) => {
                c.fail("refused", format!("a PUBLISH of {frame} bytes in pieces, {fed} bytes there: {e:?}"), &s[..64]);
                return;
            }
        }
    }
    let kinds: Vec<u8> = events.iter().map(|e| e.0).collect();
    c.check(kinds == [PUBLISH, PINGREQ] && b.is_empty() && events[0].1 >= frame, "delivery", &s[..64], || {
        format!("a PUBLISH of {frame} bytes and a PINGREQ in pieces: {events:?}")
    });
}

pub fn c10_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = vec![
        fam("interleaved", if t { 400_000 } else { 12_000 * scale / 100 + 1 }, c10_turns),
        fam("large", if t { 20_000 } else { 600 * scale / 100 + 1 }, c10_large),
        fam("valid-stream", if t { 300_000 } else { 10_000 * scale / 100 + 1 }, c10_valid),
        fam("mixed-stream", if t { 500_000 } else { 15_000 * scale / 100 + 1 }, c10_mixed),
        fam("cuts", if t { 20_000 } else { 600 * scale / 100 + 1 }, c10_cuts),
    ];
    for hf in hostile::families(t, scale.min(20)) {
        if hf.name == "short-bodies" || hf.name.starts_with("short-0") || hf.name == "substitute" {
            continue;
        }
        let g = hf.gen;
        v.push(fam(&format!("hostile/{}", hf.name), hf.count, move |c, i| {
            let mut rng = c.rng();
            let s = g(&mut rng, i);
            if s.len() <= 100_000 {
                c10_stream(c, &mut rng, &s);
            }
        }));
    }
    v
}

// --------------------------------------------------------------------- C11

fn c11_stream(c: &mut Ctx, rng: &mut Rng, s: &[u8]) {
    let (remaining, header) = match rc::framing(s) {
        Framing::Frame { remaining, header } | Framing::NeedBody { remaining, header, .. } => (remaining, header),
        _ => {
            // No length yet: the limit cannot matter.
            let l = rng.below(5);
            let mut a = BytesMut::from(s);
            let mut b = BytesMut::from(s);
            let Some(x) = c.cut("read", s, || Packet::read(&mut a, None)) else { return };
            let Some(y) = c.cut("read", s, || Packet::read(&mut b, Some(l))) else { return };
            c.eval(fnv(11, s));
            c.count("header incomplete");
            c.check(x == y && a == b, "limit", s, || format!("no limit {x:?}, limit {l} {y:?}"));
            return;
        }
    };
    let mut free = BytesMut::from(s);
    let Some(want) = c.cut("read", s, || Packet::read(&mut free, None)) else { return };
    let Some(hwant) = c.cut("check", s, || check(s.iter(), None)) else { return };
    let mut limits = vec![
        0,
        remaining,
        remaining.saturating_sub(1),
        remaining + 1,
        remaining + header,
        remaining / 2,
        usize::MAX,
    ];
    limits.push(rng.below(2 * remaining + 3));
    // Around every power of two a narrower number would wrap at.
    let p = 1usize << rng.below(64);
    limits.push(match rng.below(4) {
        0 => p - 1,
        1 => p,
        2 => p.wrapping_add(remaining).wrapping_sub(1),
        _ => p + rng.below(300),
    });
    for bits in [8, 16, 31, 32, 33, 48, 63] {
        if rng.chance(1, 4) {
            limits.push((1usize << bits) + rng.below(remaining + 2));
        }
    }
    for l in limits {
        let mut b = BytesMut::from(s);
        let Some(got) = c.cut("read", s, || Packet::read(&mut b, Some(l))) else { return };
        let Some(h) = c.cut("check", s, || check(s.iter(), Some(l))) else { return };
        c.eval(fnv(l as u64, s));
        if remaining > l {
            c.count("over the limit");
            let e = Error::PayloadSizeLimitExceeded { pkt_size: remaining, max: l };
            c.check(got == Err(e) && h == Err(e), "not-enforced", s, || {
                format!("remaining length {remaining}, limit {l}: {got:?}, {h:?}")
            });
            c.check(b[..] == *s, "consumed", s, || {
                format!("{} bytes consumed by a refused packet", s.len() - b.len().min(s.len()))
            });
        } else {
            c.count("within the limit");
            c.check(got == want && b == free && h == hwant, "changed-by-limit", s, || {
                format!("remaining length {remaining}, limit {l}: {got:?}, without {want:?}")
            });
        }
        if s.len() > 300_000 {
            break;
        }
    }
    c.sample(|| format!("remaining length {remaining} of {}", hex(&s[..s.len().min(12)])));
}

/// Only the header has arrived: an oversize packet is refused at once.
fn c11_header(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let v = match i % 3 {
        0 => (i % 70_000) as usize,
        1 => 1usize << rng.below(28),
        _ => (rng.u64() >> 36) as usize,
    };
    let mut s = vec![if rng.bool() { 0x30 } else { rng.u8() }];
    rc::put_varint(&mut s, v);
    let n = rng.below(4);
    s.extend(rng.bytes(n.min(v)));
    c11_stream(c, &mut rng, &s);
}

pub fn c11_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    on_valid(&mut v, t, scale.min(100), |c, rng, m| {
        let s = rc::encode(m, &Form { shuffle: None, explicit: rng.below(3) as u8 });
        c11_stream(c, rng, &s);
        let k = rng.below(s.len());
        c11_stream(c, rng, &s[..k]);
    });
    on_hostile(&mut v, t, scale.min(100), c11_stream);
    v.push(fam("header-only", if t { 2_000_000 } else { 40_000 * scale / 100 + 1 }, c11_header));
    v
}

// --------------------------------------------------------------------- C13

/// One string, in one field, between valid neighbours.
fn c13_field(c: &mut Ctx, slot: Slot, v: &[u8]) {
    let m = slot.put(v.to_vec()).norm();
    let wire = rc::encode(&m, &Form { shuffle: None, explicit: 2 });
    let Some((r, left)) = read_one(c, &wire) else { return };
    c.eval(fnv(13, &wire));
    let good = rc::utf8_ok(v);
    if TEXT && slot.is_text() && !good {
        c.count("ill-formed text");
        if slot == Slot::Pass {
            // MQTT 5 allows it (finding K01 of C07), a text type cannot hold it.
            c.check(r.is_err(), "ill-formed", &wire, || format!("{slot:?}: {r:?}"));
            return;
        }
        c.check(matches!(r, Err(ref e) if !matches!(e, Error::InsufficientBytes(_))), "ill-formed", &wire, || {
            format!("{slot:?} = {} accepted: {r:?}", hex(v))
        });
        return;
    }
    c.count(if good { "well-formed text" } else { "raw bytes kept" });
    match r {
        Ok(p) => {
            // from_packet copies bytes without interpreting them
            let got = from_packet(&p);
            c.check(got == m && left == 0, "altered", &wire, || {
                format!("{slot:?} = {}: read {}", hex(v), got.brief())
            });
            let ok = c13_check_text(&p);
            c.check(ok, "invalid-str", &wire, || format!("{slot:?}: a str that is not UTF-8"));
        }
        Err(e) => c.fail("rejected", format!("{slot:?} = {}: {e:?}", hex(v)), &wire),
    }
    // and the encoder puts out the same bytes
    if TEXT && slot.is_text() && !good {
        return;
    }
    let p = to_packet(&m, false);
    let mut b = BytesMut::new();
    let Some(w) = c.cut("write", &wire, || p.write(&mut b)) else { return };
    let at = find(&b, v);
    c.check(w.is_ok() && at, "altered", &b.clone(), || {
        format!("{slot:?} = {} not in what was written: {w:?}", hex(v))
    });
}

fn c13_judge(c: &mut Ctx, wire: &[u8], r: &Result<Packet, Error>) {
    match (rc::judge(wire, TEXT), r) {
        (Verdict::Good(m, _), Ok(p)) => {
            c.count("well-formed text");
            c.check(from_packet(p) == m && c13_check_text(p), "altered", wire, || {
                format!("meant {} read {}", m.brief(), from_packet(p).brief())
            });
        }
        // a password may be any bytes in MQTT 5, here it is text (K01)
        (Verdict::Good(m, q), Err(e)) => {
            let k01 = TEXT && m.ty == CONNECT && !rc::utf8_ok(&m.pass);
            c.check(q != 0 || k01, "rejected", wire, || format!("{e:?}: {}", m.brief()));
        }
        (Verdict::Bad(why), Ok(p)) => {
            c.fail("ill-formed", format!("{why}: accepted as {}", from_packet(p).brief()), wire)
        }
        (Verdict::Bad(_), Err(_)) => c.count("ill-formed text"),
    }
}

fn c13_rich(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let ty = TYPES[(i % 12) as usize];
    let ty = if ty >= PINGREQ { DISCONNECT } else { ty };
    let mut w = hostile::moderate_frame(&mut rng, ty);
    let texts: Vec<rc::Mark> = rc::marks(&w).into_iter().filter(|m| m.k == rc::MK::Text && m.n > 0).collect();
    if texts.is_empty() {
        return;
    }
    let m = *rng.pick(&texts);
    match rng.below(4) {
        0 => w[m.at + rng.below(m.n)] = rng.u8() | 0x80,
        1 => w[m.at + m.n - 1] = *rng.pick(&[0x80, 0xC3, 0xE2, 0xF0, 0xFF]),
        2 => w[m.at] = *rng.pick(&[0x80, 0xBF, 0xC0, 0xF5, 0xFF]),
        _ => {
            let t = gstr_n(&mut rng, m.n);
            w[m.at..m.at + m.n].copy_from_slice(&t);
        }
    }
    c.eval(fnv(1313, &w));
    let Some((r, _)) = read_one(c, &w) else { return };
    c13_judge(c, &w, &r);
}

fn c13_turns(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let all = slots();
    let slot = all[i as usize % all.len()];
    let n = 1 + rng.below(40);
    let good = rc::encode(&slot.put(vec![b'g'; n]).norm(), &Form { shuffle: None, explicit: 2 });
    let at = rc::marks(&good).into_iter().find(|m| good[m.at..m.at + m.n] == vec![b'g'; n][..]).map(|m| m.at);
    let Some(at) = at else { return };
    let mut s = BytesMut::with_capacity(good.len());
    for turn in 0..6 {
        let mut w = good.clone();
        if turn % 2 == 1 || rng.chance(1, 3) {
            w[at + rng.below(n)] = *rng.pick(&[0x80, 0xC0, 0xFF]);
        }
        // the same allocation, or most likely the same address
        match turn % 3 {
            0 => s = BytesMut::with_capacity(good.len()),
            _ => {
                s.reserve(good.len());
            }
        }
        s.clear();
        s.extend_from_slice(&w);
        let Some(r) = c.cut("read", &w, || Packet::read(&mut s, None)) else { return };
        c.eval(fnv(1314 + turn, &w));
        c.count("turns");
        c13_judge(c, &w, &r);
        drop(r);
        if turn % 3 == 2 {
            s = BytesMut::new();
        }
    }
}

fn find(hay: &[u8], v: &[u8]) -> bool {
    let mut x = (v.len() as u16).to_be_bytes().to_vec();
    x.extend_from_slice(v);
    v.is_empty() || hay.windows(x.len()).any(|w| w == x)
}

/// Every string inside a decoded packet really is UTF-8.
pub fn c13_check_text(p: &Packet) -> bool {
    if !TEXT {
        return true;
    }
    let m = from_packet(p);
    let ok = |ps: &Props| {
        ps.iter().all(|(_, v)| match v {
            PV::Str(s) => rc::utf8_ok(s),
            PV::Pair(a, b) => rc::utf8_ok(a) && rc::utf8_ok(b),
            _ => true,
        })
    };
    rc::utf8_ok(&m.name)
        && rc::utf8_ok(&m.user)
        && rc::utf8_ok(&m.pass)
        && m.filters.iter().all(|f| rc::utf8_ok(&f.path))
        && ok(&m.props)
        && m.will.as_ref().is_none_or(|w| ok(&w.props))
}

pub fn c13_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = Vec::new();
    let sl = slots();
    let n = sl.len() as u64;
    // All one-byte strings in every field; all two-byte strings, spread over
    // the fields (every field in the thorough tier).
    let s1 = sl.clone();
    v.push(fam("all-1-byte", n * 256, move |c, i| {
        c13_field(c, s1[(i / 256) as usize], &[i as u8]);
    }));
    let s2 = sl.clone();
    let reps = if t { n } else if scale >= 100 { 6 } else { 1 };
    v.push(fam("all-2-byte", 65_536 * reps, move |c, i| {
        let k = (i % 65_536) as u16;
        let s = if reps == n {
            s2[(i / 65_536) as usize]
        } else {
            s2[((i / 65_536) * 11 + u64::from(k)) as usize % s2.len()]
        };
        c13_field(c, s, &k.to_be_bytes());
    }));
    // Three and four byte sequences: every lead byte, edges of every range.
    const E: &[u8] = &[0x00, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xFF];
    let s3 = sl.clone();
    let e = E.len() as u64;
    v.push(fam("edges-3-byte", 80 * e * e * 2, move |c, i| {
        let mut k = i;
        let lead = 0xB0 + (k % 80) as u8;
        k /= 80;
        let (a, b) = (E[(k % e) as usize], E[(k / e % e) as usize]);
        let slot = s3[c.rng().below(s3.len())];
        c13_field(c, slot, &[lead, a, b]);
    }));
    let s4 = sl.clone();
    v.push(fam("edges-4-byte", 16 * e * e * e, move |c, i| {
        let mut k = i;
        let lead = 0xF0 + (k % 16) as u8;
        k /= 16;
        let v = [lead, E[(k % e) as usize], E[(k / e % e) as usize], E[(k / e / e % e) as usize]];
        let slot = s4[c.rng().below(s4.len())];
        c13_field(c, slot, &v);
    }));
    // Texts that code may be tempted to treat in a special way, also as part
    // of a longer one.
    let sp = slots();
    let ns = SPECIAL.len() as u64;
    v.push(fam("special", n * ns * 4, move |c, i| {
        let slot = sp[(i % n) as usize];
        let x = SPECIAL[(i / n % ns) as usize].as_bytes();
        let mut rng = c.rng();
        let k = rng.range(1, 40);
        let pad = gstr_n(&mut rng, k);
        let t = match i / n / ns {
            0 => x.to_vec(),
            1 => [x, &pad].concat(),
            2 => [&pad, x].concat(),
            _ => [&pad[..], x, &pad[..]].concat(),
        };
        c13_field(c, slot, &t);
    }));
    // One ill-formed text somewhere in a rich packet.
    v.push(fam("rich", if t { 1_000_000 } else { 60_000 * scale / 100 + 1 }, c13_rich));
    // Well-formed and ill-formed text by turns, of the same length and in the
    // same place of the same memory.
    v.push(fam("turns", if t { 100_000 } else { 6_000 * scale / 100 + 1 }, c13_turns));
    // Every assigned-or-not scalar value and every surrogate, in long strings.
    v.push(fam("all-code-points", 0x1100, move |c, i| {
        let slot = sl[i as usize % sl.len()];
        let mut good = Vec::new();
        let mut b = [0; 4];
        for cp in (i as u32) * 256..(i as u32 + 1) * 256 {
            if cp == 0 {
                continue;
            }
            match char::from_u32(cp) {
                Some(ch) => good.extend_from_slice(ch.encode_utf8(&mut b).as_bytes()),
                None => {
                    // surrogate, encoded as three bytes: never valid
                    let s = [0xE0 | (cp >> 12) as u8, 0x80 | (cp >> 6 & 63) as u8, 0x80 | (cp & 63) as u8];
                    c13_field(c, slot, &s);
                }
            }
        }
        if !good.is_empty() {
            c13_field(c, slot, &good);
        }
    }));
    // Ill-formed bytes at the start, in the middle and at the end of long text.
    let sx = slots();
    v.push(fam("damaged", if t { 1_000_000 } else { 40_000 * scale / 100 + 1 }, move |c, i| {
        let mut rng = c.rng();
        let slot = sx[i as usize % sx.len()];
        let n = *rng.pick(&[0usize, 1, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 127, 200, 1000]);
        let n = match rng.below(40) {
            0 => *rng.pick(&[4096usize, 16_384, 32_767, 32_768, 65_000, 65_534]),
            1..=9 => rng.below(3000),
            _ => n,
        };
        let mut v = gstr_n(&mut rng, n);
        if rng.bool() {
            // ASCII only: fast paths of validators
            v = vec![b'a'; n];
        }
        match rng.below(4) {
            0 => {}
            1 => {
                let at = rng.below(v.len() + 1);
                v.insert(at, hostile::hot(&mut rng));
            }
            2 => {
                v.push(*rng.pick(&[0x80, 0xC3, 0xE2, 0xF0, 0xFF]));
            }
            _ => {
                if !v.is_empty() {
                    let at = rng.below(v.len());
                    v[at] ^= 0x80;
                }
            }
        }
        c13_field(c, slot, &v);
    }));
    v
}

// --------------------------------------------------------------------- C17

/// All 256 values of every code, flag and type byte against the tables.
fn c17(c: &mut Ctx, i: u64) {
    let code = (i % 256) as u8;
    let kind = i / 256;
    c.eval(i);
    let with_code: &[u8] = &[CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT];
    if kind < 32 {
        let t = with_code[(kind % 8) as usize];
        let form = kind / 8; // 0: shortest, 1: with property length, 2: reason string, 3: long list
        let mut m = host(t);
        if t == SUBACK || t == UNSUBACK {
            m.codes = match form {
                0 => vec![code],
                1 => vec![0, code],
                2 => vec![code, 0x80],
                _ => vec![0x80, 0, code, 0x87, 0],
            };
        } else {
            m.code = code;
        }
        let mut explicit = 1;
        if form == 1 {
            explicit = 2;
        }
        if form >= 2 {
            m.props.push((0x1F, PV::Str(b"r".to_vec())));
            m.session_present = t == CONNACK && form == 3;
        }
        let wire = rc::encode(&m, &Form { shuffle: None, explicit });
        let listed = reason_codes(t).contains(&code);
        c.count(if listed { "listed codes" } else { "unlisted codes" });
        let Some((r, _)) = read_one(c, &wire) else { return };
        c.sample(|| format!("{} code {code:#04x} form {form}: {}", type_name(t), if r.is_ok() { "accepted" } else { "refused" }));
        match r {
            Ok(p) => {
                c.check(listed, "unlisted-accepted", &wire, || {
                    format!("{} code {code:#04x}: {}", type_name(t), from_packet(&p).brief())
                });
                let got = from_packet(&p);
                c.check(got == m.clone().norm(), "wrong-meaning", &wire, || {
                    format!("{} code {code:#04x}: {p:?}", type_name(t))
                });
            }
            Err(e) => {
                c.check(!listed && !matches!(e, Error::InsufficientBytes(_)), "listed-refused", &wire, || {
                    format!("{} code {code:#04x}: {e:?}", type_name(t))
                });
            }
        }
        if listed {
            // The variant of that name is written as this very code.
            let p = to_packet(&m, false);
            let mut b = BytesMut::new();
            let Some(w) = c.cut("write", &wire, || p.write(&mut b)) else { return };
            let v = rc::judge(&b, TEXT);
            let ok = matches!(&v, Verdict::Good(x, _) if *x == m.clone().norm());
            c.check(w.is_ok() && ok, "written-code", &b.clone(), || {
                format!("{} {p:?} written as {}", type_name(t), hex(&b))
            });
        }
        return;
    }
    match kind {
        32 => {
            // QoS numbers
            let Some(q) = c.cut("qos", &[], || qos(code)) else { return };
            let want = match code {
                0 => Some(QoS::AtMostOnce),
                1 => Some(QoS::AtLeastOnce),
                2 => Some(QoS::ExactlyOnce),
                _ => None,
            };
            c.check(q == want, "qos", &[code], || format!("qos({code}) = {q:?}"));
        }
        33 => {
            // packet types
            for len in [0usize, 1, 5] {
                let Some(t) = c.cut("packet_type", &[], || FixedHeader::new(code, 1, len).packet_type()) else { return };
                let n = code >> 4;
                let ok = match t {
                    Ok(t) => (1..=14).contains(&n) && t as u8 == n,
                    Err(e) => (n == 0 || n == 15) && e == Error::InvalidPacketType(n),
                };
                c.check(ok, "packet-type", &[code], || format!("{code:#x}: {t:?}"));
            }
        }
        34 => {
            // first byte of every packet: type and flags
            for (k, b) in hostile::bases().iter().enumerate() {
                if k % 3 != 0 && k > 15 {
                    continue;
                }
                let mut m = b.clone();
                let mut wire = rc::encode(&m, &Form { shuffle: None, explicit: 2 });
                if wire[0] >> 4 != code >> 4 {
                    continue;
                }
                if m.ty == PUBLISH {
                    // the identifier is there or not: build the body to match
                    m.qos = (code >> 1 & 3).min(2);
                    m.dup = code & 8 != 0;
                    m.retain = code & 1 != 0;
                    m.pkid = if m.qos > 0 { 9 } else { 0 };
                    wire = rc::encode(&m, &Form::default());
                }
                wire[0] = code;
                let want = rc::judge(&wire, TEXT);
                let Some((r, _)) = read_one(c, &wire) else { return };
                c.count("first bytes");
                let ok = match (&want, &r) {
                    (Verdict::Good(x, 0), Ok(p)) => *x == from_packet(p),
                    (Verdict::Good(_, 0), Err(_)) => false,
                    (Verdict::Bad(_), Ok(_)) => false,
                    (Verdict::Good(x, _), Ok(p)) => *x == from_packet(p),
                    _ => true,
                };
                c.check(ok, "header-flags", &wire, || format!("first byte {code:#04x}: {want:?} but {r:?}"));
            }
        }
        35 => {
            // subscription options, in the first and in the last filter
            for pos in 0..3usize {
                let mut m = host(SUBSCRIBE);
                m.filters = vec![m.filters[0].clone(); 3];
                let mut wire = rc::encode(&m, &Form::default());
                let n = wire.len();
                // each filter is 00 01 'f' opt = 4 bytes at the end
                wire[n - 1 - 4 * pos] = code;
                c17_judged(c, &wire, "subscription-options");
            }
        }
        36 => {
            // CONNECT flags: with the fields each combination asks for
            let mut b = Vec::new();
            rc::put_bin(&mut b, b"MQTT");
            b.push(5);
            b.push(code);
            b.extend_from_slice(&[0, 10, 0]);
            rc::put_bin(&mut b, b"id");
            if code & 4 != 0 {
                b.push(0);
                rc::put_bin(&mut b, b"wt");
                rc::put_bin(&mut b, b"wm");
            }
            if code & 0x80 != 0 {
                rc::put_bin(&mut b, b"user");
            }
            if code & 0x40 != 0 {
                rc::put_bin(&mut b, b"pass");
            }
            c17_judged(c, &hostile::refix(0x10, &b), "connect-flags");
            // protocol level, CONNACK flags
            let mut w = rc::encode(&host(CONNECT), &Form::default());
            w[8] = code;
            c17_judged(c, &w, "protocol-level");
            let mut w = rc::encode(&host(CONNACK), &Form::default());
            w[2] = code;
            c17_judged(c, &w, "connack-flags");
        }
        _ => {
            // v3 return codes have no MQTT 5 code
            if (1..=3).contains(&code) {
                let mut p = to_packet(&host(CONNACK), false);
                if let Packet::ConnAck(a) = &mut p {
                    a.code = crate::mons_enc::v3_code(code);
                }
                let mut b = BytesMut::new();
                let Some(r) = c.cut("write", &[], || p.write(&mut b)) else { return };
                c.check(r == Err(Error::InvalidConnectReturnCode(code)), "old-code", &[code], || {
                    format!("code {code}: {r:?}, wrote {}", hex(&b))
                });
            }
        }
    }
}

fn c17_judged(c: &mut Ctx, wire: &[u8], what: &str) {
    let want = rc::judge(wire, TEXT);
    let Some((r, _)) = read_one(c, wire) else { return };
    c.count("flag bytes");
    let ok = match (&want, &r) {
        (Verdict::Good(x, _), Ok(p)) => *x == from_packet(p),
        (Verdict::Good(_, quirks), Err(_)) => *quirks != 0,
        (Verdict::Bad(_), Err(_)) => true,
        (Verdict::Bad(_), Ok(_)) => false,
    };
    c.check(ok, what, wire, || format!("{want:?} but {r:?}"));
}

/// One code among many: lists of every length, a code at every place.
fn c17_list(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let t = *rng.pick(&[SUBACK, UNSUBACK, SUBSCRIBE]);
    let n = 1 + (i as usize / 3) % 300;
    let mut m = host(t);
    let at;
    let step;
    if t == SUBSCRIBE {
        m.filters = (0..n).map(|_| Filt { path: b"f".to_vec(), ..crate::gen::gfilt(&mut rng) }).collect();
        m.filters.iter_mut().for_each(|f| f.path = b"f".to_vec());
        step = 4;
    } else {
        m.codes = (0..n).map(|_| *rng.pick(reason_codes(t))).collect();
        step = 1;
    }
    if rng.bool() {
        m.props = crate::gen::gprops(&mut rng, t);
    }
    let mut w = rc::encode(&m, &Form::default());
    at = w.len() - 1 - step * rng.below(n);
    w[at] = if rng.bool() { rng.u8() } else { *rng.pick(reason_codes(if t == SUBSCRIBE { SUBACK } else { t })) };
    c.eval(fnv(17, &w));
    c.count("codes in lists");
    c17_judged(c, &w, "code-in-list");
}

/// Flags and codes where the library takes them on their own.
fn c17_parts(c: &mut Ctx, i: u64) {
    let flags = i as u8;
    c.eval(0x1717_0000 + i);
    let mut w = Vec::new();
    w.push(0);
    rc::put_bin(&mut w, b"wt");
    rc::put_bin(&mut w, b"wm");
    let mut b = Bytes::from(w.clone());
    let Some(r) = c.cut("LastWill::read", &w, || LastWill::read(flags, &mut b)) else { return };
    c.count("flag bytes");
    let (has, q, retain, reserved) = (flags & 4 != 0, flags >> 3 & 3, flags & 0x20 != 0, flags & 1 != 0);
    let ok = match &r {
        Err(_) => reserved || q == 3 || (!has && flags & 0x38 != 0),
        Ok(None) => !has && flags & 0x38 == 0 && b[..] == w[..],
        Ok(Some(x)) => has && q < 3 && x.retain == retain && qos_from(x.qos) == q && x.topic[..] == b"wt"[..] && b.is_empty(),
    };
    c.check(ok, "will-flags", &[flags], || format!("flags {flags:#04x}: {r:?}"));

    let mut w = Vec::new();
    let (user, pass) = (flags & 0x80 != 0, flags & 0x40 != 0);
    if user {
        rc::put_bin(&mut w, b"user");
    }
    if pass {
        rc::put_bin(&mut w, b"pass");
    }
    let mut b = Bytes::from(w.clone());
    let Some(r) = c.cut("Login::read", &w, || Login::read(flags, &mut b)) else { return };
    let ok = match &r {
        Err(_) => reserved,
        Ok(None) => !user && !pass,
        Ok(Some(x)) => {
            (user || pass)
                && sb(&x.username) == if user { &b"user"[..] } else { b"" }
                && sb(&x.password) == if pass { &b"pass"[..] } else { b"" }
                && b.is_empty()
        }
    };
    c.check(ok, "login-flags", &[flags], || format!("flags {flags:#04x}: {r:?}"));

    let Some(r) = c.cut("DisconnectReasonCode::try_from", &[flags], || DisconnectReasonCode::try_from(flags)) else { return };
    let want = crate::tables::DISCONNECT_CODES.iter().find(|x| x.0 == flags);
    c.count("codes converted");
    let ok = match (&r, want) {
        (Ok(x), Some(w)) => *x == w.1 && *x as u8 == flags,
        (Err(_), None) => true,
        _ => false,
    };
    c.check(ok, "conversion", &[flags], || format!("{flags:#04x}: {r:?}"));
}

/// The numbers of a packet: type, flags, levels, options and codes.
fn numbers(m: &M) -> M {
    let mark = |v: &[u8]| if v.is_empty() { vec![] } else { vec![1] };
    M {
        pkid: 0,
        keep_alive: 0,
        name: vec![],
        payload: vec![],
        props: vec![],
        will: m.will.as_ref().map(|w| Will { qos: w.qos, retain: w.retain, ..Will::default() }),
        user: mark(&m.user),
        pass: mark(&m.pass),
        filters: m.filters.iter().map(|f| Filt { path: vec![], ..f.clone() }).collect(),
        ..m.clone()
    }
}

/// Any packet, whatever else is in it: its numbers go out and come in right.
fn c17_valid(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let want = numbers(m);
    let p = to_packet(m, rng.bool());
    let mut b = BytesMut::new();
    if let Some(Ok(_)) = c.cut("write", &[], || p.write(&mut b)) {
        c.count("numbers of packets written");
        if let Some(x) = b.first() {
            let low = match m.ty {
                PUBLISH => u8::from(m.dup) << 3 | m.qos << 1 | u8::from(m.retain),
                PUBREL | SUBSCRIBE | UNSUBSCRIBE => 2,
                _ => 0,
            };
            c.check(*x == m.ty << 4 | low, "first-byte", &b[..b.len().min(64)], || {
                format!("{x:#04x} is the first byte of {}", m.brief())
            });
        }
        match rc::judge(&b, TEXT) {
            Verdict::Good(got, _) => {
                let got = numbers(&got);
                c.check(got == want, "numbers-written", &b, || format!("{} encoded as {}", m.brief(), got.brief()));
            }
            Verdict::Bad(why) => {
                let ours = ["QoS", "reserved", "reason code not", "retain", "packet type", "protocol version"];
                c.check(!ours.iter().any(|x| why.contains(x)), "numbers-written", &b, || {
                    format!("{}: {why}", m.brief())
                });
            }
        }
    }
    let wire = rc::encode(m, &Form { shuffle: Some(rng.u64()), explicit: rng.below(3) as u8 });
    c.eval(fnv(17, &wire));
    if let Some((Ok(p), _)) = read_one(c, &wire) {
        c.count("numbers of packets read");
        let got = numbers(&from_packet(&p));
        c.check(got == want, "numbers-read", &wire, || format!("{} read as {}", m.brief(), got.brief()));
    }
}

pub fn c17_fams(t: bool, scale: u64) -> Vec<Fam> {
    let n = if t { 20_000 } else { 300 * scale / 100 + 1 };
    let mut v = Vec::new();
    on_valid(&mut v, t, scale.min(200), c17_valid);
    v.extend(vec![
        fam("all-codes", 38 * 256, c17),
        fam("parts", 256, c17_parts),
        fam("lists", if t { 3_000_000 } else { 60_000 * scale / 100 + 1 }, c17_list),
        fam("every-value", n * 256, |c, i| {
            let w = hostile::every_value(i);
            c.eval(fnv(18, &w));
            c17_judged(c, &w, "value");
        }),
    ]);
    v
}

// --------------------------------------------------------------------- C20

/// A frame with one fault and the errors that name it truthfully.
fn c20_fault(rng: &mut Rng, i: u64) -> Option<(Vec<u8>, &'static str, Vec<Error>)> {
    let kind = i % 24;
    let n = (i / 24) as u8;
    let bad_code = |t: u8, x: u8| -> u8 {
        let mut x = x;
        while reason_codes(t).contains(&x) {
            x = x.wrapping_add(1);
        }
        x
    };
    let e2 = Form { shuffle: None, explicit: 2 };
    Some(match kind {
        0 => {
            let mut w = rc::encode(&host(CONNECT), &e2);
            w[8] = if n == 5 { 4 } else { n };
            let l = w[8];
            (w, "protocol level", vec![Error::InvalidProtocolLevel(l)])
        }
        1 => {
            let mut w = rc::encode(&host(CONNECT), &e2);
            let at = 4 + rng.below(4);
            w[at] = if n < 0x20 || n > 0x7E { b'x' } else { n };
            if &w[4..8] == b"MQTT" {
                w[4] = b'N';
            }
            (w, "protocol name", vec![Error::InvalidProtocol])
        }
        2 => {
            let t = if n % 2 == 0 { 0x00 } else { 0xF0 };
            let k = rng.below(6);
            let b = rng.bytes(k);
            (hostile::refix(t | (n >> 4), &b), "packet type", vec![Error::InvalidPacketType(t >> 4)])
        }
        3 => {
            let m = M { qos: 1, ..random_small(rng, PUBLISH) };
            let mut w = rc::encode(&m, &e2);
            w[0] |= 6;
            (w, "PUBLISH QoS 3", vec![Error::InvalidQoS(3)])
        }
        4 => {
            let mut m = host(SUBSCRIBE);
            m.filters = vec![m.filters[0].clone(); 1 + rng.below(3)];
            let mut w = rc::encode(&m, &e2);
            let at = w.len() - 1 - 4 * rng.below(m.filters.len());
            w[at] |= 3;
            (w, "filter QoS 3", vec![Error::InvalidQoS(3)])
        }
        5 => {
            let mut m = host(SUBSCRIBE);
            m.filters = vec![m.filters[0].clone(); 1 + rng.below(3)];
            let mut w = rc::encode(&m, &e2);
            let at = w.len() - 1 - 4 * rng.below(m.filters.len());
            w[at] |= 0x30;
            (w, "retain handling 3", vec![Error::InvalidRetainForwardRule(3)])
        }
        6 => {
            let mut w = rc::encode(&host(WILL), &e2);
            w[9] |= 0x18;
            (w, "will QoS 3", vec![Error::InvalidQoS(3)])
        }
        7 => {
            let mut m = random_small(rng, PUBLISH);
            m.qos = 1 + n % 2;
            m.pkid = 0;
            (rc::encode(&m, &e2), "identifier 0", vec![Error::PacketIdZero])
        }
        8 => {
            let t = *rng.pick(&[SUBSCRIBE, UNSUBSCRIBE]);
            let mut m = random_small(rng, t);
            m.filters.clear();
            (rc::encode(&m, &e2), "no filter", vec![Error::EmptySubscription])
        }
        9 | 10 => {
            let sec = *rng.pick(&SECTIONS);
            let id = n;
            if section_props(sec).contains(&id) || id >= 0x80 {
                return None;
            }
            let mut raw = Vec::new();
            if rng.bool() {
                let ok = *rng.pick(section_props(sec));
                rc::put_prop(&mut raw, ok, &small_val(ok, 1));
            }
            raw.push(id);
            raw.extend_from_slice(&[0, 1, b'a', 0, 1, b'b']);
            let w = with_raw_props(&host(sec), sec, raw.len(), &raw);
            (w, "property type", vec![Error::InvalidPropertyType(id)])
        }
        11..=16 => {
            let t = *rng.pick(&[CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT, SUBACK, UNSUBACK]);
            let mut m = random_small(rng, t);
            let x = bad_code(t, n);
            if t == SUBACK || t == UNSUBACK {
                let at = rng.below(m.codes.len() + 1);
                m.codes.insert(at, x);
            } else {
                m.code = x;
            }
            let f = Form { shuffle: None, explicit: rng.below(3) as u8 };
            let es = vec![
                Error::InvalidConnectReturnCode(x),
                Error::InvalidReason(x),
                Error::InvalidSubscribeReasonCode(x),
            ];
            (rc::encode(&m, &f), "reason code", es)
        }
        17 => {
            let t = TYPES[n as usize % 14];
            if matches!(t, PINGREQ | PINGRESP | DISCONNECT) {
                return None;
            }
            (vec![rc::first_byte(&host(t)), 0], "empty body", vec![Error::PayloadRequired])
        }
        18 | 19 if TEXT => {
            let ss: Vec<Slot> = slots().into_iter().filter(|s| s.is_text()).collect();
            let s = *rng.pick(&ss);
            let k = rng.below(9);
            let mut v = gstr_n(rng, k);
            v.push(0xFF);
            let w = rc::encode(&s.put(v), &e2);
            (w, "text", vec![Error::TopicNotUtf8])
        }
        20 => {
            let mut s = vec![n, 0x80 | n, 0xFF, 0x80, 0x80 | (n >> 1)];
            let k = rng.below(4);
            s.extend(rng.bytes(k));
            (s, "remaining length", vec![Error::MalformedRemainingLength])
        }
        21 => {
            let mut w = rc::encode(&host(CONNECT), &e2);
            w[9] |= *rng.pick(&[0x08u8, 0x10, 0x20, 0x18, 0x38]);
            (w, "will flags without will", vec![Error::IncorrectPacketFormat])
        }
        22 => {
            // a last field that is longer than what is left
            let (t, at) = *rng.pick(&[(CONNECT, 3usize), (PUBLISH, 0), (SUBSCRIBE, 4), (UNSUBSCRIBE, 3)]);
            let m = M { props: vec![], payload: vec![], ..host(t) };
            let mut w = rc::encode(&m, &e2);
            let n = w.len();
            // length field of the last (or only) string
            let p = if t == PUBLISH { 2 } else { n - at };
            let big = 300 + rng.below(60_000) as u16;
            w[p..p + 2].copy_from_slice(&big.to_be_bytes());
            (w, "field longer than the packet", vec![Error::BoundaryCrossed(big as usize)])
        }
        _ => return None,
    })
}

fn random_small(rng: &mut Rng, t: u8) -> M {
    let b: Vec<&M> = hostile::bases().iter().filter(|m| m.ty == t).collect();
    (*rng.pick(&b)).clone()
}

fn c20(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let Some((wire, kind, want)) = c20_fault(&mut rng, i) else { return };
    c.eval(fnv(20, &wire));
    c.count(kind);
    let Some((r, _)) = read_one(c, &wire) else { return };
    c.sample(|| format!("{kind}: {} -> {r:?}", hex(&wire)));
    match r {
        Ok(p) => c.fail("accepted", format!("{kind}: {p:?}"), &wire),
        Err(e) => {
            c.check(want.contains(&e), "misleading", &wire, || {
                format!("{kind}: {e:?}, expected one of {want:?}")
            });
            if let Some(s) = c.cut("Display", &wire, || e.to_string()) {
                c.check(!s.is_empty(), "message", &wire, || format!("{e:?} has no message"));
            }
        }
    }
}

/// What an error says, held against the frame it was returned for. Whatever
/// else may be wrong with the frame, the kind must be possible for this type
/// of packet and the number it carries must be in the frame.
fn untrue(f: &[u8], header: usize, e: &Error) -> Option<String> {
    let ty = f[0] >> 4;
    let body = &f[header..];
    let no = |x: &str| Some(x.to_string());
    let has = |x: u8| body.contains(&x);
    let secs: &[u8] = if ty == CONNECT { &[CONNECT, WILL] } else { &[ty] };
    match *e {
        Error::InsufficientBytes(_) => no("more bytes are asked for, but the frame is complete"),
        Error::PayloadSizeLimitExceeded { .. } => no("there is no limit"),
        Error::BinaryDataTooLong | Error::PayloadTooLong => no("nothing can be too long in a frame that fits"),
        Error::InvalidConnectReturnCode(x) | Error::InvalidReason(x) | Error::InvalidSubscribeReasonCode(x) => {
            if !matches!(ty, CONNACK | PUBACK..=PUBCOMP | SUBACK | UNSUBACK | DISCONNECT) {
                no("this packet has no reason code")
            } else if !has(x) {
                no("that code is not in the frame")
            } else if reason_codes(ty).contains(&x) {
                no("that code is defined for this packet")
            } else {
                None
            }
        }
        Error::InvalidQoS(x) => match ty {
            PUBLISH if f[0] & 6 != 6 => no("the QoS is not 3"),
            PUBLISH | SUBSCRIBE | CONNECT if x == 3 => None,
            _ => no("there is no QoS of that value"),
        },
        Error::InvalidRetainForwardRule(x) => {
            (ty != SUBSCRIBE || x != 3).then(|| "there is no such retain option in the frame".to_string())
        }
        Error::InvalidPacketType(x) => {
            (x != ty || (1..=14).contains(&ty)).then(|| "the packet type is another".to_string())
        }
        Error::InvalidProtocol => {
            (ty != CONNECT || body.starts_with(&[0, 4, b'M', b'Q', b'T', b'T'])).then(|| "the protocol name is right".to_string())
        }
        Error::InvalidProtocolLevel(x) => {
            let wrong = ty != CONNECT || x == 5 || !body.contains(&x);
            let other = body.starts_with(&[0, 4, b'M', b'Q', b'T', b'T']) && body.get(6) != Some(&x);
            (wrong || other).then(|| "the protocol level is another".to_string())
        }
        Error::InvalidPropertyType(x) => {
            if !has(x) {
                no("that identifier is not in the frame")
            } else if secs.iter().all(|s| section_props(*s).contains(&x)) {
                no("that identifier is allowed in this packet")
            } else {
                None
            }
        }
        Error::PacketIdZero => (!body.windows(2).any(|w| w == [0, 0])).then(|| "no identifier is 0".to_string()),
        Error::EmptySubscription => {
            (!matches!(ty, SUBSCRIBE | UNSUBSCRIBE | SUBACK | UNSUBACK)).then(|| "this packet has no list".to_string())
        }
        Error::TopicNotUtf8 => (body.is_ascii()).then(|| "the frame is ASCII".to_string()),
        Error::BoundaryCrossed(n) => {
            let found = n <= 0xFFFF && (0..body.len().saturating_sub(1)).any(|i| {
                usize::from(u16::from_be_bytes([body[i], body[i + 1]])) == n
            });
            // or the length of a property section
            let section = || {
                (0..body.len()).any(|i| {
                    let mut v = 0usize;
                    for (k, b) in body[i..].iter().take(4).enumerate() {
                        v |= ((b & 0x7F) as usize) << (7 * k);
                        if b & 0x80 == 0 {
                            return v == n;
                        }
                    }
                    false
                })
            };
            (!found && !section()).then(|| "no length in the frame is that".to_string())
        }
        _ => None,
    }
}

fn c20_hostile(c: &mut Ctx, _rng: &mut Rng, s: &[u8]) {
    let Framing::Frame { remaining, header } = rc::framing(s) else { return };
    let frame = &s[..header + remaining];
    let Some((r, _)) = read_one(c, frame) else { return };
    let Err(e) = r else { return };
    c.eval(fnv(2020, frame));
    c.count(err_kind(&e));
    if frame.len() > 5000 {
        c.check(!matches!(e, Error::InsufficientBytes(_)), "untrue", frame, || format!("{e:?}"));
        return;
    }
    if let Some(why) = untrue(frame, header, &e) {
        c.fail("untrue", format!("{e:?}: {why}"), frame);
    }
}

fn structural(e: &Error) -> bool {
    matches!(
        e,
        Error::MalformedPacket
            | Error::IncorrectPacketFormat
            | Error::BoundaryCrossed(_)
            | Error::MalformedRemainingLength
            | Error::PayloadRequired
            | Error::InvalidRemainingLength(_)
    )
}

/// One fault in a random packet: the error must be of its kind, with its value.
fn c20_random(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let ty = TYPES[(i % 14) as usize];
    let w = hostile::moderate_frame(&mut rng, ty);
    let ms = rc::marks(&w);
    let (first, body) = hostile::split_frame(&w);
    let header = w.len() - body.len();
    let pick = |rng: &mut Rng, f: &dyn Fn(&rc::Mark) -> bool| -> Option<rc::Mark> {
        let v: Vec<&rc::Mark> = ms.iter().filter(|m| f(m)).collect();
        if v.is_empty() {
            None
        } else {
            Some(*v[rng.below(v.len())])
        }
    };
    let mut x = w.clone();
    let (kind, ok): (&'static str, Box<dyn Fn(&Error) -> bool>) = match rng.below(8) {
        0 | 1 => {
            // a code or an option
            let Some(m) = pick(&mut rng, &|m| m.k == rc::MK::U8 && m.sec == 0) else { return };
            let v = rng.u8();
            let old = x[m.at];
            x[m.at] = v;
            match ty {
                CONNACK if m.at == header => {
                    if v <= 1 {
                        return;
                    }
                    ("random: reserved bits", Box::new(structural))
                }
                CONNACK | PUBACK..=PUBCOMP | SUBACK | UNSUBACK | DISCONNECT => {
                    if reason_codes(ty).contains(&v) {
                        return;
                    }
                    (
                        "random: code",
                        Box::new(move |e| {
                            matches!(*e, Error::InvalidConnectReturnCode(y) | Error::InvalidReason(y) | Error::InvalidSubscribeReasonCode(y) if y == v)
                        }),
                    )
                }
                SUBSCRIBE => {
                    let (q, r, z) = (v & 3 == 3, v & 0x30 == 0x30, v & 0xC0 != 0);
                    if !q && !r && !z {
                        return;
                    }
                    (
                        "random: option",
                        Box::new(move |e| {
                            q && *e == Error::InvalidQoS(3)
                                || r && *e == Error::InvalidRetainForwardRule(3)
                                || z && structural(e)
                        }),
                    )
                }
                CONNECT if m.at == header + 6 => {
                    if v == 5 {
                        return;
                    }
                    ("random: level", Box::new(move |e| *e == Error::InvalidProtocolLevel(v)))
                }
                CONNECT => {
                    // flags: only those that change nothing else
                    if old & 4 == 0 {
                        x[m.at] = old | *rng.pick(&[0x08, 0x10, 0x20, 0x18, 0x38, 1]);
                        ("random: flags without will", Box::new(structural))
                    } else if rng.bool() {
                        x[m.at] = old | 0x18;
                        ("random: will QoS", Box::new(|e| *e == Error::InvalidQoS(3)))
                    } else {
                        x[m.at] = old | 1;
                        ("random: reserved bits", Box::new(structural))
                    }
                }
                _ => return,
            }
        }
        2 => {
            let Some(m) = pick(&mut rng, &|m| m.k == rc::MK::PropId) else { return };
            let sec = if ty == CONNECT && m.sec == 2 { WILL } else { ty };
            let v = if rng.bool() { rng.below(48) as u8 } else { rng.u8() & 0x7F };
            if section_props(sec).contains(&v) {
                return;
            }
            x[m.at] = v;
            ("random: property", Box::new(move |e| *e == Error::InvalidPropertyType(v)))
        }
        3 => {
            let Some(m) = pick(&mut rng, &|m| m.k == rc::MK::Text && m.n > 0) else { return };
            if !TEXT {
                return;
            }
            let at = m.at + rng.below(m.n);
            x[at] = *rng.pick(&[0xFF, 0xC0, 0xFE, 0xF8]);
            ("random: text", Box::new(|e| *e == Error::TopicNotUtf8))
        }
        4 => {
            if matches!(ty, PUBLISH | SUBSCRIBE | UNSUBSCRIBE | SUBACK | UNSUBACK) || body.len() < 4 {
                return;
            }
            let mut b = body.clone();
            let k = rng.range(1, 5);
            b.extend((0..k).map(|_| hostile::hot(&mut rng)));
            x = hostile::refix(first, &b);
            if ty != CONNECT && !ms.iter().any(|m| m.k == rc::MK::PropLen) {
                return; // what was added is read as a property section
            }
            ("random: bytes left over", Box::new(structural))
        }
        5 => {
            // the length of a property section goes on for ever, or is cut off
            let Some(m) = pick(&mut rng, &|m| m.k == rc::MK::PropLen) else { return };
            let a = m.at - header;
            let mut b = body[..a].to_vec();
            if rng.bool() {
                b.extend((0..rng.range(1, 3)).map(|_| 0x80u8));
            } else {
                b.extend((0..4).map(|_| 0x80 | rng.u8()));
                b.push(rng.u8());
                b.extend_from_slice(&body[a + m.n..]);
            }
            x = hostile::refix(first, &b);
            ("random: property length", Box::new(structural))
        }
        6 => {
            // a field longer than all that is left
            let Some(m) = pick(&mut rng, &|m| m.k == rc::MK::Len && (m.sec > 0 || m.at > header || ty != CONNECT)) else { return };
            let left = w.len() - m.at - 2;
            if left >= 65_535 {
                return;
            }
            let v = (left + 1 + rng.below(400)).min(65_535);
            x[m.at..m.at + 2].copy_from_slice(&(v as u16).to_be_bytes());
            (
                "random: field length",
                Box::new(move |e| match *e {
                    Error::BoundaryCrossed(n) => n == v,
                    ref e => structural(e),
                }),
            )
        }
        _ => {
            // the packet ends early, inside its fixed part or its properties
            if body.is_empty() {
                return;
            }
            let n = rng.below(body.len());
            x = hostile::refix(first, &body[..n]);
            let list = matches!(ty, SUBSCRIBE | UNSUBSCRIBE | SUBACK | UNSUBACK);
            (
                "random: packet ends early",
                Box::new(move |e| {
                    structural(e) || list && *e == Error::EmptySubscription || ty == CONNECT && n < 6 && *e == Error::InvalidProtocol
                }),
            )
        }
    };
    if !matches!(rc::judge(&x, TEXT), Verdict::Bad(_)) {
        return;
    }
    c.eval(fnv(21, &x));
    c.count(kind);
    let Some((r, _)) = read_one(c, &x) else { return };
    c.sample(|| format!("{kind}: {} -> {r:?}", hex(&x)));
    match r {
        Ok(p) => c.fail("accepted", format!("{kind}: {p:?}"), &x),
        Err(e) => {
            c.check(ok(&e), "misleading", &x, || format!("{kind}: {e:?}"));
            let Framing::Frame { header, .. } = rc::framing(&x) else { return };
            if let Some(why) = untrue(&x, header, &e) {
                c.fail("untrue", format!("{kind}: {e:?}: {why}"), &x);
            }
        }
    }
}

/// The message of an error shows no number that the error does not carry, and
/// where it names the size and the limit it does not mix them up.
fn c20_message(c: &mut Ctx, _i: u64) {
    for e in crate::mons_enc::error_values() {
        let carried: Vec<u64> = match e {
            Error::InvalidConnectReturnCode(n)
            | Error::InvalidReason(n)
            | Error::InvalidProtocolLevel(n)
            | Error::InvalidPacketType(n)
            | Error::InvalidRetainForwardRule(n)
            | Error::InvalidQoS(n)
            | Error::InvalidSubscribeReasonCode(n)
            | Error::InvalidPropertyType(n) => vec![n as u64],
            Error::InvalidRemainingLength(n) | Error::BoundaryCrossed(n) | Error::InsufficientBytes(n) => vec![n as u64],
            Error::PayloadSizeLimitExceeded { pkt_size, max } => vec![pkt_size as u64, max as u64],
            Error::PayloadNotUtf8(_) => continue,
            _ => vec![],
        };
        let Some(text) = c.cut("Display", &[], || e.to_string()) else { return };
        c.eval(fnv(0x20, format!("{e:?}").as_bytes()));
        c.count("messages");
        let plain = text.to_lowercase().replace("utf-8", "").replace("utf8", "");
        let shown: Vec<u64> = plain
            .split(|x: char| !x.is_ascii_digit())
            .filter(|x| !x.is_empty())
            .filter_map(|x| x.parse().ok())
            .collect();
        c.check(!text.is_empty() && shown.iter().all(|n| carried.contains(n)), "message", &[], || {
            format!("{e:?} says {text:?}")
        });
        if let Error::PayloadSizeLimitExceeded { pkt_size, max } = e {
            let after = |word: &str| {
                let at = plain.find(word)? + word.len();
                let d: String = plain[at..].chars().take_while(char::is_ascii_digit).collect();
                d.parse::<u64>().ok()
            };
            let (m, p) = (after("max payload size of "), after("packet of "));
            c.check(m.is_none_or(|m| m == max as u64) && p.is_none_or(|p| p == pkt_size as u64), "message", &[], || {
                format!("{e:?} says {text:?}")
            });
        }
    }
}

pub fn c20_fams(t: bool, scale: u64) -> Vec<Fam> {
    let mut v = vec![
        fam("message", 1, c20_message),
        fam("single-fault", 24 * 256 * if t { 200 } else if scale < 10 { 1 } else { 12 }, c20),
        fam("random-packets", if t { 8_000_000 } else { 300_000 * scale / 100 + 1 }, c20_random),
    ];
    on_hostile(&mut v, t, scale.min(100), c20_hostile);
    v
}

// --------------------------------------------------------------------- C21

/// Property identifier x packet: allowed ones are delivered, others refused,
/// alone, before and after others.
fn c21(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let id = (i % 256) as u8;
    let sec = SECTIONS[(i / 256 % 13) as usize];
    let ctx = (i / 256 / 13) as usize; // 0 alone, 1.. with others around
    let allowed = section_props(sec).contains(&id);
    let mut before: Props = Vec::new();
    let mut after: Props = Vec::new();
    if ctx > 0 {
        for &x in section_props(sec) {
            if x == id && !repeatable(sec, x) {
                continue;
            }
            match rng.below(3) {
                0 => before.push((x, gval(&mut rng, x))),
                1 => after.push((x, gval(&mut rng, x))),
                _ => {}
            }
        }
        rng.shuffle(&mut before);
        rng.shuffle(&mut after);
    }
    // The body the property would have where it is allowed, or any body.
    let kinds = [Kind::U8, Kind::U16, Kind::U32, Kind::Var, Kind::Bin, Kind::Pair];
    let tries: Vec<PV> = if let Some(_k) = prop_kind(id) {
        (0..if allowed { 3 } else { 2 }).map(|_| gval(&mut rng, id)).collect()
    } else {
        kinds
            .iter()
            .map(|k| match k {
                Kind::U8 => PV::U8(1),
                Kind::U16 => PV::U16(3),
                Kind::U32 => PV::U32(9),
                Kind::Var => PV::Var(200),
                Kind::Bin => PV::Bin(b"xy".to_vec()),
                _ => PV::Pair(b"k".to_vec(), b"v".to_vec()),
            })
            .collect()
    };
    for v in tries {
        if id >= 0x80 && ctx % 2 == 0 {
            // an identifier of two bytes is not one of the standard's either
        }
        let mut ps = before.clone();
        ps.push((id, v));
        ps.extend(after.iter().cloned());
        let raw = rc::props_bytes(&ps);
        if raw.len() > 60_000 {
            continue;
        }
        let wire = with_raw_props(&host(sec), sec, raw.len(), &raw);
        let Some((r, left)) = read_one(c, &wire) else { return };
        c.eval(fnv(21, &wire));
        if ctx == 1 {
            c.sample(|| format!("{} with {id:#04x}: {}", type_name(sec), if r.is_ok() { "accepted" } else { "refused" }));
        }
        if allowed {
            c.count("allowed");
            let mut m = host(sec);
            *props_mut(&mut m, sec) = ps;
            let m = m.norm();
            match r {
                Ok(p) => {
                    let got = from_packet(&p);
                    c.check(got == m && left == 0, "not-delivered", &wire, || {
                        format!("{} property {id:#04x}: meant {} read {}", type_name(sec), m.brief(), got.brief())
                    });
                }
                Err(e) => c.fail("allowed-refused", format!("{} property {id:#04x}: {e:?}", type_name(sec)), &wire),
            }
        } else {
            c.count("not allowed");
            c.check(r.is_err() && !matches!(r, Err(Error::InsufficientBytes(_))), "forbidden-accepted", &wire, || {
                format!("{} property {id:#04x}: {r:?}", type_name(sec))
            });
        }
    }
}

/// What the encoder emits for each property of each packet alone.
fn c21_emit(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let sec = SECTIONS[(i % 13) as usize];
    for &id in section_props(sec) {
        for _ in 0..4 {
            let mut m = host(sec);
            let v = gval(&mut rng, id);
            props_mut(&mut m, sec).push((id, v));
            let m = m.norm();
            let Some((_, b, _)) = crate::mons_enc::enc(c, &m, false) else { return };
            let want = rc::encode(&m, &Form::default());
            c.eval(fnv(2121, &want));
            c.count("emitted alone");
            let rc::Verdict::Good(got, _) = rc::judge(&b, TEXT) else {
                c.fail("emitted", format!("{}: {}", m.brief(), hex(&b)), &b);
                continue;
            };
            c.check(got == m, "emitted", &b, || {
                format!("{}: {} expected {}", m.brief(), hex(&b), hex(&want))
            });
        }
    }
}

/// Properties that may repeat: every occurrence, in order, read and written,
/// alike or not, alone and among others.
fn c21_repeat(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let sec = SECTIONS[(i % 13) as usize];
    let mut m = host(sec);
    let n = if i % 97 == 5 { 300 + rng.below(200) } else { 2 + (i / 13 % 9) as usize };
    let company = rng.bool();
    for &id in section_props(sec) {
        if repeatable(sec, id) {
            let one = id == 0x26 && company || rng.chance(2, 3);
            for _ in 0..if one { n } else { 1 } {
                let v = if rng.bool() { small_val(id, rng.below(3) as u8) } else { gval(&mut rng, id) };
                props_mut(&mut m, sec).push((id, v));
            }
            crate::gen::repeat_some(&mut rng, props_mut(&mut m, sec), id);
        } else if company && rng.bool() {
            props_mut(&mut m, sec).push((id, gval(&mut rng, id)));
        }
    }
    // read: wire order interleaves them
    let ps = rc::shuffled(props_mut(&mut m, sec), rng.u64() | 1);
    *props_mut(&mut m, sec) = ps.clone();
    let raw = rc::props_bytes(&ps);
    let wire = with_raw_props(&host(sec), sec, raw.len(), &raw);
    c.eval(fnv(2122, &wire));
    let m = m.norm();
    let Some((r, left)) = read_one(c, &wire) else { return };
    match r {
        Ok(p) => {
            let got = from_packet(&p);
            c.count("repeated read");
            c.check(got == m && left == 0, "repeat-not-delivered", &wire, || {
                format!("{}: meant {} read {}", type_name(sec), m.brief(), got.brief())
            });
        }
        Err(e) => c.fail("repeat-refused", format!("{}: {e:?}", m.brief()), &wire),
    }
    let Some((_, b, _)) = crate::mons_enc::enc(c, &m, false) else { return };
    c.count("repeated emitted");
    match rc::judge(&b, TEXT) {
        rc::Verdict::Good(got, _) if got == m => {}
        _ => c.fail("repeat-emitted", format!("{}: {}", m.brief(), hex(&b)), &b),
    }
}

pub fn c21_fams(t: bool, scale: u64) -> Vec<Fam> {
    let reps = if scale < 10 { 1 } else if t { 300 } else { 60 };
    let mut v = vec![
        fam("matrix", 256 * 13 * reps, c21),
        fam("emit", 13 * if t { 20_000 } else { 1500 }, c21_emit),
        fam("repeat", 13 * if t { 40_000 } else { 3000 }, c21_repeat),
        fam("pairs", 13 * 17 * 17 * if t { 60 } else { 6 }, c21_pairs),
    ];
    on_valid(&mut v, t, scale.min(60), c21_valid);
    v
}

/// Two properties together, in both orders, with values alike and not.
fn c21_pairs(c: &mut Ctx, i: u64) {
    let mut rng = c.rng();
    let sec = SECTIONS[(i % 13) as usize];
    let ids = section_props(sec);
    let (a, b) = ((i / 13 % 17) as usize, (i / 13 / 17 % 17) as usize);
    if a >= ids.len() || b >= ids.len() || (a == b && !repeatable(sec, ids[a])) {
        return;
    }
    let salt = rng.below(3) as u8;
    let one = |id: u8, rng: &mut Rng| if rng.bool() { small_val(id, salt) } else { gval(rng, id) };
    let (x, y) = (one(ids[a], &mut rng), one(ids[b], &mut rng));
    let y = match (&x, y) {
        // the same value where the types allow it
        (PV::Str(s), PV::Str(_)) if rng.bool() => PV::Str(s.clone()),
        (PV::U32(s), PV::U32(_)) if rng.bool() => PV::U32((*s).max(1)),
        (PV::U16(s), PV::U16(_)) if rng.bool() => PV::U16((*s).max(1)),
        (PV::U8(s), PV::U8(_)) if rng.bool() => PV::U8(*s),
        (_, y) => y,
    };
    let mut m = random_host(&mut rng, sec);
    *props_mut(&mut m, sec) = vec![(ids[a], x), (ids[b], y)];
    c21_valid(c, &mut rng, &m.norm());
}

/// A host with random content around the properties.
fn random_host(rng: &mut Rng, sec: u8) -> M {
    if rng.bool() {
        return host(sec);
    }
    let ty = if sec == WILL { CONNECT } else { sec };
    let mut m = crate::gen::random_model(rng, ty);
    m.props.clear();
    if sec == WILL {
        let w = crate::gen::gwill(rng);
        m.will = Some(crate::gen::gwill(rng));
        m.will.as_mut().unwrap().props = w.props.into_iter().take(0).collect();
    }
    m
}

/// Delivered as sent, in any order, and emitted under the same identifiers.
fn c21_valid(c: &mut Ctx, rng: &mut Rng, m: &M) {
    let wire = rc::encode(m, &Form { shuffle: Some(rng.u64() | 1), explicit: 2 });
    c.eval(fnv(2123, &wire));
    c.count("sections with several properties");
    let Some((r, left)) = read_one(c, &wire) else { return };
    // the order of the repeated ones is the wire's
    match (rc::judge(&wire, TEXT), r) {
        (Verdict::Good(want, _), Ok(p)) => {
            let got = from_packet(&p);
            c.check(got == want && left == 0, "not-delivered", &wire, || {
                format!("meant {} read {}", want.brief(), got.brief())
            });
        }
        (Verdict::Good(want, _), Err(e)) => c.fail("allowed-refused", format!("{e:?}: {}", want.brief()), &wire),
        (Verdict::Bad(_), _) => {}
    }
    let Some((_, b, _)) = crate::mons_enc::enc(c, m, false) else { return };
    match rc::judge(&b, TEXT) {
        Verdict::Good(got, _) if got == *m => {}
        _ => c.fail("emitted", format!("{}: {}", m.brief(), hex(&b[..b.len().min(400)])), &b[..b.len().min(4096)].to_vec()),
    }
}
