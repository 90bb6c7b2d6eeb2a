//! Reference MQTT 5 codec, written from the OASIS standard for the monitors.
//! The encoder can produce every permitted wire form of a packet; the decoder
//! gives a three-valued judgement on a frame: well formed (with its content),
//! malformed (must be rejected), or well formed but bending a rule that this
//! library leaves to its user (`Quirk`), where the monitors do not insist.

use crate::model::*;
use crate::rng::Rng;

// ---------------------------------------------------------------- encoder

#[derive(Clone, Default)]
pub struct Form {
    /// Shuffle the order of the properties (repeated ones keep their order).
    pub shuffle: Option<u64>,
    /// For acks and DISCONNECT: 0 = shortest permitted form, 1 = with the reason
    /// code but the property length left out where permitted, 2 = everything.
    pub explicit: u8,
}

pub fn put_varint(out: &mut Vec<u8>, mut v: usize) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

/// Variable byte integer padded to `n` bytes (n may exceed the minimum).
pub fn put_varint_n(out: &mut Vec<u8>, v: usize, n: usize) {
    for i in 0..n {
        let b = ((v >> (7 * i)) & 0x7F) as u8;
        out.push(if i + 1 < n { b | 0x80 } else { b });
    }
}

pub fn varint_len(v: usize) -> usize {
    match v {
        0..=127 => 1,
        128..=16_383 => 2,
        16_384..=2_097_151 => 3,
        _ => 4,
    }
}

pub fn put_bin(out: &mut Vec<u8>, b: &[u8]) {
    assert!(b.len() <= 65_535, "reference encoder: field too long");
    out.extend_from_slice(&(b.len() as u16).to_be_bytes());
    out.extend_from_slice(b);
}

pub fn put_prop(out: &mut Vec<u8>, id: u8, v: &PV) {
    out.push(id);
    match v {
        PV::U8(x) => out.push(*x),
        PV::U16(x) => out.extend_from_slice(&x.to_be_bytes()),
        PV::U32(x) => out.extend_from_slice(&x.to_be_bytes()),
        PV::Var(x) => put_varint(out, *x as usize),
        PV::Bin(b) | PV::Str(b) => put_bin(out, b),
        PV::Pair(k, v) => {
            put_bin(out, k);
            put_bin(out, v);
        }
    }
}

pub fn props_bytes(p: &Props) -> Vec<u8> {
    let mut o = Vec::new();
    for (id, v) in p {
        put_prop(&mut o, *id, v);
    }
    o
}

/// Random order for the wire; entries with the same identifier keep theirs.
pub fn shuffled(p: &Props, seed: u64) -> Props {
    let mut rng = Rng::new(seed, 0x5A, p.len() as u64);
    let mut q = p.clone();
    rng.shuffle(&mut q);
    let ids: Vec<u8> = q.iter().map(|x| x.0).collect();
    let mut done = [false; 256];
    for id in ids.iter().copied() {
        if done[id as usize] {
            continue;
        }
        done[id as usize] = true;
        let mut src = p.iter().filter(|x| x.0 == id);
        for slot in q.iter_mut().filter(|x| x.0 == id) {
            *slot = src.next().unwrap().clone();
        }
    }
    q
}

fn put_props(out: &mut Vec<u8>, p: &Props, f: &Form) {
    let b = match f.shuffle {
        Some(s) => props_bytes(&shuffled(p, s)),
        None => props_bytes(p),
    };
    put_varint(out, b.len());
    out.extend_from_slice(&b);
}

pub fn first_byte(m: &M) -> u8 {
    let low = match m.ty {
        PUBLISH => (u8::from(m.dup) << 3) | (m.qos << 1) | u8::from(m.retain),
        PUBREL | SUBSCRIBE | UNSUBSCRIBE => 0b0010,
        _ => 0,
    };
    (m.ty << 4) | low
}

/// Variable header and payload.
pub fn body(m: &M, f: &Form) -> Vec<u8> {
    let mut o = Vec::new();
    match m.ty {
        CONNECT => {
            put_bin(&mut o, b"MQTT");
            o.push(5);
            let mut flags = u8::from(m.clean) << 1;
            if let Some(w) = &m.will {
                flags |= 0x04 | (w.qos << 3) | (u8::from(w.retain) << 5);
            }
            if !m.user.is_empty() {
                flags |= 0x80;
            }
            if !m.pass.is_empty() {
                flags |= 0x40;
            }
            o.push(flags);
            o.extend_from_slice(&m.keep_alive.to_be_bytes());
            put_props(&mut o, &m.props, f);
            put_bin(&mut o, &m.name);
            if let Some(w) = &m.will {
                put_props(&mut o, &w.props, f);
                put_bin(&mut o, &w.topic);
                put_bin(&mut o, &w.message);
            }
            if !m.user.is_empty() {
                put_bin(&mut o, &m.user);
            }
            if !m.pass.is_empty() {
                put_bin(&mut o, &m.pass);
            }
        }
        CONNACK => {
            o.push(u8::from(m.session_present));
            o.push(m.code);
            put_props(&mut o, &m.props, f);
        }
        PUBLISH => {
            put_bin(&mut o, &m.name);
            if m.qos > 0 {
                o.extend_from_slice(&m.pkid.to_be_bytes());
            }
            put_props(&mut o, &m.props, f);
            o.extend_from_slice(&m.payload);
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            o.extend_from_slice(&m.pkid.to_be_bytes());
            if m.code == 0 && m.props.is_empty() && f.explicit == 0 {
                return o;
            }
            o.push(m.code);
            if m.props.is_empty() && f.explicit < 2 {
                return o;
            }
            put_props(&mut o, &m.props, f);
        }
        SUBSCRIBE => {
            o.extend_from_slice(&m.pkid.to_be_bytes());
            put_props(&mut o, &m.props, f);
            for x in &m.filters {
                put_bin(&mut o, &x.path);
                o.push(
                    x.qos | (u8::from(x.nolocal) << 2) | (u8::from(x.rap) << 3) | (x.rule << 4),
                );
            }
        }
        SUBACK | UNSUBACK => {
            o.extend_from_slice(&m.pkid.to_be_bytes());
            put_props(&mut o, &m.props, f);
            o.extend_from_slice(&m.codes);
        }
        UNSUBSCRIBE => {
            o.extend_from_slice(&m.pkid.to_be_bytes());
            put_props(&mut o, &m.props, f);
            for x in &m.filters {
                put_bin(&mut o, &x.path);
            }
        }
        PINGREQ | PINGRESP => {}
        DISCONNECT => {
            if m.code == 0 && m.props.is_empty() && f.explicit == 0 {
                return o;
            }
            o.push(m.code);
            if m.props.is_empty() && f.explicit < 2 {
                return o;
            }
            put_props(&mut o, &m.props, f);
        }
        _ => unreachable!("model type"),
    }
    o
}

pub fn frame_of(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(body.len() + 5);
    o.push(first);
    put_varint(&mut o, body.len());
    o.extend_from_slice(body);
    o
}

pub fn encode(m: &M, f: &Form) -> Vec<u8> {
    frame_of(first_byte(m), &body(m, f))
}

// ---------------------------------------------------------------- framing

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Framing {
    /// The header itself is incomplete; at least this many bytes are missing.
    NeedHeader(usize),
    /// The header is complete, exactly this many bytes of the frame are missing.
    NeedBody { missing: usize, remaining: usize, header: usize },
    BadLength,
    Frame { remaining: usize, header: usize },
}

pub fn framing(s: &[u8]) -> Framing {
    if s.is_empty() {
        return Framing::NeedHeader(2);
    }
    let mut v = 0usize;
    for i in 0..4 {
        match s.get(1 + i) {
            None => return Framing::NeedHeader(1),
            Some(&b) => {
                v |= ((b & 0x7F) as usize) << (7 * i);
                if b & 0x80 == 0 {
                    let header = 2 + i;
                    let total = header + v;
                    return if s.len() < total {
                        Framing::NeedBody { missing: total - s.len(), remaining: v, header }
                    } else {
                        Framing::Frame { remaining: v, header }
                    };
                }
            }
        }
    }
    Framing::BadLength
}

// ---------------------------------------------------------------- decoder

/// Rules of the standard that this library, a syntactic codec, leaves to its
/// user (its own tests build such packets, or its types cannot express the
/// difference). Frames that only break these may be accepted or rejected.
pub mod quirk {
    pub const OVERLONG_VARINT: u32 = 1;
    pub const DUPLICATE_PROPERTY: u32 = 2;
    pub const NUL_IN_STRING: u32 = 4;
    pub const ZERO_PACKET_ID: u32 = 8;
    pub const VALUE_RANGE: u32 = 16;
    pub const DUP_ON_QOS0: u32 = 32;
    pub const WILL_TOPIC_TEXT: u32 = 64;
    pub const PASSWORD_TEXT: u32 = 128;
    pub const EMPTY_CREDENTIAL: u32 = 256;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Good(M, u32),
    Bad(&'static str),
}

/// What a piece of a frame is, for the faults planted by the workload.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MK {
    /// One byte that is a flag, a code, an option or a version.
    U8,
    U16,
    U32,
    /// Length of the string or binary field that follows.
    Len,
    Text,
    Raw,
    PropLen,
    PropId,
    Var,
}

/// One piece of a frame; `sec` is 0 outside property sections, then 1, 2.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Mark {
    pub at: usize,
    pub n: usize,
    pub k: MK,
    pub sec: u8,
}

struct R<'a> {
    b: &'a [u8],
    i: usize,
    quirks: u32,
    text: bool,
    log: Option<Vec<Mark>>,
    sec: u8,
    secs: u8,
}

/// The pieces a well-formed frame consists of (behind its header), in order.
pub fn marks(frame: &[u8]) -> Vec<Mark> {
    let Framing::Frame { remaining, header } = framing(frame) else { return vec![] };
    let mut r = R { b: frame, i: header, quirks: 0, text: false, log: Some(vec![]), sec: 0, secs: 0 };
    let _ = parse(frame[0], remaining, &mut r);
    r.log.unwrap_or_default()
}

type Res<T> = Result<T, &'static str>;

impl<'a> R<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        if self.left() < n {
            return Err("field runs past the end of the packet");
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn note(&mut self, k: MK, n: usize) {
        let (at, sec) = (self.i - n, self.sec);
        if let Some(l) = &mut self.log {
            l.push(Mark { at, n, k, sec });
        }
    }
    fn u8(&mut self) -> Res<u8> {
        let s = self.take(1)?;
        self.note(MK::U8, 1);
        Ok(s[0])
    }
    fn u16(&mut self) -> Res<u16> {
        let s = self.take(2)?;
        self.note(MK::U16, 2);
        Ok(u16::from_be_bytes([s[0], s[1]]))
    }
    fn u32(&mut self) -> Res<u32> {
        let s = self.take(4)?;
        self.note(MK::U32, 4);
        Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
    }
    fn var(&mut self, k: MK) -> Res<usize> {
        let at = self.i;
        let r = self.var_value();
        self.note(k, self.i - at);
        r
    }
    fn var_value(&mut self) -> Res<usize> {
        let mut v = 0usize;
        for i in 0..4 {
            if self.left() == 0 {
                return Err("variable byte integer is cut off");
            }
            let b = self.take(1)?[0];
            v |= ((b & 0x7F) as usize) << (7 * i);
            if b & 0x80 == 0 {
                if i > 0 && b == 0 {
                    self.quirks |= quirk::OVERLONG_VARINT;
                }
                return Ok(v);
            }
        }
        Err("variable byte integer longer than four bytes")
    }
    fn field(&mut self, k: MK) -> Res<&'a [u8]> {
        let s = self.take(2)?;
        self.note(MK::Len, 2);
        let n = u16::from_be_bytes([s[0], s[1]]) as usize;
        let s = self.take(n)?;
        self.note(k, n);
        Ok(s)
    }
    fn bin(&mut self) -> Res<&'a [u8]> {
        self.field(MK::Raw)
    }
    fn str(&mut self) -> Res<&'a [u8]> {
        let s = self.field(MK::Text)?;
        if self.text && !utf8_ok(s) {
            return Err("string is not UTF-8");
        }
        if s.contains(&0) {
            self.quirks |= quirk::NUL_IN_STRING;
        }
        Ok(s)
    }
    fn props(&mut self, sec: u8) -> Res<Props> {
        let n = self.var(MK::PropLen)?;
        if self.left() < n {
            return Err("property length runs past the end of the packet");
        }
        self.secs += 1;
        let mut p = R {
            b: &self.b[..self.i + n],
            i: self.i,
            quirks: 0,
            text: self.text,
            log: self.log.take(),
            sec: self.secs,
            secs: self.secs,
        };
        let mut out: Props = Vec::new();
        while p.left() > 0 {
            let id = p.take(1)?[0];
            p.note(MK::PropId, 1);
            if !section_props(sec).contains(&id) {
                return Err("property is not allowed in this packet");
            }
            let v = match prop_kind(id).unwrap() {
                Kind::U8 => PV::U8(p.u8()?),
                Kind::U16 => PV::U16(p.u16()?),
                Kind::U32 => PV::U32(p.u32()?),
                Kind::Var => PV::Var(p.var(MK::Var)? as u32),
                Kind::Bin => PV::Bin(p.bin()?.to_vec()),
                Kind::Str => PV::Str(p.str()?.to_vec()),
                Kind::Pair => {
                    let k = p.str()?.to_vec();
                    PV::Pair(k, p.str()?.to_vec())
                }
            };
            if !repeatable(sec, id) && out.iter().any(|x| x.0 == id) {
                p.quirks |= quirk::DUPLICATE_PROPERTY;
            }
            if !in_range(id, &v) {
                p.quirks |= quirk::VALUE_RANGE;
            }
            out.push((id, v));
        }
        self.i = p.i;
        self.quirks |= p.quirks;
        self.log = p.log;
        Ok(out)
    }
    fn end(&self) -> Res<()> {
        if self.left() == 0 {
            Ok(())
        } else {
            Err("bytes left over after the last field")
        }
    }
}

fn in_range(id: u8, v: &PV) -> bool {
    match (id, v) {
        (0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2A, PV::U8(x)) => *x <= 1,
        (0x21 | 0x23, PV::U16(x)) => *x != 0,
        (0x27, PV::U32(x)) => *x != 0,
        (0x0B, PV::Var(x)) => *x != 0,
        _ => true,
    }
}

/// UTF-8 by table 3-7 of the Unicode standard (own implementation, not `std`).
pub fn utf8_ok(s: &[u8]) -> bool {
    let mut i = 0;
    let cont = |k: usize, lo: u8, hi: u8| -> bool { matches!(s.get(k), Some(&b) if b >= lo && b <= hi) };
    while i < s.len() {
        let n = match s[i] {
            0x00..=0x7F => 1,
            0xC2..=0xDF if cont(i + 1, 0x80, 0xBF) => 2,
            0xE0 if cont(i + 1, 0xA0, 0xBF) && cont(i + 2, 0x80, 0xBF) => 3,
            0xE1..=0xEC | 0xEE..=0xEF if cont(i + 1, 0x80, 0xBF) && cont(i + 2, 0x80, 0xBF) => 3,
            0xED if cont(i + 1, 0x80, 0x9F) && cont(i + 2, 0x80, 0xBF) => 3,
            0xF0 if cont(i + 1, 0x90, 0xBF) && cont(i + 2, 0x80, 0xBF) && cont(i + 3, 0x80, 0xBF) => 4,
            0xF1..=0xF3
                if cont(i + 1, 0x80, 0xBF) && cont(i + 2, 0x80, 0xBF) && cont(i + 3, 0x80, 0xBF) =>
            {
                4
            }
            0xF4 if cont(i + 1, 0x80, 0x8F) && cont(i + 2, 0x80, 0xBF) && cont(i + 3, 0x80, 0xBF) => 4,
            _ => return false,
        };
        i += n;
    }
    true
}

/// Judges one complete frame. `text`: strings must be UTF-8 (false for the
/// configuration whose strings are raw bytes by design).
pub fn judge(frame: &[u8], text: bool) -> Verdict {
    let Framing::Frame { remaining, header } = framing(frame) else {
        return Verdict::Bad("not a complete frame");
    };
    if header + remaining != frame.len() {
        return Verdict::Bad("bytes behind the end of the frame");
    }
    let mut r = R { b: frame, i: header, quirks: 0, text, log: None, sec: 0, secs: 0 };
    if varint_len(remaining) != header - 1 {
        r.quirks |= quirk::OVERLONG_VARINT;
    }
    match parse(frame[0], remaining, &mut r) {
        Ok(m) => Verdict::Good(m.norm(), r.quirks),
        Err(e) => Verdict::Bad(e),
    }
}

fn parse(first: u8, remaining: usize, r: &mut R) -> Res<M> {
    let ty = first >> 4;
    let flags = first & 15;
    if ty == 0 || ty == 15 {
        return Err("packet type is not supported");
    }
    let mut m = M::new(ty);
    match ty {
        PUBLISH => {
            m.qos = (flags >> 1) & 3;
            if m.qos == 3 {
                return Err("QoS 3");
            }
            m.dup = flags & 8 != 0;
            m.retain = flags & 1 != 0;
            if m.dup && m.qos == 0 {
                r.quirks |= quirk::DUP_ON_QOS0;
            }
        }
        PUBREL | SUBSCRIBE | UNSUBSCRIBE => {
            if flags != 2 {
                return Err("reserved header flags");
            }
        }
        _ => {
            if flags != 0 {
                return Err("reserved header flags");
            }
        }
    }
    match ty {
        CONNECT => {
            let name = r.bin()?;
            if name != b"MQTT" {
                return Err("protocol name");
            }
            if r.u8()? != 5 {
                return Err("protocol version");
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err("reserved connect flag");
            }
            m.clean = f & 2 != 0;
            let has_will = f & 4 != 0;
            let wq = (f >> 3) & 3;
            if !has_will && f & 0x38 != 0 {
                return Err("will QoS or retain without will");
            }
            if wq == 3 {
                return Err("will QoS 3");
            }
            m.keep_alive = r.u16()?;
            m.props = r.props(CONNECT)?;
            m.name = r.str()?.to_vec();
            if has_will {
                let props = r.props(WILL)?;
                let topic = r.bin()?.to_vec();
                if !utf8_ok(&topic) {
                    r.quirks |= quirk::WILL_TOPIC_TEXT;
                }
                if topic.contains(&0) {
                    r.quirks |= quirk::NUL_IN_STRING;
                }
                let message = r.bin()?.to_vec();
                m.will = Some(Will { topic, message, qos: wq, retain: f & 0x20 != 0, props });
            }
            if f & 0x80 != 0 {
                m.user = r.str()?.to_vec();
                if m.user.is_empty() {
                    r.quirks |= quirk::EMPTY_CREDENTIAL;
                }
            }
            if f & 0x40 != 0 {
                m.pass = r.bin()?.to_vec();
                if m.pass.is_empty() {
                    r.quirks |= quirk::EMPTY_CREDENTIAL;
                }
                if r.text && !utf8_ok(&m.pass) {
                    r.quirks |= quirk::PASSWORD_TEXT;
                }
            }
            r.end()?;
        }
        CONNACK => {
            let f = r.u8()?;
            if f > 1 {
                return Err("reserved connack flags");
            }
            m.session_present = f == 1;
            m.code = r.u8()?;
            code_ok(ty, m.code)?;
            m.props = r.props(ty)?;
            if m.props.iter().any(|p| matches!(p, (0x24, PV::U8(x)) if *x > 1)) {
                r.quirks |= quirk::VALUE_RANGE;
            }
            r.end()?;
        }
        PUBLISH => {
            m.name = r.str()?.to_vec();
            if m.qos > 0 {
                m.pkid = r.u16()?;
                if m.pkid == 0 {
                    return Err("packet identifier 0 on QoS > 0");
                }
            }
            m.props = r.props(ty)?;
            m.payload = r.take(r.left())?.to_vec();
            r.note(MK::Raw, m.payload.len());
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            m.pkid = r.u16()?;
            if m.pkid == 0 {
                r.quirks |= quirk::ZERO_PACKET_ID;
            }
            if remaining > 2 {
                m.code = r.u8()?;
                code_ok(ty, m.code)?;
            }
            if remaining > 3 {
                m.props = r.props(ty)?;
            }
            r.end()?;
        }
        SUBSCRIBE => {
            m.pkid = r.u16()?;
            if m.pkid == 0 {
                r.quirks |= quirk::ZERO_PACKET_ID;
            }
            m.props = r.props(ty)?;
            while r.left() > 0 {
                let path = r.str()?.to_vec();
                let o = r.u8()?;
                if o & 0xC0 != 0 {
                    return Err("reserved subscription option bits");
                }
                let (qos, rule) = (o & 3, (o >> 4) & 3);
                if qos == 3 {
                    return Err("subscription QoS 3");
                }
                if rule == 3 {
                    return Err("retain handling 3");
                }
                m.filters.push(Filt { path, qos, nolocal: o & 4 != 0, rap: o & 8 != 0, rule });
            }
            if m.filters.is_empty() {
                return Err("no topic filter");
            }
        }
        UNSUBSCRIBE => {
            m.pkid = r.u16()?;
            if m.pkid == 0 {
                r.quirks |= quirk::ZERO_PACKET_ID;
            }
            m.props = r.props(ty)?;
            while r.left() > 0 {
                let path = r.str()?.to_vec();
                m.filters.push(Filt { path, ..Filt::default() });
            }
            if m.filters.is_empty() {
                return Err("no topic filter");
            }
        }
        SUBACK | UNSUBACK => {
            m.pkid = r.u16()?;
            if m.pkid == 0 {
                r.quirks |= quirk::ZERO_PACKET_ID;
            }
            m.props = r.props(ty)?;
            while r.left() > 0 {
                m.codes.push(r.u8()?);
            }
            if m.codes.is_empty() {
                return Err("no reason code");
            }
            for &c in &m.codes {
                code_ok(ty, c)?;
            }
        }
        PINGREQ | PINGRESP => r.end()?,
        DISCONNECT => {
            if remaining > 0 {
                m.code = r.u8()?;
                code_ok(ty, m.code)?;
            }
            if remaining > 1 {
                m.props = r.props(ty)?;
            }
            r.end()?;
        }
        _ => unreachable!(),
    }
    Ok(m)
}

fn code_ok(ty: u8, c: u8) -> Res<()> {
    if reason_codes(ty).contains(&c) {
        Ok(())
    } else {
        Err("reason code not listed for this packet")
    }
}

#[cfg(test)]
mod test {
    use super::*;

    #[test]
    fn utf8_agrees_with_std_on_all_short_sequences() {
        for a in 0..=255u8 {
            assert_eq!(utf8_ok(&[a]), std::str::from_utf8(&[a]).is_ok());
            for b in 0..=255u8 {
                assert_eq!(utf8_ok(&[a, b]), std::str::from_utf8(&[a, b]).is_ok());
                for c in 0..=255u8 {
                    assert_eq!(utf8_ok(&[a, b, c]), std::str::from_utf8(&[a, b, c]).is_ok());
                }
            }
        }
        for a in 0xEEu8..=0xF6 {
            for b in 0x7Fu8..=0xC0 {
                for c in [0x7F, 0x80, 0xBF, 0xC0] {
                    for d in [0x7F, 0x80, 0xBF, 0xC0] {
                        let s = [a, b, c, d];
                        assert_eq!(utf8_ok(&s), std::str::from_utf8(&s).is_ok());
                    }
                }
            }
        }
    }

    #[test]
    fn tables_are_consistent() {
        for s in SECTIONS {
            for id in section_props(s) {
                assert!(prop_kind(*id).is_some());
            }
        }
        assert_eq!((0..=255u8).filter(|i| prop_kind(*i).is_some()).count(), 27);
    }

    #[test]
    fn varint_padding() {
        let mut a = vec![];
        put_varint_n(&mut a, 5, 3);
        assert_eq!(a, [0x85, 0x80, 0x00]);
    }
}
