//! Workload of valid packets: families of models, each a function of
//! (seed, family, index). Every model here is representable by the library and
//! conformant to MQTT 5, except that one-byte flags may take any value.

use crate::model::*;
use crate::rng::Rng;

pub struct VFam {
    pub name: String,
    pub count: u64,
    pub gen: Box<dyn Fn(&mut Rng, u64) -> M + Sync + Send>,
}

pub const MAX_REMAINING: usize = 268_435_455;

// ------------------------------------------------------------------ pieces

fn gchar(rng: &mut Rng) -> char {
    match rng.below(12) {
        0..=5 => *rng.pick(&['a', 'b', 'z', 'A', '0', '9', ' ', '-', '_', '.', ':', '"', '\\', '=']),
        6 => *rng.pick(&['/', '/', '#', '+', '$', '*']),
        7 => *rng.pick(&['\u{1}', '\t', '\n', '\r', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}']),
        8 => char::from_u32(rng.range(0xA0, 0x7FF) as u32).unwrap_or('x'),
        9 => char::from_u32(rng.range(0x800, 0xD7FF) as u32).unwrap_or('x'),
        10 => *rng.pick(&['\u{FEFF}', '\u{FFFF}', '\u{FFFE}', '\u{FFFD}', '\u{E000}', '\u{D7FF}', '\u{2028}']),
        _ => char::from_u32(rng.range(0x10000, 0x10FFFF) as u32).unwrap_or('x'),
    }
}

/// UTF-8 without NUL, exactly `n` bytes.
pub fn gstr_n(rng: &mut Rng, n: usize) -> Vec<u8> {
    if n > 400 {
        // Long strings: a short random block, repeated, padded with ASCII.
        let blk = gstr_n(rng, 97);
        let mut v = Vec::with_capacity(n);
        while v.len() + blk.len() <= n {
            v.extend_from_slice(&blk);
        }
        while v.len() < n {
            v.push(b'a' + (v.len() % 26) as u8);
        }
        return v;
    }
    let mut v = Vec::with_capacity(n);
    let mut buf = [0u8; 4];
    while v.len() < n {
        let s = gchar(rng).encode_utf8(&mut buf).as_bytes();
        if v.len() + s.len() <= n {
            v.extend_from_slice(s);
        } else {
            v.push(b'p');
        }
    }
    v
}

pub fn glen(rng: &mut Rng) -> usize {
    match rng.below(40) {
        0..=3 => 0,
        4..=7 => 1,
        8..=29 => rng.range(2, 16),
        30..=36 => rng.range(17, 80),
        37 | 38 => rng.range(81, 400),
        _ => *rng.pick(&[127, 128, 129, 255, 256, 257, 1000, 4096, 16_383, 16_384, 16_385, 65_535]),
    }
}

/// Numbers that people write: times in seconds, sizes, counts, ports.
pub const TYPICAL: [u32; 40] = [
    5, 10, 15, 20, 30, 45, 60, 90, 100, 120, 180, 300, 500, 600, 900, 1000, 1024, 1200, 1500, 1800, 1883, 2048,
    3600, 4096, 7200, 8192, 8883, 10_240, 14_400, 43_200, 65_000, 86_400, 100_000, 102_400, 131_072, 604_800,
    1_048_576, 2_592_000, 10_485_760, 31_536_000,
];

/// Texts that code may be tempted to treat in a special way.
pub const SPECIAL: [&str; 40] = [
    "MQTT", "mqtt", "MQIsdp", "$SYS/broker/load", "$share/group/a/+/b", "$share/g/#", "$queue/t",
    "#", "+", "/", "//", "a//b", "/a/", "+/+/#", "a/#", " ", "  lead", "trail  ", "\t", "\r\n", "A/b/C",
    "true", "false", "0", "-1", "null", "None", "topic", "\u{FEFF}", "\u{FEFF}x", "x\u{FEFF}", "e\u{301}",
    "\u{e9}", "\u{212B}", "\u{C5}", "\u{130}", "\u{DF}", "key", "value", "\u{1}\u{7f}",
];

pub fn gstr(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 12) {
        return rng.pick(&SPECIAL).as_bytes().to_vec();
    }
    let n = glen(rng);
    gstr_n(rng, n)
}

pub fn gbin(rng: &mut Rng) -> Vec<u8> {
    match rng.below(16) {
        0..=2 => gstr(rng),
        3 => vec![*rng.pick(&[0u8, 0, 0xFF, 0x20, 0x80]); glen(rng)],
        4 => {
            // what could be taken for a packet, a length or a text with length
            let mut v = rng.pick(&[&[0xC0u8, 0][..], &[0x30, 4, 0, 1, b'a', 0], &[0, 1, b'a'], &[0, 0], &[0x80, 1]]).to_vec();
            v.extend(rng.bytes(4));
            v
        }
        _ => {
            let n = glen(rng);
            rng.bytes(n)
        }
    }
}

pub fn gu16(rng: &mut Rng) -> u16 {
    match rng.below(9) {
        8 => *rng.pick(&[0, 0, 1, 0xFFFF]),
        0 => *rng.pick(&[1, 2, 127, 128, 255, 256, 257, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF]),
        1 => *rng.pick(&TYPICAL) as u16,
        2 => rng.below(20) as u16,
        _ => (rng.u64() >> 48) as u16,
    }
}

pub fn gid(rng: &mut Rng) -> u16 {
    gu16(rng).max(1)
}

pub fn gu32(rng: &mut Rng) -> u32 {
    match rng.below(7) {
        6 => *rng.pick(&[0, 0, 1, u32::MAX]),
        0 => *rng.pick(&TYPICAL),
        1 => rng.below(20) as u32,
        2 => {
            let p = 1u32 << rng.below(32);
            *rng.pick(&[p, p.wrapping_sub(1), p.wrapping_add(1), u32::MAX])
        }
        _ => (rng.u64() >> 32) as u32,
    }
}

pub fn gvar(rng: &mut Rng) -> u32 {
    let v = match rng.below(5) {
        3 => *rng.pick(&TYPICAL),
        4 => rng.range(1, 20) as u32,
        0 => *rng.pick(&[1, 127, 128, 129, 16_383, 16_384, 16_385, 2_097_151, 2_097_152, 268_435_454, 268_435_455]),
        1 => 1u32 << rng.below(28),
        _ => (rng.u64() >> 36) as u32,
    };
    v.clamp(1, MAX_REMAINING as u32)
}

pub fn gval(rng: &mut Rng, id: u8) -> PV {
    match prop_kind(id).unwrap() {
        Kind::U8 => PV::U8(if rng.chance(1, 8) { rng.u8() } else { rng.below(2) as u8 }),
        Kind::U16 => PV::U16(if matches!(id, 0x21 | 0x23) { gid(rng) } else { gu16(rng) }),
        Kind::U32 => PV::U32(if id == 0x27 { gu32(rng).max(1) } else { gu32(rng) }),
        Kind::Var => PV::Var(gvar(rng)),
        Kind::Bin => PV::Bin(gbin(rng)),
        Kind::Str => PV::Str(gstr(rng)),
        Kind::Pair => PV::Pair(gstr(rng), gstr(rng)),
    }
}

/// Small fixed value, for exhaustive sweeps over which properties are present.
pub fn small_val(id: u8, salt: u8) -> PV {
    match prop_kind(id).unwrap() {
        Kind::U8 => PV::U8(salt & 1),
        Kind::U16 => PV::U16(0x0100 + u16::from(id) + u16::from(salt)),
        Kind::U32 => PV::U32(0x0A00_0000 + (u32::from(id) << 8) + u32::from(salt)),
        Kind::Var => PV::Var(120 + u32::from(id) * 7 + u32::from(salt) * 9),
        Kind::Bin => PV::Bin(vec![id, 0xFF, salt]),
        Kind::Str => PV::Str(vec![b'a' + id % 26, b'0' + salt % 10]),
        Kind::Pair => PV::Pair(vec![b'k', b'0' + salt % 10], vec![b'v', b'A' + salt % 26]),
    }
}

pub fn gprops(rng: &mut Rng, sec: u8) -> Props {
    let density = *rng.pick(&[0, 10, 30, 60, 100]);
    let mut out = Vec::new();
    for &id in section_props(sec) {
        if !rng.chance(density, 100) {
            continue;
        }
        let n = if repeatable(sec, id) {
            match rng.below(6) {
                0..=2 => 1,
                3 => 2,
                4 => rng.range(3, 6),
                _ => rng.range(7, 20),
            }
        } else {
            1
        };
        for _ in 0..n {
            out.push((id, gval(rng, id)));
        }
        if n > 1 && rng.bool() {
            repeat_some(rng, &mut out, id);
        }
    }
    out
}

/// Make some occurrences of `id` equal, or equal in one half.
pub fn repeat_some(rng: &mut Rng, ps: &mut Props, id: u8) {
    let at: Vec<usize> = (0..ps.len()).filter(|k| ps[*k].0 == id).collect();
    for w in 1..at.len() {
        let from = ps[at[rng.below(w)]].1.clone();
        match (rng.below(5), from, &mut ps[at[w]].1) {
            (0, x, y) => *y = x,
            (1, PV::Pair(k, _), PV::Pair(k2, _)) => *k2 = k,
            (2, PV::Pair(_, v), PV::Pair(_, v2)) => *v2 = v,
            (3, PV::Pair(k, _), PV::Pair(_, v2)) => *v2 = k,
            _ => {}
        }
    }
}

pub fn gwill(rng: &mut Rng) -> Will {
    Will {
        topic: gstr(rng),
        message: gbin(rng),
        qos: rng.below(3) as u8,
        retain: rng.bool(),
        props: gprops(rng, WILL),
    }
}

pub fn gfilt(rng: &mut Rng) -> Filt {
    Filt {
        path: gstr(rng),
        qos: rng.below(3) as u8,
        nolocal: rng.bool(),
        rap: rng.bool(),
        rule: rng.below(3) as u8,
    }
}

pub fn gcount(rng: &mut Rng) -> usize {
    match rng.below(10) {
        0..=5 => 1,
        6 | 7 => rng.range(2, 4),
        8 => rng.range(5, 12),
        _ => rng.range(13, 40),
    }
}

pub fn random_model(rng: &mut Rng, ty: u8) -> M {
    let mut m = M::new(ty);
    m.props = gprops(rng, ty);
    match ty {
        CONNECT => {
            m.clean = rng.bool();
            m.keep_alive = gu16(rng);
            m.name = gstr(rng);
            if rng.bool() {
                m.will = Some(gwill(rng));
            }
            if rng.bool() {
                m.user = gstr(rng);
            }
            if rng.bool() {
                m.pass = gstr(rng);
            }
        }
        CONNACK => {
            m.session_present = rng.bool();
            m.code = *rng.pick(reason_codes(ty));
        }
        PUBLISH => {
            m.qos = rng.below(3) as u8;
            m.dup = rng.bool();
            m.retain = rng.bool();
            m.pkid = gid(rng);
            m.name = gstr(rng);
            m.payload = gbin(rng);
        }
        PUBACK..=PUBCOMP => {
            m.pkid = gid(rng);
            m.code = *rng.pick(reason_codes(ty));
        }
        SUBSCRIBE => {
            m.pkid = gid(rng);
            m.filters = (0..gcount(rng)).map(|_| gfilt(rng)).collect();
        }
        UNSUBSCRIBE => {
            m.pkid = gid(rng);
            m.filters =
                (0..gcount(rng)).map(|_| Filt { path: gstr(rng), ..Filt::default() }).collect();
        }
        SUBACK | UNSUBACK => {
            m.pkid = gid(rng);
            m.codes = (0..gcount(rng)).map(|_| *rng.pick(reason_codes(ty))).collect();
        }
        DISCONNECT => m.code = *rng.pick(reason_codes(ty)),
        _ => {}
    }
    if rng.chance(1, 4) {
        relate(rng, &mut m);
    }
    m
}

/// Equal content in places that have nothing to do with each other.
pub fn relate(rng: &mut Rng, m: &mut M) {
    match m.ty {
        CONNECT => {
            if let Some(w) = &mut m.will {
                match rng.below(5) {
                    0 => w.topic = m.name.clone(),
                    1 => w.message = w.topic.clone(),
                    2 => w.props.retain(|p| p.0 != 0x26),
                    3 => w.props.extend(m.props.iter().filter(|p| p.0 == 0x26).cloned()),
                    _ => {}
                }
            }
            match rng.below(4) {
                0 => m.pass = m.user.clone(),
                1 => m.user = m.name.clone(),
                _ => {}
            }
        }
        PUBLISH => match rng.below(4) {
            0 => m.payload = m.name.clone(),
            1 => {
                for (id, v) in &mut m.props {
                    if *id == 0x08 {
                        *v = PV::Str(m.name.clone());
                    }
                }
            }
            2 if m.props.iter().any(|p| p.0 == 0x23) => m.name.clear(),
            _ => m.payload.clear(),
        },
        SUBSCRIBE | UNSUBSCRIBE => {
            for k in 1..m.filters.len() {
                let j = rng.below(k);
                match rng.below(4) {
                    0 => m.filters[k] = m.filters[j].clone(),
                    1 => m.filters[k].path = m.filters[j].path.clone(),
                    _ => {}
                }
            }
        }
        SUBACK | UNSUBACK => {
            let c = m.codes[0];
            if rng.bool() {
                m.codes.iter_mut().for_each(|x| *x = c);
            }
        }
        _ => {}
    }
}

/// A packet that is empty wherever it can be, apart from one to five places.
pub fn sparse(rng: &mut Rng, ty: u8) -> M {
    let mut m = M::new(ty);
    match ty {
        PUBACK..=PUBCOMP => m.pkid = 1,
        SUBSCRIBE | UNSUBSCRIBE => {
            m.pkid = 1;
            m.filters = vec![Filt { path: b"f".to_vec(), ..Filt::default() }];
        }
        SUBACK | UNSUBACK => {
            m.pkid = 1;
            m.codes = vec![0];
        }
        _ => {}
    }
    for _ in 0..rng.range(1, 5) {
        let r = random_model(rng, ty);
        if rng.bool() {
            // one property, or two
            for _ in 0..rng.range(1, 2) {
                let ids = section_props(ty);
                if !ids.is_empty() {
                    let id = *rng.pick(ids);
                    if repeatable(ty, id) || m.props.iter().all(|p| p.0 != id) {
                        let v = gval(rng, id);
                        m.props.push((id, v));
                    }
                }
            }
            continue;
        }
        match ty {
            CONNECT => match rng.below(6) {
                0 => m.clean = true,
                1 => m.keep_alive = r.keep_alive,
                2 => m.name = r.name,
                3 => m.user = r.user,
                4 => m.pass = r.pass,
                _ => {
                    let w = gwill(rng);
                    let mine = m.will.get_or_insert_with(Will::default);
                    match rng.below(5) {
                        0 => mine.topic = w.topic,
                        1 => mine.message = w.message,
                        2 => mine.qos = w.qos,
                        3 => mine.retain = w.retain,
                        _ => {
                            let id = *rng.pick(section_props(WILL));
                            if repeatable(WILL, id) || mine.props.iter().all(|p| p.0 != id) {
                                let v = gval(rng, id);
                                mine.props.push((id, v));
                            }
                        }
                    }
                }
            },
            CONNACK => {
                if rng.bool() {
                    m.session_present = true;
                } else {
                    m.code = r.code;
                }
            }
            PUBLISH => match rng.below(5) {
                0 => m.dup = true,
                1 => m.retain = true,
                2 => {
                    m.qos = r.qos;
                    m.pkid = r.pkid;
                }
                3 => m.name = r.name,
                _ => m.payload = r.payload,
            },
            PUBACK..=PUBCOMP | DISCONNECT => {
                if rng.bool() {
                    m.code = r.code;
                } else if ty != DISCONNECT {
                    m.pkid = r.pkid;
                }
            }
            SUBSCRIBE | UNSUBSCRIBE => {
                let f = gfilt(rng);
                match rng.below(if ty == SUBSCRIBE { 7 } else { 3 }) {
                    0 => m.pkid = r.pkid,
                    1 => m.filters[0].path = f.path,
                    2 => m.filters.push(Filt { path: f.path, ..Filt::default() }),
                    3 => m.filters[0].qos = f.qos,
                    4 => m.filters[0].nolocal = true,
                    5 => m.filters[0].rap = true,
                    _ => m.filters[0].rule = f.rule,
                }
            }
            SUBACK | UNSUBACK => match rng.below(3) {
                0 => m.pkid = r.pkid,
                1 => m.codes[0] = r.codes[0],
                _ => m.codes.push(r.codes[0]),
            },
            _ => {}
        }
    }
    m
}

/// Smallest packet that can carry the section.
pub fn host(sec: u8) -> M {
    let mut m = M::new(if sec == WILL { CONNECT } else { sec });
    match sec {
        CONNECT => m.name = b"c".to_vec(),
        WILL => {
            m.name = b"c".to_vec();
            m.will = Some(Will { topic: b"w".to_vec(), message: b"m".to_vec(), ..Will::default() });
        }
        PUBLISH => {
            m.name = b"t".to_vec();
            m.payload = b"p".to_vec();
            m.qos = 1;
            m.pkid = 7;
        }
        PUBACK..=PUBCOMP => m.pkid = 7,
        SUBSCRIBE => {
            m.pkid = 7;
            m.filters = vec![Filt { path: b"f".to_vec(), qos: 1, ..Filt::default() }];
        }
        UNSUBSCRIBE => {
            m.pkid = 7;
            m.filters = vec![Filt { path: b"f".to_vec(), ..Filt::default() }];
        }
        SUBACK | UNSUBACK => {
            m.pkid = 7;
            m.codes = vec![0];
        }
        _ => {}
    }
    m
}

pub fn props_mut(m: &mut M, sec: u8) -> &mut Props {
    if sec == WILL {
        &mut m.will.as_mut().unwrap().props
    } else {
        &mut m.props
    }
}

// ------------------------------------------------------------------- slots

/// A place in a packet that holds a length-prefixed string or binary field.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Slot {
    ClientId,
    User,
    Pass,
    WillTopic,
    WillMessage,
    Topic,
    Filter(usize),
    Unfilter(usize),
    Prop(u8, u8),
    Key(u8, u8),
    Value(u8, u8),
}

impl Slot {
    /// Must the field be text in the string configurations (by this library)?
    pub fn is_text(self) -> bool {
        !matches!(
            self,
            Slot::WillTopic | Slot::WillMessage | Slot::Prop(_, 0x09) | Slot::Prop(_, 0x16)
        )
    }
    /// The packet or will that has the field.
    pub fn section(self) -> u8 {
        match self {
            Slot::ClientId | Slot::User | Slot::Pass => CONNECT,
            Slot::WillTopic | Slot::WillMessage => WILL,
            Slot::Topic => PUBLISH,
            Slot::Filter(_) => SUBSCRIBE,
            Slot::Unfilter(_) => UNSUBSCRIBE,
            Slot::Prop(sec, _) | Slot::Key(sec, _) | Slot::Value(sec, _) => sec,
        }
    }
    pub fn put(self, v: Vec<u8>) -> M {
        let mut m = host(self.section());
        self.put_in(&mut m, v);
        m
    }
    pub fn put_in(self, m: &mut M, v: Vec<u8>) {
        if self.section() == WILL && m.will.is_none() {
            m.will = host(WILL).will;
        }
        match self {
            Slot::ClientId | Slot::Topic => m.name = v,
            Slot::User => m.user = v,
            Slot::Pass => m.pass = v,
            Slot::WillTopic => m.will.as_mut().unwrap().topic = v,
            Slot::WillMessage => m.will.as_mut().unwrap().message = v,
            Slot::Filter(n) | Slot::Unfilter(n) => {
                while m.filters.len() <= n {
                    m.filters.push(m.filters[0].clone());
                }
                m.filters[n].path = v;
                if m.ty == SUBSCRIBE {
                    m.filters[n].qos = 2;
                }
            }
            Slot::Prop(sec, id) => {
                let pv = if prop_kind(id) == Some(Kind::Bin) { PV::Bin(v) } else { PV::Str(v) };
                props_mut(m, sec).push((id, pv));
            }
            Slot::Key(sec, id) => props_mut(m, sec).push((id, PV::Pair(v, b"v".to_vec()))),
            Slot::Value(sec, id) => props_mut(m, sec).push((id, PV::Pair(b"k".to_vec(), v))),
        }
    }
}

pub fn slots() -> Vec<Slot> {
    let mut s = vec![
        Slot::ClientId,
        Slot::User,
        Slot::Pass,
        Slot::WillTopic,
        Slot::WillMessage,
        Slot::Topic,
        Slot::Filter(0),
        Slot::Filter(1),
        Slot::Unfilter(0),
        Slot::Unfilter(2),
    ];
    for sec in SECTIONS {
        for &id in section_props(sec) {
            match prop_kind(id).unwrap() {
                Kind::Str | Kind::Bin => s.push(Slot::Prop(sec, id)),
                Kind::Pair => {
                    s.push(Slot::Key(sec, id));
                    s.push(Slot::Value(sec, id));
                }
                _ => {}
            }
        }
    }
    s
}

/// A place that holds a number; `None` section = header field.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Num {
    KeepAlive,
    PacketId(u8),
    Prop(u8, u8),
}

pub fn nums(kind: Kind) -> Vec<Num> {
    let mut v = Vec::new();
    if kind == Kind::U16 {
        v.push(Num::KeepAlive);
        for t in PUBLISH..=UNSUBACK {
            v.push(Num::PacketId(t));
        }
    }
    for sec in SECTIONS {
        for &id in section_props(sec) {
            if prop_kind(id) == Some(kind) {
                v.push(Num::Prop(sec, id));
            }
        }
    }
    v
}

impl Num {
    pub fn put(self, x: u32) -> M {
        match self {
            Num::KeepAlive => M { keep_alive: x as u16, ..host(CONNECT) },
            Num::PacketId(t) => M { pkid: (x as u16).max(1), ..host(t) },
            Num::Prop(sec, id) => {
                let mut m = host(sec);
                let pv = match prop_kind(id).unwrap() {
                    Kind::U8 => PV::U8(x as u8),
                    Kind::U16 => PV::U16(x as u16),
                    Kind::U32 => PV::U32(x),
                    _ => PV::Var(x.clamp(1, MAX_REMAINING as u32)),
                };
                props_mut(&mut m, sec).push((id, pv));
                m
            }
        }
    }
}

// ---------------------------------------------------------- length targets

/// A packet of type `t` whose property section has exactly `n` bytes of
/// properties (n != 1..4), made of user properties.
pub fn with_prop_len(sec: u8, n: usize, rng: &mut Rng) -> M {
    let mut m = host(sec);
    let mut left = n;
    while left > 0 {
        // one user property takes 5 + key + value bytes
        let take = if left <= 60_000 {
            left
        } else if left < 60_000 + 5 {
            left - 30_000
        } else {
            60_000
        };
        assert!(take >= 5, "prop length {n} cannot be made of user properties");
        let body = take - 5;
        let k = body.min(rng.below(12));
        let key = gstr_n(rng, k);
        let val = gstr_n(rng, body - k);
        props_mut(&mut m, sec).push((0x26, PV::Pair(key, val)));
        left -= take;
    }
    m
}

/// A PUBLISH whose remaining length is exactly `n`.
pub fn with_remaining(n: usize, rng: &mut Rng) -> M {
    let mut m = M::new(PUBLISH);
    m.qos = rng.below(3) as u8;
    let id = if m.qos > 0 { 2 } else { 0 };
    m.pkid = if m.qos > 0 { gid(rng) } else { 0 };
    m.retain = rng.bool();
    let topic = (n.saturating_sub(3 + id)).min(rng.below(9));
    m.name = gstr_n(rng, topic);
    let fixed = 2 + topic + id + 1;
    if n < fixed {
        m.qos = 0;
        m.pkid = 0;
        m.name.clear();
        m.payload = vec![b'x'; n.saturating_sub(3)];
        return m;
    }
    m.payload = if n - fixed > 1 << 16 { vec![0xA5; n - fixed] } else { rng.bytes(n - fixed) };
    m
}

pub fn boundary_lengths(max: usize) -> Vec<usize> {
    let mut v = Vec::new();
    for b in [0usize, 127, 128, 255, 256, 16_383, 16_384, 65_535, 65_536, 2_097_151, 2_097_152] {
        for d in -6i64..=6 {
            let x = b as i64 + d;
            if x >= 0 && x as usize <= max {
                v.push(x as usize);
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Field lengths: every small one, and both sides of every power of two.
pub fn field_lengths(thorough: bool, scale: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if scale >= 200 { 2100 } else { 300 }).collect();
    for p in [512usize, 1024, 2048, 4096, 8192, 16_384, 32_768, 65_536] {
        for d in -4i64..=4 {
            let x = p as i64 + d;
            if x <= 65_535 {
                v.push(x as usize);
            }
        }
    }
    for d in 90..150 {
        v.push(16_384 - d); // remaining length crosses 16384 while the field does not
        if d % 8 == 0 {
            v.push(65_535 - d);
        }
    }
    if thorough {
        v.extend((300..65_536).step_by(61));
    }
    v.sort_unstable();
    v.dedup();
    v
}

// ------------------------------------------------------------------- bases

/// Fixed set of small packets: starting points for mutation and truncation.
pub fn bases() -> Vec<M> {
    let mut v = Vec::new();
    for t in TYPES {
        v.push(host(t));
    }
    v.push(host(WILL));
    for sec in SECTIONS {
        // one of each property alone, and all of them
        for &id in section_props(sec) {
            let mut m = host(sec);
            props_mut(&mut m, sec).push((id, small_val(id, 1)));
            v.push(m);
        }
        let mut m = host(sec);
        for (i, &id) in section_props(sec).iter().enumerate() {
            props_mut(&mut m, sec).push((id, small_val(id, i as u8)));
            if repeatable(sec, id) {
                for k in 0..2 {
                    props_mut(&mut m, sec).push((id, small_val(id, 3 + k)));
                }
            }
        }
        if sec == CONNECT || sec == WILL {
            m.user = b"user".to_vec();
            m.pass = "p\u{e4}ss".as_bytes().to_vec();
        }
        if sec == WILL {
            let w = m.will.as_mut().unwrap();
            w.qos = 2;
            w.retain = true;
            m.clean = true;
            m.keep_alive = 30;
            m.props = vec![(0x21, PV::U16(5)), (0x26, PV::Pair(b"a".to_vec(), b"b".to_vec()))];
        }
        if let Some(c) = reason_codes(sec).get(1) {
            if m.codes.is_empty() {
                m.code = *c;
            } else {
                m.codes = reason_codes(sec).to_vec();
            }
        }
        v.push(m);
    }
    for t in [PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT, CONNACK] {
        let mut m = host(t);
        m.code = *reason_codes(t).last().unwrap();
        m.session_present = t == CONNACK;
        v.push(m);
    }
    for q in 0..3 {
        let mut m = host(PUBLISH);
        m.qos = q;
        m.dup = q == 2;
        m.retain = q == 1;
        m.name = "top/\u{20ac}/\u{1F600}".as_bytes().to_vec();
        m.payload = (0..9).collect();
        v.push(m.norm());
    }
    let mut m = host(SUBSCRIBE);
    m.filters = (0..4)
        .map(|i| Filt {
            path: format!("a/{i}/#").into_bytes(),
            qos: i % 3,
            nolocal: i & 1 == 1,
            rap: i & 2 == 2,
            rule: (i + 1) % 3,
        })
        .collect();
    v.push(m);
    let mut m = host(UNSUBSCRIBE);
    m.filters =
        (0..3).map(|i| Filt { path: format!("x/+/{i}").into_bytes(), ..Filt::default() }).collect();
    v.push(m);
    v
}

// ---------------------------------------------------------------- families

fn vf(name: &str, count: u64, gen: impl Fn(&mut Rng, u64) -> M + Sync + Send + 'static) -> VFam {
    VFam { name: name.to_string(), count, gen: Box::new(gen) }
}

/// A packet with a long list of small items: codes, filters or properties.
pub fn long_model(rng: &mut Rng, ty: u8) -> M {
    let mut m = sparse(rng, ty);
    // now and then one that says the same over and over
    let few = rng.chance(1, 3);
    let n = *rng.pick(&[40usize, 130, 260, 520]) + rng.below(100);
    let lists = matches!(ty, SUBSCRIBE | SUBACK | UNSUBSCRIBE | UNSUBACK) && rng.chance(3, 4);
    if lists {
        match ty {
            SUBACK | UNSUBACK => m.codes = (0..n * 2).map(|_| *rng.pick(reason_codes(ty))).collect(),
            _ => {
                m.filters = (0..n)
                    .map(|k| {
                        let path = if few { vec![b'a'; k % 2] } else { gstr_n(rng, k % 6) };
                        if ty == SUBSCRIBE {
                            Filt { path, ..gfilt_small(rng) }
                        } else {
                            Filt { path, ..Filt::default() }
                        }
                    })
                    .collect();
            }
        }
        return m;
    }
    let mut put = |props: &mut Props, sec: u8| {
        for k in 0..n / 2 {
            if sec == PUBLISH && rng.chance(2, 3) {
                props.push((0x0B, PV::Var(1 + rng.below(if few { 2 } else { 300 }) as u32)));
            } else if few {
                props.push((0x26, PV::Pair(vec![b'k'; rng.below(2)], vec![b'v'; rng.below(2)])));
            } else {
                let (a, b) = (gstr_n(rng, k % 4), gstr_n(rng, k % 3));
                props.push((0x26, PV::Pair(a, b)));
            }
        }
    };
    match &mut m.will {
        Some(w) if n % 2 == 0 => put(&mut w.props, WILL),
        _ => {
            if section_props(ty).contains(&0x26) {
                put(&mut m.props, ty);
            }
        }
    }
    m
}

/// Lists that are too long to be counted in 16 bits: 13 lists of user
/// properties, filters, codes and subscription identifiers.
pub const HUGE: u64 = 18 * 3;
pub fn huge_list(i: u64) -> M {
    let n = [65_700usize, 65_535, 70_001][(i / 18 % 3) as usize];
    match i % 18 {
        13 | 14 => {
            let mut m = host(if i % 18 == 13 { SUBSCRIBE } else { UNSUBSCRIBE });
            m.filters = (0..n).map(|k| Filt { path: vec![b'a'; k % 2], ..Filt::default() }).collect();
            m
        }
        15 | 16 => {
            let mut m = host(if i % 18 == 15 { SUBACK } else { UNSUBACK });
            let all = reason_codes(m.ty);
            m.codes = (0..n).map(|k| all[k % all.len()]).collect();
            m
        }
        17 => {
            let mut m = host(PUBLISH);
            m.props = (0..n).map(|k| (0x0B, PV::Var(1 + (k % 120) as u32))).collect();
            m
        }
        k => {
            let sec = SECTIONS[k as usize];
            let mut m = host(sec);
            let p = props_mut(&mut m, sec);
            p.extend((0..n).map(|k| (0x26, PV::Pair(vec![b'k'; k % 2], vec![b'v'; k / 2 % 2]))));
            m
        }
    }
}

/// The valid workload. `scale` (percent) shrinks the big sweeps.
pub fn families(thorough: bool, scale: u64) -> Vec<VFam> {
    let mut v = Vec::new();
    let sc = |n: u64| (n * scale / 100).max(1);
    v.push(vf("random", if thorough { sc(1_500_000) } else { sc(50_000) }, |rng, i| {
        // the richer the packet, the more of them
        const MIX: [u8; 24] = [1, 3, 1, 2, 3, 8, 1, 3, 14, 2, 4, 1, 3, 5, 9, 1, 10, 3, 6, 11, 7, 2, 8, 14];
        random_model(rng, MIX[(i % 24) as usize])
    }));
    v.push(vf("sparse", if thorough { sc(1_000_000) } else { sc(24_000) }, |rng, i| {
        const MIX: [u8; 20] = [1, 3, 1, 2, 3, 8, 1, 3, 14, 1, 4, 1, 3, 5, 9, 10, 6, 11, 7, 2];
        sparse(rng, MIX[(i % 20) as usize])
    }));
    v.push(vf("long-lists", if thorough { sc(40_000) } else { sc(800) }, |rng, i| long_model(rng, TYPES[(i % 14) as usize])));
    if scale >= 60 {
        v.push(vf("huge-lists", if thorough { HUGE } else { 18 }, |_, i| huge_list(i)));
    }
    let b = bases();
    v.push(vf("base", b.len() as u64, move |_, i| b[i as usize].clone()));

    // Which properties are present: every subset, for every section.
    for sec in SECTIONS {
        let ids = section_props(sec);
        let total = 1u64 << ids.len();
        let n = if thorough || scale >= 100 { total } else { total.min(sc(total).max(4096)) };
        v.push(vf(&format!("subset-{}", type_name(sec)), n, move |rng, i| {
            let mask = if n == total { i } else { rng.u64() & (total - 1) };
            let mut m = host(sec);
            let p = props_mut(&mut m, sec);
            for (b, &id) in ids.iter().enumerate() {
                if mask >> b & 1 == 1 {
                    p.push((id, small_val(id, (i % 10) as u8)));
                    if repeatable(sec, id) && i % 3 == 2 {
                        p.push((id, small_val(id, 11)));
                        p.push((id, small_val(id, 12)));
                    }
                }
            }
            if sec == WILL {
                m.user = vec![b'u'; (i % 3) as usize];
                m.pass = vec![b'p'; (i / 3 % 3) as usize];
            }
            m
        }));
    }

    // Every value of every 16-bit and 8-bit field; boundaries of the wider ones.
    let n16 = nums(Kind::U16);
    let per = if thorough || scale >= 200 { 65_536 } else { 65_536.min(sc(8192)) };
    v.push(vf("u16", n16.len() as u64 * per, move |rng, i| {
        let (f, x) = ((i / per) as usize, i % per);
        let val = if per == 65_536 || x < 600 {
            x
        } else if x < 1200 {
            65_535 - (x - 600)
        } else if x < 1200 + TYPICAL.len() as u64 {
            u64::from(TYPICAL[x as usize - 1200]) & 0xFFFF
        } else {
            rng.below(65_536) as u64
        };
        n16[f].put(val as u32)
    }));
    let n8 = nums(Kind::U8);
    v.push(vf("u8", n8.len() as u64 * 256, move |_, i| {
        n8[(i / 256) as usize].put((i % 256) as u32)
    }));
    let mut n32 = nums(Kind::U32);
    n32.extend(nums(Kind::Var));
    let mut vals = vec![0u32, 1, 2, 0xDEAD_BEEF, 0x0102_0304, u32::MAX - 1, u32::MAX];
    for t in TYPICAL {
        vals.extend([t - 1, t, t + 1]);
    }
    for d in 1..10u32 {
        let mut p = 1u32;
        while let Some(q) = p.checked_mul(10) {
            p = q;
            vals.extend(p.checked_mul(d));
        }
    }
    if scale >= 100 {
        vals.extend(256..if thorough { 70_000 } else { 4096 });
    }
    for p in 1..32 {
        for d in 0..4u32 {
            vals.push((1u32 << p).wrapping_add(d).wrapping_sub(2));
        }
    }
    for b in 0..4 {
        for x in 0..256u32 {
            vals.push(x << (8 * b));
        }
    }
    let nv = vals.len() as u64;
    v.push(vf("u32", n32.len() as u64 * nv, move |_, i| {
        n32[(i / nv) as usize].put(vals[(i % nv) as usize])
    }));
    let mut nw = nums(Kind::U32);
    nw.extend(nums(Kind::Var));
    let per = if thorough { sc(20_000) } else { sc(1000) };
    v.push(vf("u32-random", nw.len() as u64 * per, move |rng, i| {
        let x = (rng.u64() >> 32) as u32 >> rng.below(25);
        nw[(i / per) as usize].put(x)
    }));

    // Field lengths, for every string and binary field of every packet.
    let sl = slots();
    let fl = field_lengths(thorough, scale);
    let nl = fl.len() as u64;
    let total = sl.len() as u64 * nl;
    let step = if scale >= 100 { 1 } else { 100 / scale };
    v.push(vf("field-length", total / step, move |rng, i| {
        let k = i * step + rng.below(step as usize) as u64;
        let (s, l) = (sl[(k / nl) as usize], fl[(k % nl) as usize]);
        s.put(gstr_n(rng, l))
    }));
    // Two fields of one packet, long or short.
    let sl = slots();
    let mut pairs = Vec::new();
    for (k, a) in sl.iter().enumerate() {
        for b in &sl[k + 1..] {
            if a.put(vec![]).ty == b.put(vec![]).ty && a != b {
                pairs.push((*a, *b));
            }
        }
    }
    let np = pairs.len() as u64;
    v.push(vf("field-pairs", np * if thorough { 60 } else { sc(5) }, move |rng, i| {
        const L: [usize; 12] = [65_535, 65_534, 50_001, 40_000, 32_768, 32_767, 16_384, 255, 128, 127, 1, 0];
        let (a, b) = pairs[(i % np) as usize];
        let (x, y) = if i < np {
            (65_535 - rng.below(2), 65_535 - rng.below(2))
        } else if i / np % 2 == 0 {
            (*rng.pick(&L[..6]) - rng.below(3), *rng.pick(&L[..6]) - rng.below(3))
        } else {
            (*rng.pick(&L), *rng.pick(&L))
        };
        let mut m = a.put(vec![b'x'; x]);
        b.put_in(&mut m, vec![b'y'; y]);
        m
    }));
    // Field content: whole repertoire of characters in every text field.
    let sl = slots();
    let per = if thorough { 2000 } else { sc(100) };
    v.push(vf("field-content", sl.len() as u64 * per, move |rng, i| {
        let s = sl[(i / per) as usize];
        let n = rng.range(1, 24);
        s.put(gstr_n(rng, n))
    }));

    // Remaining length on both sides of every size class.
    let bl = boundary_lengths(if scale >= 50 { 3_000_000 } else { 70_000 });
    let bl: Vec<usize> = bl.into_iter().filter(|n| *n >= 3).collect();
    let nb = bl.len() as u64;
    v.push(vf("remaining-length", nb * 3, move |rng, i| with_remaining(bl[(i % nb) as usize], rng)));
    let bl: Vec<usize> = boundary_lengths(70_000).into_iter().filter(|n| *n == 0 || *n >= 5).collect();
    let nb = bl.len() as u64;
    v.push(vf("property-length", nb * 13, move |rng, i| {
        with_prop_len(SECTIONS[(i / nb) as usize], bl[(i % nb) as usize], rng)
    }));
    if scale >= 50 {
        v.push(vf("property-length-large", 13 * 6, move |rng, i| {
            with_prop_len(SECTIONS[(i % 13) as usize], 2_097_149 + (i / 13) as usize, rng)
        }));
    }
    // Small remaining lengths, densely.
    v.push(vf("remaining-small", 700, |rng, i| with_remaining(3 + i as usize, rng)));
    v.push(vf("property-small", 13 * 296, |rng, i| {
        with_prop_len(SECTIONS[(i % 13) as usize], 5 + (i / 13) as usize, rng)
    }));

    // How many: user properties, subscription identifiers, filters, codes.
    let dense = if scale >= 100 { 300 } else { 30 };
    v.push(vf("count-user-properties", 13 * (dense as u64 + 10), move |rng, i| {
        let sec = SECTIONS[(i % 13) as usize];
        let n = (i / 13) as usize;
        let n = if n < dense { n } else { dense + (n - dense + 1) * (n - dense + 1) * 7 };
        let mut m = host(sec);
        for k in 0..n {
            let key = gstr_n(rng, k % 5);
            let val = gstr_n(rng, (k * 7) % 11);
            props_mut(&mut m, sec).push((0x26, PV::Pair(key, val)));
        }
        m
    }));
    // Repeated items that are alike.
    v.push(vf("repeats", if thorough { sc(200_000) } else { sc(4000) }, |rng, i| {
        let sec = SECTIONS[(i % 13) as usize];
        let mut m = host(sec);
        let n = 2 + (i / 13 % 7) as usize;
        let ids: Vec<u8> = section_props(sec).iter().copied().filter(|x| repeatable(sec, *x)).collect();
        for _ in 0..n {
            for &id in &ids {
                props_mut(&mut m, sec).push((id, small_val(id, rng.below(3) as u8)));
            }
        }
        for &id in &ids {
            repeat_some(rng, props_mut(&mut m, sec), id);
        }
        if m.filters.len() == 1 {
            for _ in 0..n {
                let p = *rng.pick(&[&b"f"[..], b"g", b""]);
                let f = if m.ty == SUBSCRIBE { gfilt_small(rng) } else { Filt::default() };
                m.filters.push(Filt { path: p.to_vec(), ..f });
            }
        }
        if m.codes.len() == 1 {
            m.codes = vec![*rng.pick(reason_codes(m.ty)); n];
        }
        m
    }));
    let sl: Vec<Slot> = slots();
    let ns = SPECIAL.len() as u64;
    v.push(vf("special-texts", sl.len() as u64 * ns, move |_, i| {
        sl[(i / ns) as usize].put(SPECIAL[(i % ns) as usize].as_bytes().to_vec())
    }));
    // Two long fields in one packet.
    v.push(vf("long-pairs", 13 * sc(12), |rng, i| {
        let sec = SECTIONS[(i % 13) as usize];
        let mut m = host(sec);
        let (a, b) = (65_535 - rng.below(3), *rng.pick(&[0usize, 1, 32_767, 65_534, 65_535]));
        let (a, b) = if rng.bool() { (a, b) } else { (b, a) };
        let p = PV::Pair(gstr_n(rng, a), gstr_n(rng, b));
        props_mut(&mut m, sec).push((0x26, p));
        m
    }));
    v.push(vf("count-subscription-ids", 320, |rng, i| {
        let mut m = host(PUBLISH);
        for _ in 0..i {
            m.props.push((0x0B, PV::Var(gvar(rng))));
        }
        if i % 2 == 1 {
            m.props.push((0x26, PV::Pair(b"k".to_vec(), b"v".to_vec())));
        }
        m
    }));
    v.push(vf("count-filters", 2 * 340, |rng, i| {
        let t = if i % 2 == 0 { SUBSCRIBE } else { UNSUBSCRIBE };
        let mut m = host(t);
        m.filters = (0..=i / 2)
            .map(|k| {
                let path = gstr_n(rng, (k as usize * 3) % 8);
                if t == SUBSCRIBE {
                    Filt { path, ..gfilt_small(rng) }
                } else {
                    Filt { path, ..Filt::default() }
                }
            })
            .collect();
        m
    }));
    v.push(vf("count-codes", 2 * 340, |rng, i| {
        let t = if i % 2 == 0 { SUBACK } else { UNSUBACK };
        let mut m = host(t);
        m.codes = (0..=i / 2).map(|_| *rng.pick(reason_codes(t))).collect();
        m
    }));
    // Every reason code, with and without properties.
    let mut cs = Vec::new();
    for t in [CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT] {
        for &c in reason_codes(t) {
            for k in 0..4u8 {
                let mut m = host(t);
                if t == SUBACK || t == UNSUBACK {
                    m.codes = if k & 2 == 0 { vec![c] } else { vec![0, c, 0x80] };
                } else {
                    m.code = c;
                    m.session_present = t == CONNACK && k & 2 == 2;
                }
                if k & 1 == 1 {
                    m.props.push((0x1F, PV::Str(b"why".to_vec())));
                }
                cs.push(m);
            }
        }
    }
    v.push(vf("reason-codes", cs.len() as u64, move |_, i| cs[i as usize].clone()));
    // Every combination of the flags.
    let mut fs = Vec::new();
    for k in 0..(2 * 7 * 3 * 3 * 2 * 2) {
        let mut m = host(CONNECT);
        m.clean = k % 2 == 1;
        let (w, k) = ((k / 2) % 7, k / 14);
        if w > 0 {
            m.will = Some(Will {
                topic: b"wt".to_vec(),
                message: if k % 2 == 0 { vec![] } else { b"wm".to_vec() },
                qos: ((w - 1) % 3) as u8,
                retain: w > 3,
                props: vec![],
            });
        }
        m.user = vec![b'u'; k % 3];
        m.pass = vec![b'p'; k / 3 % 3];
        if k / 9 % 2 == 1 {
            m.props.push((0x11, PV::U32(9)));
        }
        if k / 18 % 2 == 1 {
            if let Some(w) = &mut m.will {
                w.props.push((0x18, PV::U32(3)));
            }
        }
        fs.push(m);
    }
    for k in 0..12u8 {
        let mut m = host(PUBLISH);
        m.qos = k % 3;
        m.dup = k / 3 % 2 == 1;
        m.retain = k / 6 == 1;
        fs.push(m.clone());
        m.payload.clear();
        fs.push(m.clone());
        m.name.clear();
        fs.push(m);
    }
    for k in 0..36u8 {
        let mut m = host(SUBSCRIBE);
        let f = Filt {
            path: b"f/+".to_vec(),
            qos: k % 3,
            nolocal: k / 3 % 2 == 1,
            rap: k / 6 % 2 == 1,
            rule: k / 12,
        };
        m.filters = vec![f.clone()];
        fs.push(m.clone());
        m.filters.push(Filt { qos: 1, path: b"g".to_vec(), ..Filt::default() });
        m.filters.push(f);
        fs.push(m);
    }
    v.push(vf("flags", fs.len() as u64, move |_, i| fs[i as usize].clone()));
    v
}

fn gfilt_small(rng: &mut Rng) -> Filt {
    Filt {
        path: vec![],
        qos: rng.below(3) as u8,
        nolocal: rng.bool(),
        rap: rng.bool(),
        rule: rng.below(3) as u8,
    }
}
