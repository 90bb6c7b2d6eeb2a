//! The monitor's own picture of an MQTT 5 packet and of the tables of the OASIS
//! standard. Nothing here is derived from the code under test.

pub const CONNECT: u8 = 1;
pub const CONNACK: u8 = 2;
pub const PUBLISH: u8 = 3;
pub const PUBACK: u8 = 4;
pub const PUBREC: u8 = 5;
pub const PUBREL: u8 = 6;
pub const PUBCOMP: u8 = 7;
pub const SUBSCRIBE: u8 = 8;
pub const SUBACK: u8 = 9;
pub const UNSUBSCRIBE: u8 = 10;
pub const UNSUBACK: u8 = 11;
pub const PINGREQ: u8 = 12;
pub const PINGRESP: u8 = 13;
pub const DISCONNECT: u8 = 14;
/// Pseudo section: the properties of the will message inside CONNECT.
pub const WILL: u8 = 16;

pub const TYPES: [u8; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
/// Every place that carries a property section.
pub const SECTIONS: [u8; 13] = [
    CONNECT, WILL, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK,
    UNSUBSCRIBE, UNSUBACK, DISCONNECT,
];

pub fn type_name(t: u8) -> &'static str {
    match t {
        1 => "CONNECT",
        2 => "CONNACK",
        3 => "PUBLISH",
        4 => "PUBACK",
        5 => "PUBREC",
        6 => "PUBREL",
        7 => "PUBCOMP",
        8 => "SUBSCRIBE",
        9 => "SUBACK",
        10 => "UNSUBSCRIBE",
        11 => "UNSUBACK",
        12 => "PINGREQ",
        13 => "PINGRESP",
        14 => "DISCONNECT",
        16 => "WILL",
        _ => "reserved",
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PV {
    U8(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Bin(Vec<u8>),
    Str(Vec<u8>),
    Pair(Vec<u8>, Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    U8,
    U16,
    U32,
    Var,
    Bin,
    Str,
    Pair,
}

/// Table 2-4 of the standard: wire type of each property identifier.
pub fn prop_kind(id: u8) -> Option<Kind> {
    Some(match id {
        0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2A => Kind::U8,
        0x13 | 0x21 | 0x22 | 0x23 => Kind::U16,
        0x02 | 0x11 | 0x18 | 0x27 => Kind::U32,
        0x0B => Kind::Var,
        0x09 | 0x16 => Kind::Bin,
        0x03 | 0x08 | 0x12 | 0x15 | 0x1A | 0x1C | 0x1F => Kind::Str,
        0x26 => Kind::Pair,
        _ => return None,
    })
}

/// Table 2-4 of the standard: which properties each packet may carry.
pub fn section_props(sec: u8) -> &'static [u8] {
    match sec {
        CONNECT => &[0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x26, 0x15, 0x16],
        WILL => &[0x18, 0x01, 0x02, 0x03, 0x08, 0x09, 0x26],
        CONNACK => &[
            0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1F, 0x26, 0x28, 0x29, 0x2A, 0x13, 0x1A,
            0x1C, 0x15, 0x16,
        ],
        PUBLISH => &[0x01, 0x02, 0x23, 0x08, 0x09, 0x26, 0x0B, 0x03],
        PUBACK | PUBREC | PUBREL | PUBCOMP | SUBACK | UNSUBACK => &[0x1F, 0x26],
        SUBSCRIBE => &[0x0B, 0x26],
        UNSUBSCRIBE => &[0x26],
        DISCONNECT => &[0x11, 0x1F, 0x26, 0x1C],
        _ => &[],
    }
}

/// Properties that may legally occur more than once in that section.
pub fn repeatable(sec: u8, id: u8) -> bool {
    id == 0x26 || (id == 0x0B && sec == PUBLISH)
}

/// Reason codes the standard lists for each packet.
pub fn reason_codes(ty: u8) -> &'static [u8] {
    match ty {
        CONNACK => &[
            0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90,
            0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F,
        ],
        PUBACK | PUBREC => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        PUBREL | PUBCOMP => &[0x00, 0x92],
        SUBACK => &[
            0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2,
        ],
        UNSUBACK => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91],
        DISCONNECT => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93,
            0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1,
            0xA2,
        ],
        _ => &[],
    }
}

pub type Props = Vec<(u8, PV)>;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Will {
    pub topic: Vec<u8>,
    pub message: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Filt {
    pub path: Vec<u8>,
    pub qos: u8,
    pub nolocal: bool,
    pub rap: bool,
    pub rule: u8,
}

/// One flat packet; fields that the type does not have stay at their default.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct M {
    pub ty: u8,
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub pkid: u16,
    pub code: u8,
    pub session_present: bool,
    pub clean: bool,
    pub keep_alive: u16,
    /// Client identifier (CONNECT) or topic name (PUBLISH).
    pub name: Vec<u8>,
    pub payload: Vec<u8>,
    pub props: Props,
    pub will: Option<Will>,
    pub user: Vec<u8>,
    pub pass: Vec<u8>,
    pub filters: Vec<Filt>,
    pub codes: Vec<u8>,
}

pub fn norm_props(p: &mut Props) {
    p.sort_by_key(|x| x.0); // stable: order of repeated properties is kept
}

impl M {
    pub fn new(ty: u8) -> M {
        M { ty, ..M::default() }
    }
    /// Content equality ignores the order of *different* properties and, for
    /// QoS 0, the packet identifier the wire cannot carry.
    pub fn norm(mut self) -> M {
        norm_props(&mut self.props);
        if let Some(w) = &mut self.will {
            norm_props(&mut w.props);
        }
        if self.ty == PUBLISH && self.qos == 0 {
            self.pkid = 0;
        }
        self
    }
    pub fn brief(&self) -> String {
        let b = |v: &[u8]| -> String {
            if v.len() <= 24 {
                String::from_utf8_lossy(v).escape_debug().to_string()
            } else {
                format!("<{} bytes>", v.len())
            }
        };
        let ps = |p: &Props| -> String {
            let mut s = String::new();
            for (i, (id, v)) in p.iter().enumerate() {
                if i == 6 {
                    s += &format!(" ...{} props", p.len());
                    break;
                }
                let t = match v {
                    PV::U8(x) => x.to_string(),
                    PV::U16(x) => x.to_string(),
                    PV::U32(x) | PV::Var(x) => x.to_string(),
                    PV::Bin(x) | PV::Str(x) => b(x),
                    PV::Pair(x, y) => format!("{}={}", b(x), b(y)),
                };
                s += &format!(" {id:#04x}:{t}");
            }
            s
        };
        let mut s = type_name(self.ty).to_string();
        match self.ty {
            CONNECT => {
                s += &format!(
                    " id={} clean={} ka={} user={} pass={}",
                    b(&self.name), self.clean, self.keep_alive, b(&self.user), b(&self.pass)
                );
                if let Some(w) = &self.will {
                    s += &format!(
                        " will(topic={} msg={} qos={} retain={} props[{}])",
                        b(&w.topic), b(&w.message), w.qos, w.retain, ps(&w.props)
                    );
                }
            }
            CONNACK => s += &format!(" sp={} code={:#x}", self.session_present, self.code),
            PUBLISH => {
                s += &format!(
                    " dup={} qos={} retain={} pkid={} topic={} payload={}",
                    self.dup, self.qos, self.retain, self.pkid, b(&self.name), b(&self.payload)
                );
            }
            PUBACK..=PUBCOMP => s += &format!(" pkid={} code={:#x}", self.pkid, self.code),
            SUBSCRIBE | UNSUBSCRIBE => {
                s += &format!(" pkid={} filters={}", self.pkid, self.filters.len());
                if let Some(f) = self.filters.first() {
                    s += &format!(
                        " first({} q{} nl={} rap={} rh={})",
                        b(&f.path), f.qos, f.nolocal, f.rap, f.rule
                    );
                }
            }
            SUBACK | UNSUBACK => {
                s += &format!(" pkid={} codes={:x?}", self.pkid, &self.codes[..self.codes.len().min(8)]);
            }
            DISCONNECT => s += &format!(" code={:#x}", self.code),
            _ => {}
        }
        s + " props[" + &ps(&self.props) + "]"
    }
}
