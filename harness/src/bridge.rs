//! Conversion between the monitor's model and the library's public types.

use crate::model::*;
use crate::tables::*;
use bytes::Bytes;
use mqtt_bytes_v5::*;

#[cfg(feature = "boxed_string")]
pub type S = Box<str>;
#[cfg(feature = "binary_string")]
pub type S = Bytes;
#[cfg(feature = "cow_string")]
pub type S = std::borrow::Cow<'static, str>;
#[cfg(not(any(feature = "boxed_string", feature = "binary_string", feature = "cow_string")))]
pub type S = String;

#[cfg(feature = "boxed_string")]
pub const CONFIG: &str = "boxed_string";
#[cfg(feature = "binary_string")]
pub const CONFIG: &str = "binary_string";
#[cfg(feature = "cow_string")]
pub const CONFIG: &str = "cow_string";
#[cfg(not(any(feature = "boxed_string", feature = "binary_string", feature = "cow_string")))]
pub const CONFIG: &str = "default";

/// Strings of this configuration are text (must be UTF-8).
pub const TEXT: bool = !cfg!(feature = "binary_string");

#[cfg(feature = "binary_string")]
pub fn mk(b: &[u8]) -> S {
    Bytes::copy_from_slice(b)
}
#[cfg(not(feature = "binary_string"))]
pub fn mk(b: &[u8]) -> S {
    String::from_utf8(b.to_vec()).expect("harness: model string is not UTF-8").into()
}

#[cfg(feature = "binary_string")]
pub fn sb(s: &S) -> &[u8] {
    s
}
#[cfg(not(feature = "binary_string"))]
pub fn sb(s: &S) -> &[u8] {
    s.as_bytes()
}

pub fn qos_to(q: u8) -> QoS {
    match q {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        2 => QoS::ExactlyOnce,
        _ => panic!("harness: qos {q}"),
    }
}

pub fn qos_from(q: QoS) -> u8 {
    match q {
        QoS::AtMostOnce => 0,
        QoS::AtLeastOnce => 1,
        QoS::ExactlyOnce => 2,
    }
}

fn rule_to(r: u8) -> RetainForwardRule {
    match r {
        0 => RetainForwardRule::OnEverySubscribe,
        1 => RetainForwardRule::OnNewSubscribe,
        2 => RetainForwardRule::Never,
        _ => panic!("harness: rule {r}"),
    }
}

fn rule_from(r: &RetainForwardRule) -> u8 {
    match r {
        RetainForwardRule::OnEverySubscribe => 0,
        RetainForwardRule::OnNewSubscribe => 1,
        RetainForwardRule::Never => 2,
    }
}

pub fn code_to<T: Clone>(t: &[(u8, T)], c: u8) -> T {
    t.iter().find(|x| x.0 == c).expect("harness: reason code").1.clone()
}

/// 0xFE stands for a variant MQTT 5 has no code for.
pub fn code_from<T: PartialEq>(t: &[(u8, T)], v: &T) -> u8 {
    t.iter().find(|x| x.1 == *v).map_or(0xFE, |x| x.0)
}

pub fn filter_to(f: &Filt) -> Filter {
    Filter {
        path: mk(&f.path),
        qos: qos_to(f.qos),
        nolocal: f.nolocal,
        preserve_retain: f.rap,
        retain_forward_rule: rule_to(f.rule),
    }
}

pub fn filter_from(f: &Filter) -> Filt {
    Filt {
        path: sb(&f.path).to_vec(),
        qos: qos_from(f.qos),
        nolocal: f.nolocal,
        rap: f.preserve_retain,
        rule: rule_from(&f.retain_forward_rule),
    }
}

pub fn will_to(w: &Will, keep_empty: bool) -> LastWill {
    LastWill {
        topic: Bytes::copy_from_slice(&w.topic),
        message: Bytes::copy_from_slice(&w.message),
        qos: qos_to(w.qos),
        retain: w.retain,
        properties: will_props_to(&w.props, keep_empty),
    }
}

pub fn will_from(w: &LastWill) -> Will {
    Will {
        topic: w.topic.to_vec(),
        message: w.message.to_vec(),
        qos: qos_from(w.qos),
        retain: w.retain,
        props: will_props_from(&w.properties),
    }
}

/// `keep_empty`: represent "no properties"/"no login" as present-but-empty.
pub fn to_packet(m: &M, keep_empty: bool) -> Packet {
    let e = keep_empty;
    match m.ty {
        CONNECT => Packet::Connect(
            Connect {
                keep_alive: m.keep_alive,
                client_id: mk(&m.name),
                clean_start: m.clean,
                properties: connect_props_to(&m.props, e),
            },
            m.will.as_ref().map(|w| will_to(w, e)),
            if m.user.is_empty() && m.pass.is_empty() && !e {
                None
            } else {
                Some(Login { username: mk(&m.user), password: mk(&m.pass) })
            },
        ),
        CONNACK => Packet::ConnAck(ConnAck {
            session_present: m.session_present,
            code: code_to(CONNACK_CODES, m.code),
            properties: connack_props_to(&m.props, e),
        }),
        PUBLISH => Packet::Publish(Publish {
            dup: m.dup,
            qos: qos_to(m.qos),
            retain: m.retain,
            topic: mk(&m.name),
            pkid: m.pkid,
            payload: Bytes::copy_from_slice(&m.payload),
            properties: publish_props_to(&m.props, e),
        }),
        PUBACK => Packet::PubAck(PubAck {
            pkid: m.pkid,
            reason: code_to(PUBACK_CODES, m.code),
            properties: puback_props_to(&m.props, e),
        }),
        PUBREC => Packet::PubRec(PubRec {
            pkid: m.pkid,
            reason: code_to(PUBREC_CODES, m.code),
            properties: pubrec_props_to(&m.props, e),
        }),
        PUBREL => Packet::PubRel(PubRel {
            pkid: m.pkid,
            reason: code_to(PUBREL_CODES, m.code),
            properties: pubrel_props_to(&m.props, e),
        }),
        PUBCOMP => Packet::PubComp(PubComp {
            pkid: m.pkid,
            reason: code_to(PUBCOMP_CODES, m.code),
            properties: pubcomp_props_to(&m.props, e),
        }),
        SUBSCRIBE => Packet::Subscribe(Subscribe {
            pkid: m.pkid,
            filters: m.filters.iter().map(filter_to).collect(),
            properties: subscribe_props_to(&m.props, e),
        }),
        SUBACK => Packet::SubAck(SubAck {
            pkid: m.pkid,
            return_codes: m.codes.iter().map(|&c| code_to(SUBACK_CODES, c)).collect(),
            properties: suback_props_to(&m.props, e),
        }),
        UNSUBSCRIBE => Packet::Unsubscribe(Unsubscribe {
            pkid: m.pkid,
            filters: m.filters.iter().map(|f| mk(&f.path)).collect(),
            properties: unsubscribe_props_to(&m.props, e),
        }),
        UNSUBACK => Packet::UnsubAck(UnsubAck {
            pkid: m.pkid,
            reasons: m.codes.iter().map(|&c| code_to(UNSUBACK_CODES, c)).collect(),
            properties: unsuback_props_to(&m.props, e),
        }),
        PINGREQ => Packet::PingReq(PingReq),
        PINGRESP => Packet::PingResp(PingResp),
        DISCONNECT => Packet::Disconnect(Disconnect {
            reason_code: code_to(DISCONNECT_CODES, m.code),
            properties: disconnect_props_to(&m.props, e),
        }),
        _ => panic!("harness: type {}", m.ty),
    }
}

/// Content of a packet value; absent and empty properties/login are the same.
pub fn from_packet(p: &Packet) -> M {
    let mut m = M::default();
    match p {
        Packet::Connect(c, w, l) => {
            m.ty = CONNECT;
            m.keep_alive = c.keep_alive;
            m.name = sb(&c.client_id).to_vec();
            m.clean = c.clean_start;
            m.props = connect_props_from(&c.properties);
            m.will = w.as_ref().map(will_from);
            if let Some(l) = l {
                m.user = sb(&l.username).to_vec();
                m.pass = sb(&l.password).to_vec();
            }
        }
        Packet::ConnAck(c) => {
            m.ty = CONNACK;
            m.session_present = c.session_present;
            m.code = code_from(CONNACK_CODES, &c.code);
            m.props = connack_props_from(&c.properties);
        }
        Packet::Publish(p) => {
            m.ty = PUBLISH;
            m.dup = p.dup;
            m.qos = qos_from(p.qos);
            m.retain = p.retain;
            m.pkid = p.pkid;
            m.name = sb(&p.topic).to_vec();
            m.payload = p.payload.to_vec();
            m.props = publish_props_from(&p.properties);
        }
        Packet::PubAck(a) => {
            (m.ty, m.pkid, m.code) = (PUBACK, a.pkid, code_from(PUBACK_CODES, &a.reason));
            m.props = puback_props_from(&a.properties);
        }
        Packet::PubRec(a) => {
            (m.ty, m.pkid, m.code) = (PUBREC, a.pkid, code_from(PUBREC_CODES, &a.reason));
            m.props = pubrec_props_from(&a.properties);
        }
        Packet::PubRel(a) => {
            (m.ty, m.pkid, m.code) = (PUBREL, a.pkid, code_from(PUBREL_CODES, &a.reason));
            m.props = pubrel_props_from(&a.properties);
        }
        Packet::PubComp(a) => {
            (m.ty, m.pkid, m.code) = (PUBCOMP, a.pkid, code_from(PUBCOMP_CODES, &a.reason));
            m.props = pubcomp_props_from(&a.properties);
        }
        Packet::Subscribe(s) => {
            (m.ty, m.pkid) = (SUBSCRIBE, s.pkid);
            m.filters = s.filters.iter().map(filter_from).collect();
            m.props = subscribe_props_from(&s.properties);
        }
        Packet::SubAck(s) => {
            (m.ty, m.pkid) = (SUBACK, s.pkid);
            m.codes = s.return_codes.iter().map(|c| code_from(SUBACK_CODES, c)).collect();
            m.props = suback_props_from(&s.properties);
        }
        Packet::Unsubscribe(u) => {
            (m.ty, m.pkid) = (UNSUBSCRIBE, u.pkid);
            m.filters = u
                .filters
                .iter()
                .map(|f| Filt { path: sb(f).to_vec(), ..Filt::default() })
                .collect();
            m.props = unsubscribe_props_from(&u.properties);
        }
        Packet::UnsubAck(u) => {
            (m.ty, m.pkid) = (UNSUBACK, u.pkid);
            m.codes = u.reasons.iter().map(|c| code_from(UNSUBACK_CODES, c)).collect();
            m.props = unsuback_props_from(&u.properties);
        }
        Packet::PingReq(_) => m.ty = PINGREQ,
        Packet::PingResp(_) => m.ty = PINGRESP,
        Packet::Disconnect(d) => {
            (m.ty, m.code) = (DISCONNECT, code_from(DISCONNECT_CODES, &d.reason_code));
            m.props = disconnect_props_from(&d.properties);
        }
    }
    m.norm()
}

/// `size()` of the packet where the library offers one.
pub fn size_of(p: &Packet) -> Option<usize> {
    Some(match p {
        Packet::Connect(..) | Packet::PingReq(_) | Packet::PingResp(_) => return None,
        Packet::ConnAck(x) => x.size(),
        Packet::Publish(x) => x.size(),
        Packet::PubAck(x) => x.size(),
        Packet::PubRec(x) => x.size(),
        Packet::PubRel(x) => x.size(),
        Packet::PubComp(x) => x.size(),
        Packet::Subscribe(x) => x.size(),
        Packet::SubAck(x) => x.size(),
        Packet::Unsubscribe(x) => x.size(),
        Packet::UnsubAck(x) => x.size(),
        Packet::Disconnect(x) => x.size(),
    })
}

/// The writer of the packet's own type.
pub fn typed_write(p: &Packet, b: &mut bytes::BytesMut) -> Result<usize, Error> {
    match p {
        Packet::Connect(c, w, l) => c.write(w, l, b),
        Packet::ConnAck(x) => x.write(b),
        Packet::Publish(x) => x.write(b),
        Packet::PubAck(x) => x.write(b),
        Packet::PubRec(x) => x.write(b),
        Packet::PubRel(x) => x.write(b),
        Packet::PubComp(x) => x.write(b),
        Packet::Subscribe(x) => x.write(b),
        Packet::SubAck(x) => x.write(b),
        Packet::Unsubscribe(x) => x.write(b),
        Packet::UnsubAck(x) => x.write(b),
        Packet::PingReq(_) => PingReq::write(b),
        Packet::PingResp(_) => PingResp::write(b),
        Packet::Disconnect(x) => x.write(b),
    }
}

/// The reader of packet type `ty` on a frame (header from `check`).
pub fn typed_read(ty: u8, h: FixedHeader, b: Bytes) -> Option<Result<Packet, Error>> {
    Some(match ty {
        CONNECT => Connect::read(h, b).map(|(c, w, l)| Packet::Connect(c, w, l)),
        CONNACK => ConnAck::read(h, b).map(Packet::ConnAck),
        PUBLISH => Publish::read(h, b).map(Packet::Publish),
        PUBACK => PubAck::read(h, b).map(Packet::PubAck),
        PUBREC => PubRec::read(h, b).map(Packet::PubRec),
        PUBREL => PubRel::read(h, b).map(Packet::PubRel),
        PUBCOMP => PubComp::read(h, b).map(Packet::PubComp),
        SUBSCRIBE => Subscribe::read(h, b).map(Packet::Subscribe),
        SUBACK => SubAck::read(h, b).map(Packet::SubAck),
        UNSUBSCRIBE => Unsubscribe::read(h, b).map(Packet::Unsubscribe),
        UNSUBACK => UnsubAck::read(h, b).map(Packet::UnsubAck),
        DISCONNECT => Disconnect::read(h, b).map(Packet::Disconnect),
        _ => return None,
    })
}
