//! Field-by-field correspondence between the model and the public types of the
//! library: which field is which property identifier, which variant is which
//! reason code (both from the OASIS standard, by name).

use crate::bridge::{mk, sb};
use crate::model::{Props, PV};
use bytes::Bytes;
use mqtt_bytes_v5::*;

pub const CONNACK_CODES: &[(u8, ConnectReturnCode)] = &[
    (0x00, ConnectReturnCode::Success),
    (0x80, ConnectReturnCode::UnspecifiedError),
    (0x81, ConnectReturnCode::MalformedPacket),
    (0x82, ConnectReturnCode::ProtocolError),
    (0x83, ConnectReturnCode::ImplementationSpecificError),
    (0x84, ConnectReturnCode::UnsupportedProtocolVersion),
    (0x85, ConnectReturnCode::ClientIdentifierNotValid),
    (0x86, ConnectReturnCode::BadUserNamePassword),
    (0x87, ConnectReturnCode::NotAuthorized),
    (0x88, ConnectReturnCode::ServerUnavailable),
    (0x89, ConnectReturnCode::ServerBusy),
    (0x8a, ConnectReturnCode::Banned),
    (0x8c, ConnectReturnCode::BadAuthenticationMethod),
    (0x90, ConnectReturnCode::TopicNameInvalid),
    (0x95, ConnectReturnCode::PacketTooLarge),
    (0x97, ConnectReturnCode::QuotaExceeded),
    (0x99, ConnectReturnCode::PayloadFormatInvalid),
    (0x9a, ConnectReturnCode::RetainNotSupported),
    (0x9b, ConnectReturnCode::QoSNotSupported),
    (0x9c, ConnectReturnCode::UseAnotherServer),
    (0x9d, ConnectReturnCode::ServerMoved),
    (0x9f, ConnectReturnCode::ConnectionRateExceeded),
];
pub const PUBACK_CODES: &[(u8, PubAckReason)] = &[
    (0x00, PubAckReason::Success),
    (0x10, PubAckReason::NoMatchingSubscribers),
    (0x80, PubAckReason::UnspecifiedError),
    (0x83, PubAckReason::ImplementationSpecificError),
    (0x87, PubAckReason::NotAuthorized),
    (0x90, PubAckReason::TopicNameInvalid),
    (0x91, PubAckReason::PacketIdentifierInUse),
    (0x97, PubAckReason::QuotaExceeded),
    (0x99, PubAckReason::PayloadFormatInvalid),
];
pub const PUBREC_CODES: &[(u8, PubRecReason)] = &[
    (0x00, PubRecReason::Success),
    (0x10, PubRecReason::NoMatchingSubscribers),
    (0x80, PubRecReason::UnspecifiedError),
    (0x83, PubRecReason::ImplementationSpecificError),
    (0x87, PubRecReason::NotAuthorized),
    (0x90, PubRecReason::TopicNameInvalid),
    (0x91, PubRecReason::PacketIdentifierInUse),
    (0x97, PubRecReason::QuotaExceeded),
    (0x99, PubRecReason::PayloadFormatInvalid),
];
pub const PUBREL_CODES: &[(u8, PubRelReason)] = &[
    (0x00, PubRelReason::Success),
    (0x92, PubRelReason::PacketIdentifierNotFound),
];
pub const PUBCOMP_CODES: &[(u8, PubCompReason)] = &[
    (0x00, PubCompReason::Success),
    (0x92, PubCompReason::PacketIdentifierNotFound),
];
pub const SUBACK_CODES: &[(u8, SubscribeReasonCode)] = &[
    (0x00, SubscribeReasonCode::Success(QoS::AtMostOnce)),
    (0x01, SubscribeReasonCode::Success(QoS::AtLeastOnce)),
    (0x02, SubscribeReasonCode::Success(QoS::ExactlyOnce)),
    (0x80, SubscribeReasonCode::Unspecified),
    (0x83, SubscribeReasonCode::ImplementationSpecific),
    (0x87, SubscribeReasonCode::NotAuthorized),
    (0x8f, SubscribeReasonCode::TopicFilterInvalid),
    (0x91, SubscribeReasonCode::PkidInUse),
    (0x97, SubscribeReasonCode::QuotaExceeded),
    (0x9e, SubscribeReasonCode::SharedSubscriptionsNotSupported),
    (0xa1, SubscribeReasonCode::SubscriptionIdNotSupported),
    (0xa2, SubscribeReasonCode::WildcardSubscriptionsNotSupported),
];
pub const UNSUBACK_CODES: &[(u8, UnsubAckReason)] = &[
    (0x00, UnsubAckReason::Success),
    (0x11, UnsubAckReason::NoSubscriptionExisted),
    (0x80, UnsubAckReason::UnspecifiedError),
    (0x83, UnsubAckReason::ImplementationSpecificError),
    (0x87, UnsubAckReason::NotAuthorized),
    (0x8f, UnsubAckReason::TopicFilterInvalid),
    (0x91, UnsubAckReason::PacketIdentifierInUse),
];
pub const DISCONNECT_CODES: &[(u8, DisconnectReasonCode)] = &[
    (0x00, DisconnectReasonCode::NormalDisconnection),
    (0x04, DisconnectReasonCode::DisconnectWithWillMessage),
    (0x80, DisconnectReasonCode::UnspecifiedError),
    (0x81, DisconnectReasonCode::MalformedPacket),
    (0x82, DisconnectReasonCode::ProtocolError),
    (0x83, DisconnectReasonCode::ImplementationSpecificError),
    (0x87, DisconnectReasonCode::NotAuthorized),
    (0x89, DisconnectReasonCode::ServerBusy),
    (0x8b, DisconnectReasonCode::ServerShuttingDown),
    (0x8d, DisconnectReasonCode::KeepAliveTimeout),
    (0x8e, DisconnectReasonCode::SessionTakenOver),
    (0x8f, DisconnectReasonCode::TopicFilterInvalid),
    (0x90, DisconnectReasonCode::TopicNameInvalid),
    (0x93, DisconnectReasonCode::ReceiveMaximumExceeded),
    (0x94, DisconnectReasonCode::TopicAliasInvalid),
    (0x95, DisconnectReasonCode::PacketTooLarge),
    (0x96, DisconnectReasonCode::MessageRateTooHigh),
    (0x97, DisconnectReasonCode::QuotaExceeded),
    (0x98, DisconnectReasonCode::AdministrativeAction),
    (0x99, DisconnectReasonCode::PayloadFormatInvalid),
    (0x9a, DisconnectReasonCode::RetainNotSupported),
    (0x9b, DisconnectReasonCode::QoSNotSupported),
    (0x9c, DisconnectReasonCode::UseAnotherServer),
    (0x9d, DisconnectReasonCode::ServerMoved),
    (0x9e, DisconnectReasonCode::SharedSubscriptionNotSupported),
    (0x9f, DisconnectReasonCode::ConnectionRateExceeded),
    (0xa0, DisconnectReasonCode::MaximumConnectTime),
    (0xa1, DisconnectReasonCode::SubscriptionIdentifiersNotSupported),
    (0xa2, DisconnectReasonCode::WildcardSubscriptionsNotSupported),
];

pub fn connect_props_to(ps: &Props, keep_empty: bool) -> Option<ConnectProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = ConnectProperties {
        session_expiry_interval: None,
        receive_maximum: None,
        max_packet_size: None,
        topic_alias_max: None,
        request_response_info: None,
        request_problem_info: None,
        user_properties: Vec::new(),
        authentication_method: None,
        authentication_data: None,
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x11, PV::U32(x)) => p.session_expiry_interval = Some(*x),
            (0x21, PV::U16(x)) => p.receive_maximum = Some(*x),
            (0x27, PV::U32(x)) => p.max_packet_size = Some(*x),
            (0x22, PV::U16(x)) => p.topic_alias_max = Some(*x),
            (0x19, PV::U8(x)) => p.request_response_info = Some(*x),
            (0x17, PV::U8(x)) => p.request_problem_info = Some(*x),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (0x15, PV::Str(x)) => p.authentication_method = Some(mk(x)),
            (0x16, PV::Bin(x)) => p.authentication_data = Some(Bytes::copy_from_slice(x)),
            (i, v) => panic!("harness: connect cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn connect_props_from(p: &Option<ConnectProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = p.session_expiry_interval {
        o.push((0x11, PV::U32(x)));
    }
    if let Some(x) = p.receive_maximum {
        o.push((0x21, PV::U16(x)));
    }
    if let Some(x) = p.max_packet_size {
        o.push((0x27, PV::U32(x)));
    }
    if let Some(x) = p.topic_alias_max {
        o.push((0x22, PV::U16(x)));
    }
    if let Some(x) = p.request_response_info {
        o.push((0x19, PV::U8(x)));
    }
    if let Some(x) = p.request_problem_info {
        o.push((0x17, PV::U8(x)));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    if let Some(x) = &p.authentication_method {
        o.push((0x15, PV::Str(sb(x).to_vec())));
    }
    if let Some(x) = &p.authentication_data {
        o.push((0x16, PV::Bin(x.to_vec())));
    }
    o
}

pub fn will_props_to(ps: &Props, keep_empty: bool) -> Option<LastWillProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = LastWillProperties {
        delay_interval: None,
        payload_format_indicator: None,
        message_expiry_interval: None,
        content_type: None,
        response_topic: None,
        correlation_data: None,
        user_properties: Vec::new(),
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x18, PV::U32(x)) => p.delay_interval = Some(*x),
            (0x01, PV::U8(x)) => p.payload_format_indicator = Some(*x),
            (0x02, PV::U32(x)) => p.message_expiry_interval = Some(*x),
            (0x03, PV::Str(x)) => p.content_type = Some(mk(x)),
            (0x08, PV::Str(x)) => p.response_topic = Some(mk(x)),
            (0x09, PV::Bin(x)) => p.correlation_data = Some(Bytes::copy_from_slice(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (i, v) => panic!("harness: will cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn will_props_from(p: &Option<LastWillProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = p.delay_interval {
        o.push((0x18, PV::U32(x)));
    }
    if let Some(x) = p.payload_format_indicator {
        o.push((0x01, PV::U8(x)));
    }
    if let Some(x) = p.message_expiry_interval {
        o.push((0x02, PV::U32(x)));
    }
    if let Some(x) = &p.content_type {
        o.push((0x03, PV::Str(sb(x).to_vec())));
    }
    if let Some(x) = &p.response_topic {
        o.push((0x08, PV::Str(sb(x).to_vec())));
    }
    if let Some(x) = &p.correlation_data {
        o.push((0x09, PV::Bin(x.to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    o
}

pub fn connack_props_to(ps: &Props, keep_empty: bool) -> Option<ConnAckProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = ConnAckProperties {
        session_expiry_interval: None,
        receive_max: None,
        max_qos: None,
        retain_available: None,
        max_packet_size: None,
        assigned_client_identifier: None,
        topic_alias_max: None,
        reason_string: None,
        user_properties: Vec::new(),
        wildcard_subscription_available: None,
        subscription_identifiers_available: None,
        shared_subscription_available: None,
        server_keep_alive: None,
        response_information: None,
        server_reference: None,
        authentication_method: None,
        authentication_data: None,
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x11, PV::U32(x)) => p.session_expiry_interval = Some(*x),
            (0x21, PV::U16(x)) => p.receive_max = Some(*x),
            (0x24, PV::U8(x)) => p.max_qos = Some(*x),
            (0x25, PV::U8(x)) => p.retain_available = Some(*x),
            (0x27, PV::U32(x)) => p.max_packet_size = Some(*x),
            (0x12, PV::Str(x)) => p.assigned_client_identifier = Some(mk(x)),
            (0x22, PV::U16(x)) => p.topic_alias_max = Some(*x),
            (0x1f, PV::Str(x)) => p.reason_string = Some(mk(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (0x28, PV::U8(x)) => p.wildcard_subscription_available = Some(*x),
            (0x29, PV::U8(x)) => p.subscription_identifiers_available = Some(*x),
            (0x2a, PV::U8(x)) => p.shared_subscription_available = Some(*x),
            (0x13, PV::U16(x)) => p.server_keep_alive = Some(*x),
            (0x1a, PV::Str(x)) => p.response_information = Some(mk(x)),
            (0x1c, PV::Str(x)) => p.server_reference = Some(mk(x)),
            (0x15, PV::Str(x)) => p.authentication_method = Some(mk(x)),
            (0x16, PV::Bin(x)) => p.authentication_data = Some(Bytes::copy_from_slice(x)),
            (i, v) => panic!("harness: connack cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn connack_props_from(p: &Option<ConnAckProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = p.session_expiry_interval {
        o.push((0x11, PV::U32(x)));
    }
    if let Some(x) = p.receive_max {
        o.push((0x21, PV::U16(x)));
    }
    if let Some(x) = p.max_qos {
        o.push((0x24, PV::U8(x)));
    }
    if let Some(x) = p.retain_available {
        o.push((0x25, PV::U8(x)));
    }
    if let Some(x) = p.max_packet_size {
        o.push((0x27, PV::U32(x)));
    }
    if let Some(x) = &p.assigned_client_identifier {
        o.push((0x12, PV::Str(sb(x).to_vec())));
    }
    if let Some(x) = p.topic_alias_max {
        o.push((0x22, PV::U16(x)));
    }
    if let Some(x) = &p.reason_string {
        o.push((0x1f, PV::Str(sb(x).to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    if let Some(x) = p.wildcard_subscription_available {
        o.push((0x28, PV::U8(x)));
    }
    if let Some(x) = p.subscription_identifiers_available {
        o.push((0x29, PV::U8(x)));
    }
    if let Some(x) = p.shared_subscription_available {
        o.push((0x2a, PV::U8(x)));
    }
    if let Some(x) = p.server_keep_alive {
        o.push((0x13, PV::U16(x)));
    }
    if let Some(x) = &p.response_information {
        o.push((0x1a, PV::Str(sb(x).to_vec())));
    }
    if let Some(x) = &p.server_reference {
        o.push((0x1c, PV::Str(sb(x).to_vec())));
    }
    if let Some(x) = &p.authentication_method {
        o.push((0x15, PV::Str(sb(x).to_vec())));
    }
    if let Some(x) = &p.authentication_data {
        o.push((0x16, PV::Bin(x.to_vec())));
    }
    o
}

pub fn publish_props_to(ps: &Props, keep_empty: bool) -> Option<PublishProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = PublishProperties {
        payload_format_indicator: None,
        message_expiry_interval: None,
        topic_alias: None,
        response_topic: None,
        correlation_data: None,
        user_properties: Vec::new(),
        subscription_identifiers: Vec::new(),
        content_type: None,
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x01, PV::U8(x)) => p.payload_format_indicator = Some(*x),
            (0x02, PV::U32(x)) => p.message_expiry_interval = Some(*x),
            (0x23, PV::U16(x)) => p.topic_alias = Some(*x),
            (0x08, PV::Str(x)) => p.response_topic = Some(mk(x)),
            (0x09, PV::Bin(x)) => p.correlation_data = Some(Bytes::copy_from_slice(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (0x0b, PV::Var(x)) => p.subscription_identifiers.push(*x as usize),
            (0x03, PV::Str(x)) => p.content_type = Some(mk(x)),
            (i, v) => panic!("harness: publish cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn publish_props_from(p: &Option<PublishProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = p.payload_format_indicator {
        o.push((0x01, PV::U8(x)));
    }
    if let Some(x) = p.message_expiry_interval {
        o.push((0x02, PV::U32(x)));
    }
    if let Some(x) = p.topic_alias {
        o.push((0x23, PV::U16(x)));
    }
    if let Some(x) = &p.response_topic {
        o.push((0x08, PV::Str(sb(x).to_vec())));
    }
    if let Some(x) = &p.correlation_data {
        o.push((0x09, PV::Bin(x.to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    for x in &p.subscription_identifiers {
        o.push((0x0b, PV::Var(u32::try_from(*x).unwrap_or(u32::MAX))));
    }
    if let Some(x) = &p.content_type {
        o.push((0x03, PV::Str(sb(x).to_vec())));
    }
    o
}

pub fn puback_props_to(ps: &Props, keep_empty: bool) -> Option<PubAckProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = PubAckProperties {
        reason_string: None,
        user_properties: Vec::new(),
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x1f, PV::Str(x)) => p.reason_string = Some(mk(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (i, v) => panic!("harness: puback cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn puback_props_from(p: &Option<PubAckProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = &p.reason_string {
        o.push((0x1f, PV::Str(sb(x).to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    o
}

pub fn pubrec_props_to(ps: &Props, keep_empty: bool) -> Option<PubRecProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = PubRecProperties {
        reason_string: None,
        user_properties: Vec::new(),
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x1f, PV::Str(x)) => p.reason_string = Some(mk(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (i, v) => panic!("harness: pubrec cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn pubrec_props_from(p: &Option<PubRecProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = &p.reason_string {
        o.push((0x1f, PV::Str(sb(x).to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    o
}

pub fn pubrel_props_to(ps: &Props, keep_empty: bool) -> Option<PubRelProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = PubRelProperties {
        reason_string: None,
        user_properties: Vec::new(),
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x1f, PV::Str(x)) => p.reason_string = Some(mk(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (i, v) => panic!("harness: pubrel cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn pubrel_props_from(p: &Option<PubRelProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = &p.reason_string {
        o.push((0x1f, PV::Str(sb(x).to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    o
}

pub fn pubcomp_props_to(ps: &Props, keep_empty: bool) -> Option<PubCompProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = PubCompProperties {
        reason_string: None,
        user_properties: Vec::new(),
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x1f, PV::Str(x)) => p.reason_string = Some(mk(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (i, v) => panic!("harness: pubcomp cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn pubcomp_props_from(p: &Option<PubCompProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = &p.reason_string {
        o.push((0x1f, PV::Str(sb(x).to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    o
}

pub fn suback_props_to(ps: &Props, keep_empty: bool) -> Option<SubAckProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = SubAckProperties {
        reason_string: None,
        user_properties: Vec::new(),
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x1f, PV::Str(x)) => p.reason_string = Some(mk(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (i, v) => panic!("harness: suback cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn suback_props_from(p: &Option<SubAckProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = &p.reason_string {
        o.push((0x1f, PV::Str(sb(x).to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    o
}

pub fn unsuback_props_to(ps: &Props, keep_empty: bool) -> Option<UnsubAckProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = UnsubAckProperties {
        reason_string: None,
        user_properties: Vec::new(),
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x1f, PV::Str(x)) => p.reason_string = Some(mk(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (i, v) => panic!("harness: unsuback cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn unsuback_props_from(p: &Option<UnsubAckProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = &p.reason_string {
        o.push((0x1f, PV::Str(sb(x).to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    o
}

pub fn subscribe_props_to(ps: &Props, keep_empty: bool) -> Option<SubscribeProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = SubscribeProperties {
        id: None,
        user_properties: Vec::new(),
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x0b, PV::Var(x)) => p.id = Some(*x as usize),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (i, v) => panic!("harness: subscribe cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn subscribe_props_from(p: &Option<SubscribeProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = p.id {
        o.push((0x0b, PV::Var(u32::try_from(x).unwrap_or(u32::MAX))));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    o
}

pub fn unsubscribe_props_to(ps: &Props, keep_empty: bool) -> Option<UnsubscribeProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = UnsubscribeProperties {
        user_properties: Vec::new(),
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (i, v) => panic!("harness: unsubscribe cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn unsubscribe_props_from(p: &Option<UnsubscribeProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    o
}

pub fn disconnect_props_to(ps: &Props, keep_empty: bool) -> Option<DisconnectProperties> {
    if ps.is_empty() && !keep_empty {
        return None;
    }
    let mut p = DisconnectProperties {
        session_expiry_interval: None,
        reason_string: None,
        user_properties: Vec::new(),
        server_reference: None,
    };
    for (id, v) in ps {
        match (*id, v) {
            (0x11, PV::U32(x)) => p.session_expiry_interval = Some(*x),
            (0x1f, PV::Str(x)) => p.reason_string = Some(mk(x)),
            (0x26, PV::Pair(k, v)) => p.user_properties.push((mk(k), mk(v))),
            (0x1c, PV::Str(x)) => p.server_reference = Some(mk(x)),
            (i, v) => panic!("harness: disconnect cannot carry property {i:#x} {v:?}"),
        }
    }
    Some(p)
}

pub fn disconnect_props_from(p: &Option<DisconnectProperties>) -> Props {
    let Some(p) = p else { return Vec::new() };
    let mut o = Vec::new();
    if let Some(x) = p.session_expiry_interval {
        o.push((0x11, PV::U32(x)));
    }
    if let Some(x) = &p.reason_string {
        o.push((0x1f, PV::Str(sb(x).to_vec())));
    }
    for (k, v) in &p.user_properties {
        o.push((0x26, PV::Pair(sb(k).to_vec(), sb(v).to_vec())));
    }
    if let Some(x) = &p.server_reference {
        o.push((0x1c, PV::Str(sb(x).to_vec())));
    }
    o
}
