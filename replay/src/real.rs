//! The code under test through its public interface: packets built from values, and read back.
use crate::spec::*;
use apiformes_packet::prelude::{self as ap, Packet, MqttPropValue, Property};
use bytes::{Buf, Bytes};
use std::sync::Arc;

pub fn arc(s: &str) -> Arc<str> { Arc::from(s) }
pub const PROPS: [Property; 27] = [
    Property::PayloadFormatIndicator, Property::MessageExpiryInterval, Property::ContentType, Property::ResponseTopic, Property::CorrelationData, Property::SubscriptionIdentifier,
    Property::SessionExpiryInterval, Property::AssignedClientIdentifier, Property::ServerKeepAlive, Property::AuthenticationMethod, Property::AuthenticationData,
    Property::RequestProblemInformation, Property::WillDelayInterval, Property::RequestResponseInformation, Property::ResponseInformation, Property::ServerReference,
    Property::ReasonString, Property::ReceiveMaximum, Property::TopicAliasMaximum, Property::TopicAlias, Property::MaximumQoS, Property::RetainAvailable, Property::UserProperty,
    Property::MaximumPacketSize, Property::WildcardSubscriptionAvailable, Property::SubscriptionIdentifierAvailable, Property::SharedSubscriptionAvailable,
];
/// by position in the table of the standard, not by the numbers the code gives to the variants
pub fn rprop(id: u32) -> Property { PROPS[TABLE.iter().position(|t| t.0 == id).unwrap()] }
pub fn pid(p: &Property) -> u32 { TABLE[PROPS.iter().position(|t| t == p).unwrap()].0 }
pub fn rval(v: &Val) -> Option<MqttPropValue> {
    Some(match v {
        Val::Bool(b) => MqttPropValue::new_bool(*b == 1),
        Val::Byte(b) => MqttPropValue::new_u8(*b),
        Val::U16(n) => MqttPropValue::new_u16(*n),
        Val::U32(n) => MqttPropValue::new_u32(*n),
        Val::Var(n) => MqttPropValue::new_varint(*n).ok()?,
        Val::Str(s) => MqttPropValue::new_string(arc(s)).ok()?,
        Val::Pair(a, b) => MqttPropValue::new_string_pair(arc(a), arc(b)).ok()?,
        Val::Data(d) => MqttPropValue::new_data(Bytes::from(d.clone())).ok()?,
    })
}
pub fn oval(k: Kind, v: &MqttPropValue) -> Val {
    let r = match k {
        Kind::Bool => v.into_bool().map(|b| Val::Bool(b as u8)),
        Kind::Byte => v.into_u8().map(Val::Byte),
        Kind::U16 => v.into_u16().map(Val::U16),
        Kind::U32 => v.into_u32().map(Val::U32),
        Kind::Var => v.into_u32().map(Val::Var),
        Kind::Str => v.into_str().map(|s| Val::Str(s.to_string())),
        Kind::Data => v.into_data().map(|s| Val::Data(s.to_vec())),
    };
    r.unwrap_or(Val::Pair("unreadable".into(), format!("{:?}", k)))
}
pub trait Host {
    fn add(&mut self, k: Property, v: MqttPropValue) -> bool;
    fn get(&self, id: u32) -> Option<Vec<Val>>;
    fn list(&self) -> Props;
}
macro_rules! host { ($($t:ty),*) => { $(impl Host for $t {
    fn add(&mut self, k: Property, v: MqttPropValue) -> bool { self.add_prop(k, v).is_ok() }
    fn get(&self, id: u32) -> Option<Vec<Val>> { let k = prop(id).unwrap().0; self.get_prop(rprop(id)).map(|l| l.iter().map(|v| oval(k, v)).collect()) }
    fn list(&self) -> Props { self.props_iter().map(|(k, v)| { let id = pid(k); (id, oval(prop(id).unwrap().0, v)) }).collect() }
})* } }
host!(ap::Connect, ap::ConnAck, ap::Publish, ap::PubAck, ap::PubRec, ap::PubRel, ap::PubComp, ap::Subscribe, ap::SubAck, ap::Unsubscribe, ap::UnsubAck, ap::Disconnect, ap::Auth, ap::Will);

macro_rules! rcs { ($f:ident, $t:ident, $back:ident, $list:ident: $($v:ident),*) => {
    /// by position in the list of the standard
    pub fn $f(c: u8) -> ap::$t { use ap::$t::*; let all = [$($v),*]; all[$list.iter().position(|x| *x == c).unwrap()] }
    pub fn $back(c: ap::$t) -> u8 { use ap::$t::*; let mut i = 0; $( if let $v = c { return $list[i]; } i += 1; )* let _ = i; unreachable!() }
} }
rcs!(connack_rc, ConnAckReasonCode, connack_b, CONNACK_RC: Success, UnspecifiedError, MalformedPacket, ProtocolError, ImplementationSpecificError, UnsupportedProtocolVersion, ClientIdentifierNotValid, BadUserNameOrPassword, NotAuthorized,
    ServerUnavailable, ServerBusy, Banned, BadAuthenicationMethod, TopicNameInvalid, PacketTooLarge, QuotaExceeded, PayloadFormatInvalid, RetainNotSupported, QoSNotSupported, UseAnotherServer, ServerMoved, ConnectionRateExceeded);
rcs!(puback_rc, PubAckReasonCode, puback_b, PUBACK_RC: Success, NoMatchingSubscribers, UnspecifiedError, ImplementationSpecificError, NotAuthorized, TopicNameInvalid, PacketIdentifierInUse, QuotaExceeded, PayloadFormatInvalid);
rcs!(pubrel_rc, PubRelReasonCode, pubrel_b, PUBREL_RC: Success, PacketIdentifierNotFound);
rcs!(suback_rc, SubAckReasonCode, suback_b, SUBACK_RC: GrantedQoS0, GrantedQoS1, GrantedQoS2, UnspecifiedError, ImplementationSpecificError, NotAuthorized, TopicFilterInvalid, PacketIdentifierInUse, QuotaExceeded,
    SharedSubscriptionsNotSupported, SubscriptionIdentifiersNotSupported, WildcardSubscriptionsNotSupported);
rcs!(unsuback_rc, UnsubAckReasonCode, unsuback_b, UNSUBACK_RC: Success, NoSubscriptionExisted, UnspecifiedError, ImplementationSpecificError, NotAuthorized, TopicFilterInvalid, PacketIdentifierInUse);
rcs!(auth_rc, AuthReasonCode, auth_b, AUTH_RC: Success, ContinueAuthentication, ReAuthenticate);
rcs!(disconnect_rc, DisconnectReasonCode, disconnect_b, DISCONNECT_RC: NormalDisconnection, DisconnectWithWillMessage, UnspecifiedError, MalformedPacket, ProtocolError, ImplementationSpecificError, NotAuthorized, ServerBusy, ServerShuttingDown,
    BadAuthenicationMethod, KeepAliveTimeout, SessionTakenOver, TopicFilterInvalid, TopicNameInvalid, ReceiveMaximumExceeded, TopicAliasInvalid, PacketTooLarge, MessageRateTooHigh, QuotaExceeded, AdministrativeAction,
    PayloadFormatInvalid, RetainNotSupported, QoSNotSupported, UseAnotherServer, ServerMoved, SharedSubscriptionsNotSupported, ConnectionRateExceeded, MaximumConnectTime, SubscriptionIdentifiersNotSupported, WildcardSubscriptionsNotSupported);

/// everything that can be observed of a packet
pub fn observe(p: &Packet) -> Pk {
    match p {
        Packet::Connect(c) => Pk::Connect {
            flags: c.flags().bits(), ka: c.keep_alive(), props: c.list(), id: c.clientid().to_string(),
            will: c.will().map(|w| WillP { props: w.list(), topic: w.topic().to_string(), payload: w.clone().payload().to_vec() }),
            user: c.username().map(|u| u.to_string()), pass: c.password().map(|p| p.to_vec()),
        },
        Packet::ConnAck(c) => Pk::ConnAck { flags: c.flags().bits(), rc: connack_b(c.reason_code()), props: c.list() },
        Packet::Publish(c) => Pk::Publish { flags: c.flags().bits(), topic: c.topic_name().to_string(), id: c.packet_identifier(), props: c.list(), payload: c.payload().to_vec() },
        Packet::PubAck(c) => Pk::Ack { ty: 4, id: c.identifier(), rc: puback_b(c.reason_code()), props: c.list() },
        Packet::PubRec(c) => Pk::Ack { ty: 5, id: c.identifier(), rc: puback_b(c.reason_code()), props: c.list() },
        Packet::PubRel(c) => Pk::Ack { ty: 6, id: c.identifier(), rc: pubrel_b(c.reason_code()), props: c.list() },
        Packet::PubComp(c) => Pk::Ack { ty: 7, id: c.identifier(), rc: pubrel_b(c.reason_code()), props: c.list() },
        Packet::Subscribe(c) => Pk::Subscribe { id: c.packet_identifier(), props: c.list(), topics: c.topics_iter().map(|(t, o)| (t.to_string(), o.bits())).collect() },
        Packet::SubAck(c) => Pk::Rcs { ty: 9, id: c.identifier(), props: c.list(), rcs: c.reason_codes().iter().map(|r| suback_b(*r)).collect() },
        // the identifier of an UNSUBSCRIBE has no getter: read it back from the encoding
        Packet::Unsubscribe(c) => {
            let mut v: Vec<u8> = vec![];
            p.to_bytes(&mut v);
            let h = header(&v).ok().flatten().map(|h| h.0).unwrap_or(2);
            Pk::Unsubscribe { id: if v.len() >= h + 2 { (v[h] as u16) << 8 | v[h + 1] as u16 } else { 0 }, props: c.list(), topics: c.topics_iter().map(|t| t.to_string()).collect() }
        }
        Packet::UnsubAck(c) => Pk::Rcs { ty: 11, id: c.identifier(), props: c.list(), rcs: c.reason_codes().iter().map(|r| unsuback_b(*r)).collect() },
        Packet::PingReq(_) => Pk::PingReq,
        Packet::PingRes(_) => Pk::PingRes,
        Packet::Disconnect(c) => Pk::Disconnect { rc: disconnect_b(c.reason_code()), props: c.list() },
        Packet::Auth(c) => Pk::Auth { rc: auth_b(c.reason_code()), props: c.list() },
    }
}
pub fn qos(n: u8) -> ap::QoS { match n { 0 => ap::QoS::QoS0, 1 => ap::QoS::QoS1, _ => ap::QoS::QoS2 } }
pub fn opts(o: u8) -> ap::SubscriptionOptions { ap::SubscriptionOptions::from_bits_truncate(o) }
fn put<H: Host>(h: &mut H, ps: &Props) -> Result<(), String> {
    for (k, v) in ps { if !h.add(rprop(*k), rval(v).ok_or(format!("value {v:?} refused"))?) { return Err(format!("property {k:#x} = {v:?} refused")); } }
    Ok(())
}
/// the packet with this value, through constructors and setters
pub fn build(p: &Pk) -> Result<Packet, String> {
    let e = |w: &str| { let w = w.to_string(); move |e: ap::DataParseError| format!("{w} refused: {e:?}") };
    Ok(match p {
        Pk::Connect { flags, ka, props, id, will, user, pass } => {
            let mut c = ap::Connect::new(arc(id)).map_err(e("client identifier"))?;
            if flags & 2 != 0 { c.set_clean_start(); }
            c.set_keep_alive(*ka);
            put(&mut c, props)?;
            if let Some(w) = will {
                let mut x = ap::Will::new(arc(&w.topic), Bytes::from(w.payload.clone())).map_err(e("will"))?;
                put(&mut x, &w.props)?;
                c.set_will(x);
                c.set_will_qos(qos(flags >> 3 & 3)).map_err(e("will QoS"))?;
                if flags & 0x20 != 0 { c.set_will_retain().map_err(e("will retain"))?; }
            }
            if let Some(u) = user { c.set_username(arc(u)).map_err(e("user name"))?; }
            if let Some(u) = pass { c.set_password(Bytes::from(u.clone())).map_err(e("password"))?; }
            c.build()
        }
        Pk::ConnAck { flags, rc, props } => {
            let mut c = ap::ConnAck::new();
            if flags & 1 != 0 { c.set_session_present(); }
            c.set_reason_code(connack_rc(*rc));
            put(&mut c, props)?;
            c.build()
        }
        Pk::Publish { flags, topic, id, props, payload } => {
            let mut c = ap::Publish::new(arc(topic), Bytes::from(payload.clone())).map_err(e("topic"))?;
            c.set_qos(qos(flags >> 1 & 3));
            if let Some(i) = id { c.set_packet_identifier(*i).map_err(e("packet identifier"))?; }
            if flags & 8 != 0 { c.set_dup(); }
            if flags & 1 != 0 { c.set_retain(); }
            put(&mut c, props)?;
            c.build()
        }
        Pk::Ack { ty: 4, id, rc, props } => { let mut c = ap::PubAck::new(*id); c.set_reason_code(puback_rc(*rc)); put(&mut c, props)?; c.build() }
        Pk::Ack { ty: 5, id, rc, props } => { let mut c = ap::PubRec::new(*id); c.set_reason_code(puback_rc(*rc)); put(&mut c, props)?; c.build() }
        Pk::Ack { ty: 6, id, rc, props } => { let mut c = ap::PubRel::new(*id); c.set_reason_code(pubrel_rc(*rc)); put(&mut c, props)?; c.build() }
        Pk::Ack { id, rc, props, .. } => { let mut c = ap::PubComp::new(*id); c.set_reason_code(pubrel_rc(*rc)); put(&mut c, props)?; c.build() }
        Pk::Subscribe { id, props, topics } => {
            let mut c = ap::Subscribe::new(*id);
            for (t, o) in topics { c.add_topic(arc(t), opts(*o)).map_err(e("filter"))?; }
            put(&mut c, props)?;
            c.build()
        }
        Pk::Unsubscribe { id, props, topics } => {
            let mut c = ap::Unsubscribe::new(*id);
            for t in topics { c.add_topic(arc(t)).map_err(e("filter"))?; }
            put(&mut c, props)?;
            c.build()
        }
        Pk::Rcs { ty: 9, id, props, rcs } => { let mut c = ap::SubAck::new(*id); for r in rcs { c.add_reason_code(suback_rc(*r)); } put(&mut c, props)?; c.build() }
        Pk::Rcs { id, props, rcs, .. } => { let mut c = ap::UnsubAck::new(*id); for r in rcs { c.add_reason_code(unsuback_rc(*r)); } put(&mut c, props)?; c.build() }
        Pk::PingReq => ap::Ping::new().build_req(),
        Pk::PingRes => ap::Ping::new().build_res(),
        Pk::Disconnect { rc, props } => { let mut c = ap::Disconnect::new(disconnect_rc(*rc)); put(&mut c, props)?; c.build() }
        Pk::Auth { rc, props } => { let mut c = ap::Auth::new(auth_rc(*rc)); put(&mut c, props)?; c.build() }
    })
}

/// an input buffer in pieces; reading past the end panics, as the trait prescribes
pub struct Chunks { pub v: std::collections::VecDeque<Bytes>, pub rem: usize }
impl Chunks {
    pub fn new(s: &[u8], cuts: &[usize]) -> Chunks {
        let mut v = std::collections::VecDeque::new();
        let mut i = 0;
        for &c in cuts.iter().chain([&s.len()]) { if c > i && c <= s.len() { v.push_back(Bytes::copy_from_slice(&s[i..c])); i = c; } }
        Chunks { v, rem: s.len() }
    }
}
impl Buf for Chunks {
    fn remaining(&self) -> usize { self.rem }
    fn chunk(&self) -> &[u8] { self.v.front().map(|b| &b[..]).unwrap_or(&[]) }
    fn advance(&mut self, mut n: usize) {
        assert!(n <= self.rem, "advanced past the end of the input");
        self.rem -= n;
        while n > 0 {
            let f = self.v.front_mut().expect("advanced past the end of the input");
            let k = n.min(f.len());
            f.advance(k);
            n -= k;
            if f.is_empty() { self.v.pop_front(); }
        }
    }
}
