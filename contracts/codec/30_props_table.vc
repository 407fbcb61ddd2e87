@@ module props
impl Key for Property { type KV = Property; open spec fn kv(&self) -> Property { *self } }
/// the value of a property
pub enum PV { Bool(u8), Byte(u8), FourBytesInt(u32), String(Seq<char>), StringPair(Seq<char>, Seq<char>), Data(Seq<u8>), VarInt(u32), TwoBytesInt(u16) }
pub type Ent = (Property, PV);
pub type PMap = Map<Property, Seq<PV>>;
// MQTT 5, 2.2.2.2: identifier, type and the packets that may carry the property
pub open spec fn code(p: Property) -> nat {
    match p {
        Property::PayloadFormatIndicator => 0x1,
        Property::MessageExpiryInterval => 0x2,
        Property::ContentType => 0x3,
        Property::ResponseTopic => 0x8,
        Property::CorrelationData => 0x9,
        Property::SubscriptionIdentifier => 0xb,
        Property::SessionExpiryInterval => 0x11,
        Property::AssignedClientIdentifier => 0x12,
        Property::ServerKeepAlive => 0x13,
        Property::AuthenticationMethod => 0x15,
        Property::AuthenticationData => 0x16,
        Property::RequestProblemInformation => 0x17,
        Property::WillDelayInterval => 0x18,
        Property::RequestResponseInformation => 0x19,
        Property::ResponseInformation => 0x1a,
        Property::ServerReference => 0x1c,
        Property::ReasonString => 0x1f,
        Property::ReceiveMaximum => 0x21,
        Property::TopicAliasMaximum => 0x22,
        Property::TopicAlias => 0x23,
        Property::MaximumQoS => 0x24,
        Property::RetainAvailable => 0x25,
        Property::UserProperty => 0x26,
        Property::MaximumPacketSize => 0x27,
        Property::WildcardSubscriptionAvailable => 0x28,
        Property::SubscriptionIdentifierAvailable => 0x29,
        Property::SharedSubscriptionAvailable => 0x2a,
    }
}
pub open spec fn of_code(c: nat) -> Option<Property> {
    if c == 0x1 { Some(Property::PayloadFormatIndicator) } else if c == 0x2 { Some(Property::MessageExpiryInterval) } else if c == 0x3 { Some(Property::ContentType) } else if c == 0x8 { Some(Property::ResponseTopic) } else if c == 0x9 { Some(Property::CorrelationData) } else if c == 0xb { Some(Property::SubscriptionIdentifier) } else if c == 0x11 { Some(Property::SessionExpiryInterval) } else if c == 0x12 { Some(Property::AssignedClientIdentifier) } else if c == 0x13 { Some(Property::ServerKeepAlive) } else if c == 0x15 { Some(Property::AuthenticationMethod) } else if c == 0x16 { Some(Property::AuthenticationData) } else if c == 0x17 { Some(Property::RequestProblemInformation) } else if c == 0x18 { Some(Property::WillDelayInterval) } else if c == 0x19 { Some(Property::RequestResponseInformation) } else if c == 0x1a { Some(Property::ResponseInformation) } else if c == 0x1c { Some(Property::ServerReference) } else if c == 0x1f { Some(Property::ReasonString) } else if c == 0x21 { Some(Property::ReceiveMaximum) } else if c == 0x22 { Some(Property::TopicAliasMaximum) } else if c == 0x23 { Some(Property::TopicAlias) } else if c == 0x24 { Some(Property::MaximumQoS) } else if c == 0x25 { Some(Property::RetainAvailable) } else if c == 0x26 { Some(Property::UserProperty) } else if c == 0x27 { Some(Property::MaximumPacketSize) } else if c == 0x28 { Some(Property::WildcardSubscriptionAvailable) } else if c == 0x29 { Some(Property::SubscriptionIdentifierAvailable) } else if c == 0x2a { Some(Property::SharedSubscriptionAvailable) } else { None }
}
pub open spec fn kind(p: Property) -> MqttPropValueType {
    match p {
        Property::PayloadFormatIndicator => MqttPropValueType::Byte,
        Property::MessageExpiryInterval => MqttPropValueType::FourBytesInt,
        Property::ContentType => MqttPropValueType::String,
        Property::ResponseTopic => MqttPropValueType::String,
        Property::CorrelationData => MqttPropValueType::Data,
        Property::SubscriptionIdentifier => MqttPropValueType::VarInt,
        Property::SessionExpiryInterval => MqttPropValueType::FourBytesInt,
        Property::AssignedClientIdentifier => MqttPropValueType::String,
        Property::ServerKeepAlive => MqttPropValueType::TwoBytesInt,
        Property::AuthenticationMethod => MqttPropValueType::String,
        Property::AuthenticationData => MqttPropValueType::Data,
        Property::RequestProblemInformation => MqttPropValueType::Bool,
        Property::WillDelayInterval => MqttPropValueType::FourBytesInt,
        Property::RequestResponseInformation => MqttPropValueType::Bool,
        Property::ResponseInformation => MqttPropValueType::String,
        Property::ServerReference => MqttPropValueType::String,
        Property::ReasonString => MqttPropValueType::String,
        Property::ReceiveMaximum => MqttPropValueType::TwoBytesInt,
        Property::TopicAliasMaximum => MqttPropValueType::TwoBytesInt,
        Property::TopicAlias => MqttPropValueType::TwoBytesInt,
        Property::MaximumQoS => MqttPropValueType::Byte,
        Property::RetainAvailable => MqttPropValueType::Byte,
        Property::UserProperty => MqttPropValueType::String,
        Property::MaximumPacketSize => MqttPropValueType::FourBytesInt,
        Property::WildcardSubscriptionAvailable => MqttPropValueType::Bool,
        Property::SubscriptionIdentifierAvailable => MqttPropValueType::Bool,
        Property::SharedSubscriptionAvailable => MqttPropValueType::Bool,
    }
}
pub open spec fn multi(p: Property) -> bool { p == Property::UserProperty }
pub open spec fn permits(p: Property, o: PropOwner) -> bool {
    match p {
        Property::PayloadFormatIndicator => o == PropOwner::PUBLISH || o == PropOwner::WILL,
        Property::MessageExpiryInterval => o == PropOwner::PUBLISH || o == PropOwner::WILL,
        Property::ContentType => o == PropOwner::PUBLISH || o == PropOwner::WILL,
        Property::ResponseTopic => o == PropOwner::PUBLISH || o == PropOwner::WILL,
        Property::CorrelationData => o == PropOwner::PUBLISH || o == PropOwner::WILL,
        Property::SubscriptionIdentifier => o == PropOwner::PUBLISH || o == PropOwner::SUBSCRIBE,
        Property::SessionExpiryInterval => o == PropOwner::CONNECT || o == PropOwner::CONNACK || o == PropOwner::DISCONNECT,
        Property::AssignedClientIdentifier => o == PropOwner::CONNACK,
        Property::ServerKeepAlive => o == PropOwner::CONNACK,
        Property::AuthenticationMethod => o == PropOwner::CONNECT || o == PropOwner::CONNACK || o == PropOwner::AUTH,
        Property::AuthenticationData => o == PropOwner::CONNECT || o == PropOwner::CONNACK || o == PropOwner::AUTH,
        Property::RequestProblemInformation => o == PropOwner::CONNECT,
        Property::WillDelayInterval => o == PropOwner::WILL,
        Property::RequestResponseInformation => o == PropOwner::CONNECT,
        Property::ResponseInformation => o == PropOwner::CONNACK,
        Property::ServerReference => o == PropOwner::CONNACK || o == PropOwner::DISCONNECT,
        Property::ReasonString => o == PropOwner::CONNACK || o == PropOwner::PUBACK || o == PropOwner::PUBREC || o == PropOwner::PUBREL || o == PropOwner::PUBCOMP || o == PropOwner::SUBACK || o == PropOwner::UNSUBACK || o == PropOwner::DISCONNECT || o == PropOwner::AUTH,
        Property::ReceiveMaximum => o == PropOwner::CONNECT || o == PropOwner::CONNACK,
        Property::TopicAliasMaximum => o == PropOwner::CONNECT || o == PropOwner::CONNACK,
        Property::TopicAlias => o == PropOwner::PUBLISH,
        Property::MaximumQoS => o == PropOwner::CONNACK,
        Property::RetainAvailable => o == PropOwner::CONNACK,
        Property::UserProperty => o == PropOwner::CONNECT || o == PropOwner::CONNACK || o == PropOwner::PUBLISH || o == PropOwner::WILL || o == PropOwner::PUBACK || o == PropOwner::PUBREC || o == PropOwner::PUBREL || o == PropOwner::PUBCOMP || o == PropOwner::SUBSCRIBE || o == PropOwner::SUBACK || o == PropOwner::UNSUBSCRIBE || o == PropOwner::UNSUBACK || o == PropOwner::DISCONNECT || o == PropOwner::AUTH,
        Property::MaximumPacketSize => o == PropOwner::CONNECT || o == PropOwner::CONNACK,
        Property::WildcardSubscriptionAvailable => o == PropOwner::CONNACK,
        Property::SubscriptionIdentifierAvailable => o == PropOwner::CONNACK,
        Property::SharedSubscriptionAvailable => o == PropOwner::CONNACK,
    }
}
pub open spec fn is_owner(o: PropOwner) -> bool { o == PropOwner::AUTH || o == PropOwner::CONNACK || o == PropOwner::CONNECT || o == PropOwner::DISCONNECT || o == PropOwner::PUBACK || o == PropOwner::PUBCOMP || o == PropOwner::PUBLISH || o == PropOwner::PUBREC || o == PropOwner::PUBREL || o == PropOwner::SUBACK || o == PropOwner::SUBSCRIBE || o == PropOwner::UNSUBACK || o == PropOwner::UNSUBSCRIBE || o == PropOwner::WILL }
pub use crate::owners::*;

@@ prelude
// lemmas about sets of packet types kept as bits
pub mod owners { use crate::*; use crate::props::{PropOwner, is_owner};
pub open spec fn has(m: u16, o: u16) -> bool { m & o == o }
pub broadcast proof fn has_or(a: u16, b: u16, o: PropOwner)
    requires is_owner(o)
    ensures #[trigger] has(a | b, o.bits) == (has(a, o.bits) || has(b, o.bits))
{
    let x = o.bits;
    assert(PropOwner::AUTH.bits & sub(PropOwner::AUTH.bits, 1) == 0) by (compute);
    assert(PropOwner::CONNACK.bits & sub(PropOwner::CONNACK.bits, 1) == 0) by (compute);
    assert(PropOwner::CONNECT.bits & sub(PropOwner::CONNECT.bits, 1) == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & sub(PropOwner::DISCONNECT.bits, 1) == 0) by (compute);
    assert(PropOwner::PUBACK.bits & sub(PropOwner::PUBACK.bits, 1) == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & sub(PropOwner::PUBCOMP.bits, 1) == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & sub(PropOwner::PUBLISH.bits, 1) == 0) by (compute);
    assert(PropOwner::PUBREC.bits & sub(PropOwner::PUBREC.bits, 1) == 0) by (compute);
    assert(PropOwner::PUBREL.bits & sub(PropOwner::PUBREL.bits, 1) == 0) by (compute);
    assert(PropOwner::SUBACK.bits & sub(PropOwner::SUBACK.bits, 1) == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & sub(PropOwner::SUBSCRIBE.bits, 1) == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & sub(PropOwner::UNSUBACK.bits, 1) == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & sub(PropOwner::UNSUBSCRIBE.bits, 1) == 0) by (compute);
    assert(PropOwner::WILL.bits & sub(PropOwner::WILL.bits, 1) == 0) by (compute);
    assert(x & sub(x, 1) == 0);
    assert(x & sub(x, 1) == 0 ==> (((a | b) & x == x) == ((a & x == x) || (b & x == x)))) by (bit_vector);
}
pub broadcast proof fn has_and(a: u16, b: u16, o: u16)
    ensures #[trigger] has(a & b, o) == (has(a, o) && has(b, o))
{
    assert(((a & b) & o == o) == ((a & o == o) && (b & o == o))) by (bit_vector);
}
pub broadcast proof fn owners_differ(a: PropOwner, o: PropOwner)
    requires is_owner(a), is_owner(o)
    ensures #[trigger] has(a.bits, o.bits) == (a == o)
{
    assert(PropOwner::AUTH.bits & PropOwner::AUTH.bits == PropOwner::AUTH.bits) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::AUTH.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::CONNACK.bits == PropOwner::CONNACK.bits) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::CONNACK.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::CONNECT.bits == PropOwner::CONNECT.bits) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::CONNECT.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::DISCONNECT.bits == PropOwner::DISCONNECT.bits) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::DISCONNECT.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::PUBACK.bits == PropOwner::PUBACK.bits) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBACK.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::PUBCOMP.bits == PropOwner::PUBCOMP.bits) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBCOMP.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::PUBLISH.bits == PropOwner::PUBLISH.bits) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBLISH.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::PUBREC.bits == PropOwner::PUBREC.bits) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBREC.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::PUBREL.bits == PropOwner::PUBREL.bits) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::PUBREL.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::SUBACK.bits == PropOwner::SUBACK.bits) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::SUBACK.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::SUBSCRIBE.bits == PropOwner::SUBSCRIBE.bits) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::UNSUBACK.bits == PropOwner::UNSUBACK.bits) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::UNSUBACK.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::UNSUBSCRIBE.bits == PropOwner::UNSUBSCRIBE.bits) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits & PropOwner::WILL.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::AUTH.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::CONNACK.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::CONNECT.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::DISCONNECT.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::PUBACK.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::PUBCOMP.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::PUBLISH.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::PUBREC.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::PUBREL.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::SUBACK.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::SUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::UNSUBACK.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::UNSUBSCRIBE.bits == 0) by (compute);
    assert(PropOwner::WILL.bits & PropOwner::WILL.bits == PropOwner::WILL.bits) by (compute);
    assert(PropOwner::AUTH.bits != 0) by (compute);
    assert(PropOwner::CONNACK.bits != 0) by (compute);
    assert(PropOwner::CONNECT.bits != 0) by (compute);
    assert(PropOwner::DISCONNECT.bits != 0) by (compute);
    assert(PropOwner::PUBACK.bits != 0) by (compute);
    assert(PropOwner::PUBCOMP.bits != 0) by (compute);
    assert(PropOwner::PUBLISH.bits != 0) by (compute);
    assert(PropOwner::PUBREC.bits != 0) by (compute);
    assert(PropOwner::PUBREL.bits != 0) by (compute);
    assert(PropOwner::SUBACK.bits != 0) by (compute);
    assert(PropOwner::SUBSCRIBE.bits != 0) by (compute);
    assert(PropOwner::UNSUBACK.bits != 0) by (compute);
    assert(PropOwner::UNSUBSCRIBE.bits != 0) by (compute);
    assert(PropOwner::WILL.bits != 0) by (compute);
}
pub broadcast proof fn has_all(o: u16)
    ensures #[trigger] has(PropOwner::ALL_MESSAGES.bits, o)
{ assert(PropOwner::ALL_MESSAGES.bits == 0xffff) by (compute); assert(0xffffu16 & o == o) by (bit_vector); }
pub broadcast group group_owner { has_or, has_and, owners_differ, has_all }
}
@@ end
