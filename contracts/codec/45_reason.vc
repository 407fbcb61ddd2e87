@@ module reason
pub open spec fn connack_code(r: ConnAckReasonCode) -> u8 { match r { ConnAckReasonCode::Success => 0x0, ConnAckReasonCode::UnspecifiedError => 0x80, ConnAckReasonCode::MalformedPacket => 0x81, ConnAckReasonCode::ProtocolError => 0x82, ConnAckReasonCode::ImplementationSpecificError => 0x83, ConnAckReasonCode::UnsupportedProtocolVersion => 0x84, ConnAckReasonCode::ClientIdentifierNotValid => 0x85, ConnAckReasonCode::BadUserNameOrPassword => 0x86, ConnAckReasonCode::NotAuthorized => 0x87, ConnAckReasonCode::ServerUnavailable => 0x88, ConnAckReasonCode::ServerBusy => 0x89, ConnAckReasonCode::Banned => 0x8a, ConnAckReasonCode::BadAuthenicationMethod => 0x8c, ConnAckReasonCode::TopicNameInvalid => 0x90, ConnAckReasonCode::PacketTooLarge => 0x95, ConnAckReasonCode::QuotaExceeded => 0x97, ConnAckReasonCode::PayloadFormatInvalid => 0x99, ConnAckReasonCode::RetainNotSupported => 0x9a, ConnAckReasonCode::QoSNotSupported => 0x9b, ConnAckReasonCode::UseAnotherServer => 0x9c, ConnAckReasonCode::ServerMoved => 0x9d, ConnAckReasonCode::ConnectionRateExceeded => 0x9f, } }
pub open spec fn connack_of(c: u8) -> Option<ConnAckReasonCode> { if c == 0x0 { Some(ConnAckReasonCode::Success) } else if c == 0x80 { Some(ConnAckReasonCode::UnspecifiedError) } else if c == 0x81 { Some(ConnAckReasonCode::MalformedPacket) } else if c == 0x82 { Some(ConnAckReasonCode::ProtocolError) } else if c == 0x83 { Some(ConnAckReasonCode::ImplementationSpecificError) } else if c == 0x84 { Some(ConnAckReasonCode::UnsupportedProtocolVersion) } else if c == 0x85 { Some(ConnAckReasonCode::ClientIdentifierNotValid) } else if c == 0x86 { Some(ConnAckReasonCode::BadUserNameOrPassword) } else if c == 0x87 { Some(ConnAckReasonCode::NotAuthorized) } else if c == 0x88 { Some(ConnAckReasonCode::ServerUnavailable) } else if c == 0x89 { Some(ConnAckReasonCode::ServerBusy) } else if c == 0x8a { Some(ConnAckReasonCode::Banned) } else if c == 0x8c { Some(ConnAckReasonCode::BadAuthenicationMethod) } else if c == 0x90 { Some(ConnAckReasonCode::TopicNameInvalid) } else if c == 0x95 { Some(ConnAckReasonCode::PacketTooLarge) } else if c == 0x97 { Some(ConnAckReasonCode::QuotaExceeded) } else if c == 0x99 { Some(ConnAckReasonCode::PayloadFormatInvalid) } else if c == 0x9a { Some(ConnAckReasonCode::RetainNotSupported) } else if c == 0x9b { Some(ConnAckReasonCode::QoSNotSupported) } else if c == 0x9c { Some(ConnAckReasonCode::UseAnotherServer) } else if c == 0x9d { Some(ConnAckReasonCode::ServerMoved) } else if c == 0x9f { Some(ConnAckReasonCode::ConnectionRateExceeded) } else { None } }
pub proof fn connack_rt(r: ConnAckReasonCode) ensures connack_of(connack_code(r)) == Some(r) { }
impl Wire for ConnAckReasonCode {
    type V = ConnAckReasonCode;
    open spec fn vv(&self) -> ConnAckReasonCode { *self }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: ConnAckReasonCode) -> bool { true }
    open spec fn same(a: ConnAckReasonCode, b: ConnAckReasonCode) -> bool { a == b }
    open spec fn enc(v: ConnAckReasonCode) -> Seq<u8> { seq![connack_code(v)] }
    open spec fn parse(s: Seq<u8>) -> Option<(ConnAckReasonCode, int)> { if s.len() < 1 { None } else { match connack_of(s[0]) { Some(r) => Some((r, 1)), None => None } } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
pub open spec fn puback_code(r: PubAckReasonCode) -> u8 { match r { PubAckReasonCode::Success => 0x0, PubAckReasonCode::NoMatchingSubscribers => 0x10, PubAckReasonCode::UnspecifiedError => 0x80, PubAckReasonCode::ImplementationSpecificError => 0x83, PubAckReasonCode::NotAuthorized => 0x87, PubAckReasonCode::TopicNameInvalid => 0x90, PubAckReasonCode::PacketIdentifierInUse => 0x91, PubAckReasonCode::QuotaExceeded => 0x97, PubAckReasonCode::PayloadFormatInvalid => 0x99, } }
pub open spec fn puback_of(c: u8) -> Option<PubAckReasonCode> { if c == 0x0 { Some(PubAckReasonCode::Success) } else if c == 0x10 { Some(PubAckReasonCode::NoMatchingSubscribers) } else if c == 0x80 { Some(PubAckReasonCode::UnspecifiedError) } else if c == 0x83 { Some(PubAckReasonCode::ImplementationSpecificError) } else if c == 0x87 { Some(PubAckReasonCode::NotAuthorized) } else if c == 0x90 { Some(PubAckReasonCode::TopicNameInvalid) } else if c == 0x91 { Some(PubAckReasonCode::PacketIdentifierInUse) } else if c == 0x97 { Some(PubAckReasonCode::QuotaExceeded) } else if c == 0x99 { Some(PubAckReasonCode::PayloadFormatInvalid) } else { None } }
pub proof fn puback_rt(r: PubAckReasonCode) ensures puback_of(puback_code(r)) == Some(r) { }
impl Wire for PubAckReasonCode {
    type V = PubAckReasonCode;
    open spec fn vv(&self) -> PubAckReasonCode { *self }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: PubAckReasonCode) -> bool { true }
    open spec fn same(a: PubAckReasonCode, b: PubAckReasonCode) -> bool { a == b }
    open spec fn enc(v: PubAckReasonCode) -> Seq<u8> { seq![puback_code(v)] }
    open spec fn parse(s: Seq<u8>) -> Option<(PubAckReasonCode, int)> { if s.len() < 1 { None } else { match puback_of(s[0]) { Some(r) => Some((r, 1)), None => None } } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
pub open spec fn pubrel_code(r: PubRelReasonCode) -> u8 { match r { PubRelReasonCode::Success => 0x0, PubRelReasonCode::PacketIdentifierNotFound => 0x92, } }
pub open spec fn pubrel_of(c: u8) -> Option<PubRelReasonCode> { if c == 0x0 { Some(PubRelReasonCode::Success) } else if c == 0x92 { Some(PubRelReasonCode::PacketIdentifierNotFound) } else { None } }
pub proof fn pubrel_rt(r: PubRelReasonCode) ensures pubrel_of(pubrel_code(r)) == Some(r) { }
impl Wire for PubRelReasonCode {
    type V = PubRelReasonCode;
    open spec fn vv(&self) -> PubRelReasonCode { *self }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: PubRelReasonCode) -> bool { true }
    open spec fn same(a: PubRelReasonCode, b: PubRelReasonCode) -> bool { a == b }
    open spec fn enc(v: PubRelReasonCode) -> Seq<u8> { seq![pubrel_code(v)] }
    open spec fn parse(s: Seq<u8>) -> Option<(PubRelReasonCode, int)> { if s.len() < 1 { None } else { match pubrel_of(s[0]) { Some(r) => Some((r, 1)), None => None } } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
pub open spec fn unsuback_code(r: UnsubAckReasonCode) -> u8 { match r { UnsubAckReasonCode::Success => 0x0, UnsubAckReasonCode::NoSubscriptionExisted => 0x11, UnsubAckReasonCode::UnspecifiedError => 0x80, UnsubAckReasonCode::ImplementationSpecificError => 0x83, UnsubAckReasonCode::NotAuthorized => 0x87, UnsubAckReasonCode::TopicFilterInvalid => 0x8f, UnsubAckReasonCode::PacketIdentifierInUse => 0x91, } }
pub open spec fn unsuback_of(c: u8) -> Option<UnsubAckReasonCode> { if c == 0x0 { Some(UnsubAckReasonCode::Success) } else if c == 0x11 { Some(UnsubAckReasonCode::NoSubscriptionExisted) } else if c == 0x80 { Some(UnsubAckReasonCode::UnspecifiedError) } else if c == 0x83 { Some(UnsubAckReasonCode::ImplementationSpecificError) } else if c == 0x87 { Some(UnsubAckReasonCode::NotAuthorized) } else if c == 0x8f { Some(UnsubAckReasonCode::TopicFilterInvalid) } else if c == 0x91 { Some(UnsubAckReasonCode::PacketIdentifierInUse) } else { None } }
pub proof fn unsuback_rt(r: UnsubAckReasonCode) ensures unsuback_of(unsuback_code(r)) == Some(r) { }
impl Wire for UnsubAckReasonCode {
    type V = UnsubAckReasonCode;
    open spec fn vv(&self) -> UnsubAckReasonCode { *self }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: UnsubAckReasonCode) -> bool { true }
    open spec fn same(a: UnsubAckReasonCode, b: UnsubAckReasonCode) -> bool { a == b }
    open spec fn enc(v: UnsubAckReasonCode) -> Seq<u8> { seq![unsuback_code(v)] }
    open spec fn parse(s: Seq<u8>) -> Option<(UnsubAckReasonCode, int)> { if s.len() < 1 { None } else { match unsuback_of(s[0]) { Some(r) => Some((r, 1)), None => None } } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
pub open spec fn auth_code(r: AuthReasonCode) -> u8 { match r { AuthReasonCode::Success => 0x0, AuthReasonCode::ContinueAuthentication => 0x18, AuthReasonCode::ReAuthenticate => 0x19, } }
pub open spec fn auth_of(c: u8) -> Option<AuthReasonCode> { if c == 0x0 { Some(AuthReasonCode::Success) } else if c == 0x18 { Some(AuthReasonCode::ContinueAuthentication) } else if c == 0x19 { Some(AuthReasonCode::ReAuthenticate) } else { None } }
pub proof fn auth_rt(r: AuthReasonCode) ensures auth_of(auth_code(r)) == Some(r) { }
impl Wire for AuthReasonCode {
    type V = AuthReasonCode;
    open spec fn vv(&self) -> AuthReasonCode { *self }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: AuthReasonCode) -> bool { true }
    open spec fn same(a: AuthReasonCode, b: AuthReasonCode) -> bool { a == b }
    open spec fn enc(v: AuthReasonCode) -> Seq<u8> { seq![auth_code(v)] }
    open spec fn parse(s: Seq<u8>) -> Option<(AuthReasonCode, int)> { if s.len() < 1 { None } else { match auth_of(s[0]) { Some(r) => Some((r, 1)), None => None } } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
pub open spec fn disconnect_code(r: DisconnectReasonCode) -> u8 { match r { DisconnectReasonCode::NormalDisconnection => 0x0, DisconnectReasonCode::DisconnectWithWillMessage => 0x4, DisconnectReasonCode::UnspecifiedError => 0x80, DisconnectReasonCode::MalformedPacket => 0x81, DisconnectReasonCode::ProtocolError => 0x82, DisconnectReasonCode::ImplementationSpecificError => 0x83, DisconnectReasonCode::NotAuthorized => 0x87, DisconnectReasonCode::ServerBusy => 0x89, DisconnectReasonCode::ServerShuttingDown => 0x8b, DisconnectReasonCode::BadAuthenicationMethod => 0x8c, DisconnectReasonCode::KeepAliveTimeout => 0x8d, DisconnectReasonCode::SessionTakenOver => 0x8e, DisconnectReasonCode::TopicFilterInvalid => 0x8f, DisconnectReasonCode::TopicNameInvalid => 0x90, DisconnectReasonCode::ReceiveMaximumExceeded => 0x93, DisconnectReasonCode::TopicAliasInvalid => 0x94, DisconnectReasonCode::PacketTooLarge => 0x95, DisconnectReasonCode::MessageRateTooHigh => 0x96, DisconnectReasonCode::QuotaExceeded => 0x97, DisconnectReasonCode::AdministrativeAction => 0x98, DisconnectReasonCode::PayloadFormatInvalid => 0x99, DisconnectReasonCode::RetainNotSupported => 0x9a, DisconnectReasonCode::QoSNotSupported => 0x9b, DisconnectReasonCode::UseAnotherServer => 0x9c, DisconnectReasonCode::ServerMoved => 0x9d, DisconnectReasonCode::SharedSubscriptionsNotSupported => 0x9e, DisconnectReasonCode::ConnectionRateExceeded => 0x9f, DisconnectReasonCode::MaximumConnectTime => 0xa0, DisconnectReasonCode::SubscriptionIdentifiersNotSupported => 0xa1, DisconnectReasonCode::WildcardSubscriptionsNotSupported => 0xa2, } }
pub open spec fn disconnect_of(c: u8) -> Option<DisconnectReasonCode> { if c == 0x0 { Some(DisconnectReasonCode::NormalDisconnection) } else if c == 0x4 { Some(DisconnectReasonCode::DisconnectWithWillMessage) } else if c == 0x80 { Some(DisconnectReasonCode::UnspecifiedError) } else if c == 0x81 { Some(DisconnectReasonCode::MalformedPacket) } else if c == 0x82 { Some(DisconnectReasonCode::ProtocolError) } else if c == 0x83 { Some(DisconnectReasonCode::ImplementationSpecificError) } else if c == 0x87 { Some(DisconnectReasonCode::NotAuthorized) } else if c == 0x89 { Some(DisconnectReasonCode::ServerBusy) } else if c == 0x8b { Some(DisconnectReasonCode::ServerShuttingDown) } else if c == 0x8c { Some(DisconnectReasonCode::BadAuthenicationMethod) } else if c == 0x8d { Some(DisconnectReasonCode::KeepAliveTimeout) } else if c == 0x8e { Some(DisconnectReasonCode::SessionTakenOver) } else if c == 0x8f { Some(DisconnectReasonCode::TopicFilterInvalid) } else if c == 0x90 { Some(DisconnectReasonCode::TopicNameInvalid) } else if c == 0x93 { Some(DisconnectReasonCode::ReceiveMaximumExceeded) } else if c == 0x94 { Some(DisconnectReasonCode::TopicAliasInvalid) } else if c == 0x95 { Some(DisconnectReasonCode::PacketTooLarge) } else if c == 0x96 { Some(DisconnectReasonCode::MessageRateTooHigh) } else if c == 0x97 { Some(DisconnectReasonCode::QuotaExceeded) } else if c == 0x98 { Some(DisconnectReasonCode::AdministrativeAction) } else if c == 0x99 { Some(DisconnectReasonCode::PayloadFormatInvalid) } else if c == 0x9a { Some(DisconnectReasonCode::RetainNotSupported) } else if c == 0x9b { Some(DisconnectReasonCode::QoSNotSupported) } else if c == 0x9c { Some(DisconnectReasonCode::UseAnotherServer) } else if c == 0x9d { Some(DisconnectReasonCode::ServerMoved) } else if c == 0x9e { Some(DisconnectReasonCode::SharedSubscriptionsNotSupported) } else if c == 0x9f { Some(DisconnectReasonCode::ConnectionRateExceeded) } else if c == 0xa0 { Some(DisconnectReasonCode::MaximumConnectTime) } else if c == 0xa1 { Some(DisconnectReasonCode::SubscriptionIdentifiersNotSupported) } else if c == 0xa2 { Some(DisconnectReasonCode::WildcardSubscriptionsNotSupported) } else { None } }
pub proof fn disconnect_rt(r: DisconnectReasonCode) ensures disconnect_of(disconnect_code(r)) == Some(r) { }
impl Wire for DisconnectReasonCode {
    type V = DisconnectReasonCode;
    open spec fn vv(&self) -> DisconnectReasonCode { *self }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: DisconnectReasonCode) -> bool { true }
    open spec fn same(a: DisconnectReasonCode, b: DisconnectReasonCode) -> bool { a == b }
    open spec fn enc(v: DisconnectReasonCode) -> Seq<u8> { seq![disconnect_code(v)] }
    open spec fn parse(s: Seq<u8>) -> Option<(DisconnectReasonCode, int)> { if s.len() < 1 { None } else { match disconnect_of(s[0]) { Some(r) => Some((r, 1)), None => None } } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
pub open spec fn suback_code(r: SubAckReasonCode) -> u8 { match r { SubAckReasonCode::GrantedQoS0 => 0x0, SubAckReasonCode::GrantedQoS1 => 0x1, SubAckReasonCode::GrantedQoS2 => 0x2, SubAckReasonCode::UnspecifiedError => 0x80, SubAckReasonCode::ImplementationSpecificError => 0x83, SubAckReasonCode::NotAuthorized => 0x87, SubAckReasonCode::TopicFilterInvalid => 0x8f, SubAckReasonCode::PacketIdentifierInUse => 0x91, SubAckReasonCode::QuotaExceeded => 0x97, SubAckReasonCode::SharedSubscriptionsNotSupported => 0x9e, SubAckReasonCode::SubscriptionIdentifiersNotSupported => 0xa1, SubAckReasonCode::WildcardSubscriptionsNotSupported => 0xa2, } }
pub open spec fn suback_of(c: u8) -> Option<SubAckReasonCode> { if c == 0x0 { Some(SubAckReasonCode::GrantedQoS0) } else if c == 0x1 { Some(SubAckReasonCode::GrantedQoS1) } else if c == 0x2 { Some(SubAckReasonCode::GrantedQoS2) } else if c == 0x80 { Some(SubAckReasonCode::UnspecifiedError) } else if c == 0x83 { Some(SubAckReasonCode::ImplementationSpecificError) } else if c == 0x87 { Some(SubAckReasonCode::NotAuthorized) } else if c == 0x8f { Some(SubAckReasonCode::TopicFilterInvalid) } else if c == 0x91 { Some(SubAckReasonCode::PacketIdentifierInUse) } else if c == 0x97 { Some(SubAckReasonCode::QuotaExceeded) } else if c == 0x9e { Some(SubAckReasonCode::SharedSubscriptionsNotSupported) } else if c == 0xa1 { Some(SubAckReasonCode::SubscriptionIdentifiersNotSupported) } else if c == 0xa2 { Some(SubAckReasonCode::WildcardSubscriptionsNotSupported) } else { None } }
pub proof fn suback_rt(r: SubAckReasonCode) ensures suback_of(suback_code(r)) == Some(r) { }
impl Wire for SubAckReasonCode {
    type V = SubAckReasonCode;
    open spec fn vv(&self) -> SubAckReasonCode { *self }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: SubAckReasonCode) -> bool { true }
    open spec fn same(a: SubAckReasonCode, b: SubAckReasonCode) -> bool { a == b }
    open spec fn enc(v: SubAckReasonCode) -> Seq<u8> { seq![suback_code(v)] }
    open spec fn parse(s: Seq<u8>) -> Option<(SubAckReasonCode, int)> { if s.len() < 1 { None } else { match suback_of(s[0]) { Some(r) => Some((r, 1)), None => None } } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
@@ members MqttUncheckedDeserialize for ConnAckReasonCode
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for ConnAckReasonCode::fixed_size
@@ tags C01
@@ fn MqttUncheckedDeserialize for ConnAckReasonCode::unchecked_deserialize
@@ tags C02,C06
@@ fn MqttSerialize for ConnAckReasonCode::serialize
@@ tags C02,C08
@@ members MqttUncheckedDeserialize for PubAckReasonCode
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for PubAckReasonCode::fixed_size
@@ tags C01
@@ fn MqttUncheckedDeserialize for PubAckReasonCode::unchecked_deserialize
@@ tags C02,C06
@@ fn MqttSerialize for PubAckReasonCode::serialize
@@ tags C02,C08
@@ members MqttUncheckedDeserialize for PubRelReasonCode
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for PubRelReasonCode::fixed_size
@@ tags C01
@@ fn MqttUncheckedDeserialize for PubRelReasonCode::unchecked_deserialize
@@ tags C02,C06
@@ fn MqttSerialize for PubRelReasonCode::serialize
@@ tags C02,C08
@@ members MqttUncheckedDeserialize for UnsubAckReasonCode
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for UnsubAckReasonCode::fixed_size
@@ tags C01
@@ fn MqttUncheckedDeserialize for UnsubAckReasonCode::unchecked_deserialize
@@ tags C02,C06
@@ fn MqttSerialize for UnsubAckReasonCode::serialize
@@ tags C02,C08
@@ members MqttUncheckedDeserialize for AuthReasonCode
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for AuthReasonCode::fixed_size
@@ tags C01
@@ fn MqttUncheckedDeserialize for AuthReasonCode::unchecked_deserialize
@@ tags C02,C06
@@ fn MqttSerialize for AuthReasonCode::serialize
@@ tags C02,C08
@@ members MqttUncheckedDeserialize for DisconnectReasonCode
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for DisconnectReasonCode::fixed_size
@@ tags C01
@@ fn MqttUncheckedDeserialize for DisconnectReasonCode::unchecked_deserialize
@@ tags C02,C06
@@ fn MqttSerialize for DisconnectReasonCode::serialize
@@ tags C02,C08
@@ members MqttUncheckedDeserialize for SubAckReasonCode
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for SubAckReasonCode::fixed_size
@@ tags C01
@@ fn MqttUncheckedDeserialize for SubAckReasonCode::unchecked_deserialize
@@ tags C02,C06
@@ fn MqttSerialize for SubAckReasonCode::serialize
@@ tags C02,C08
@@ end
