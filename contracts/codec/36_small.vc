@@ module helpers
@@ fn bits_u8
@@ tags C01,C06
    requires $1 <= 7, 1 <= $2 <= 7,
    ensures ret == ($0 >> $1) & (((2u8 << (($2 - 1) as usize)) - 1) as u8),
@@ entry
    proof { let l = $2; assert(1 <= l <= 7 ==> (2u8 << ((l - 1) as usize)) >= 2) by (bit_vector); }
@@ module qos
@@ module packet_type
pub open spec fn ptype(n: u8) -> PacketType {
    if n == 1 { PacketType::Connect } else if n == 2 { PacketType::ConnAck } else if n == 3 { PacketType::Publish } else if n == 4 { PacketType::PubAck }
    else if n == 5 { PacketType::PubRec } else if n == 6 { PacketType::PubRel } else if n == 7 { PacketType::PubComp } else if n == 8 { PacketType::Subscribe }
    else if n == 9 { PacketType::SubAck } else if n == 10 { PacketType::Unsubscribe } else if n == 11 { PacketType::UnsubAck } else if n == 12 { PacketType::PingReq }
    else if n == 13 { PacketType::PingRes } else if n == 14 { PacketType::Disconnect } else if n == 15 { PacketType::Auth } else { PacketType::Reserved }
}
pub open spec fn pflags(t: PacketType) -> u8 { match t { PacketType::PubRel => 2, PacketType::Subscribe => 2, PacketType::Unsubscribe => 2, _ => 0 } }
pub open spec fn byte1_parse(b: u8) -> Option<PacketType> {
    let t = ptype(b / 16);
    if t == PacketType::Publish || b % 16 == pflags(t) { Some(t) } else { None }
}
pub proof fn nibbles(b: u8)
    ensures (b >> 4usize) & (((2u8 << 3usize) - 1) as u8) == b / 16, (b >> 0usize) & (((2u8 << 3usize) - 1) as u8) == b % 16
{
    assert((b >> 4usize) & (((2u8 << 3usize) - 1) as u8) == b / 16) by (bit_vector);
    assert((b >> 0usize) & (((2u8 << 3usize) - 1) as u8) == b % 16) by (bit_vector);
}
@@ fn PacketType::flags10
@@ tags C06
    ensures ret is Ok <==> $0 % 16 == 2, ret matches Err(e) ==> !(e is InsufficientBuffer),
@@ entry
    proof { nibbles($0); }
@@ fn PacketType::all_flags_zero
@@ tags C06
    ensures ret is Ok <==> $0 % 16 == 0, ret matches Err(e) ==> !(e is InsufficientBuffer),
@@ entry
    proof { nibbles($0); }
@@ fn PacketType::check_flags
@@ tags C06
    ensures ret is Ok <==> *self == PacketType::Publish || $0 % 16 == pflags(*self), ret matches Err(e) ==> !(e is InsufficientBuffer),
@@ fn PacketType::parse
@@ tags C01,C06
    ensures ret is Ok <==> byte1_parse($0) is Some, ret matches Ok(x) ==> byte1_parse($0) == Some(x),
        ret matches Err(e) ==> !(e is InsufficientBuffer),
@@ entry
    proof { nibbles($0); }
@@ fn PacketType::fixed_flags
@@ tags C08
    ensures ret == pflags(*self),
@@ module ping
impl Wire for Ping {
    type V = ();
    open spec fn vv(&self) -> () { () }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: ()) -> bool { true }
    open spec fn same(a: (), b: ()) -> bool { true }
    open spec fn enc(v: ()) -> Seq<u8> { seq![0u8] }
    open spec fn parse(s: Seq<u8>) -> Option<((), int)> { if s.len() < 1 || s[0] != 0 { None } else { Some(((), 1)) } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
@@ fn Ping::new
@@ fn Ping::build_req
@@ tags C07
    ensures ret == Packet::PingReq(self),
@@ fn Ping::build_res
@@ tags C07
    ensures ret == Packet::PingRes(self),
@@ fn MqttSerialize for Ping::serialize
@@ members MqttUncheckedDeserialize for Ping
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for Ping::unchecked_deserialize
@@ tags C01,C06
@@ fn MqttUncheckedDeserialize for Ping::fixed_size
@@ end
