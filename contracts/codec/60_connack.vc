@@ module connack
pub struct ConnAckV { pub flags: u8, pub rc: ConnAckReasonCode, pub props: Seq<Ent> }
pub open spec fn connack_body(v: ConnAckV) -> Seq<u8> { seq![v.flags, connack_code(v.rc)] + Properties::enc(v.props) }
pub open spec fn connack_bparse(b: Seq<u8>) -> Option<(ConnAckV, int)> {
    if b.len() < 2 || b[0] > 1 { None } else { match connack_of(b[1]) {
        Some(rc) => match pparse(b.skip(2)) { Some((es, k)) => if !all_permit(to_map(es), PropOwner::CONNACK) { None } else { Some((ConnAckV { flags: b[0], rc, props: es }, 2 + k)) }, None => None },
        None => None,
    } }
}
pub open spec fn connack_ok(v: ConnAckV) -> bool { v.flags <= 1 && props_ok(v.props, PropOwner::CONNACK) }
impl Wire for ConnAck {
    type V = ConnAckV;
    open spec fn vv(&self) -> ConnAckV { ConnAckV { flags: self.flags.bits, rc: self.reason_code, props: self.props.vv() } }
    open spec fn inv(&self) -> bool { self.flags.bits <= 1 && self.props.inv() && self.props.valid_for(PropOwner::CONNACK) }
    open spec fn fits(v: ConnAckV) -> bool { connack_body(v).len() <= 0xfffffff }
    open spec fn same(a: ConnAckV, b: ConnAckV) -> bool { a.flags == b.flags && a.rc == b.rc && Properties::same(a.props, b.props) }
    open spec fn enc(v: ConnAckV) -> Seq<u8> { vbi_enc(connack_body(v).len()) + connack_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(ConnAckV, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match connack_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
impl Wire for ConnAckFlags {
    type V = u8;
    open spec fn vv(&self) -> u8 { self.bits }
    open spec fn inv(&self) -> bool { self.bits <= 1 }
    open spec fn fits(v: u8) -> bool { true }
    open spec fn same(a: u8, b: u8) -> bool { a == b }
    open spec fn enc(v: u8) -> Seq<u8> { seq![v] }
    open spec fn parse(s: Seq<u8>) -> Option<(u8, int)> { if s.len() < 1 || s[0] > 1 { None } else { Some((s[0], 1)) } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
pub proof fn caf_bits(b: u8) ensures (b & !1u8 == 0) == (b <= 1), b & 1 <= 1, 0u8 & 1 == 0, b <= 1 ==> b | 1 == 1 {
    assert((b & !1u8 == 0) == (b <= 1)) by (bit_vector); assert(b & 1 <= 1) by (bit_vector); assert(0u8 & 1 == 0) by (bit_vector); assert(b <= 1 ==> b | 1 == 1) by (bit_vector);
}
pub proof fn connack_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && 0 <= n <= 0xfffffff && (connack_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 3 <= k && k == connack_body(v).len()),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) { pparse_len(s.skip(h).take(n).skip(2)); }
}
@@ fn MqttSerialize for ConnAckFlags::serialize
@@ members MqttUncheckedDeserialize for ConnAckFlags
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for ConnAckFlags::fixed_size
@@ fn MqttUncheckedDeserialize for ConnAckFlags::unchecked_deserialize
@@ tags C01,C06
@@ entry
    proof { caf_bits($0.bv()[0]); }
@@ fn ConnAck::new
@@ tags C07
    ensures ret.inv(), ret.flags.bits == 0, ret.reason_code == ConnAckReasonCode::Success, ret.props.size == 0, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ entry
    proof { caf_bits(0); }
@@ fn ConnAck::flags
@@ tags C07
    ensures ret == self.flags,
@@ fn ConnAck::set_session_present
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), *final(self) == (ConnAck { flags: ConnAckFlags { bits: 1 }, ..*old(self) }),
@@ entry
    proof { caf_bits(self.flags.bits); }
@@ fn ConnAck::reason_code
@@ tags C07
    ensures ret == self.vv().rc,
@@ fn ConnAck::set_reason_code
@@ tags C07
    ensures *final(self) == (ConnAck { reason_code: $0, ..*old(self) }),
@@ fn ConnAck::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::CONNACK) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && final(self).props.size <= old(self).props.size + 0x20008 && *final(self) == (ConnAck { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn ConnAck::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn ConnAck::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn ConnAck::build
@@ tags C07
    ensures ret == Packet::ConnAck(self),
@@ fn ConnAck::partial_size
@@ tags C03
    requires self.inv(), ConnAck::fits(self.vv()),
    ensures ret == connack_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ fn MqttSerialize for ConnAck::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
    let ghost o0 = $0.out();
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for ConnAck::deserialize
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { connack_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    proof { assert(bb =~= s0.skip(h).take(n)); }
@@ let reason_code
    proof { assert(connack_of(bb[1]) == Some(reason_code)); assert(buf.bv() == bb.skip(2)); pparse_len(bb.skip(2)); }
@@ let packet
    proof { same_len(packet.vv().props, connack_bparse(__b_buf.bv()).unwrap().0.props); }
@@ members MqttSize for ConnAck
    open spec fn mlo() -> nat { 4 }
    open spec fn mhi() -> nat { 4 }
@@ fn MqttSize for ConnAck::min_size
@@ tags C01
@@ fn MqttSize for ConnAck::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(connack_body(self.vv()).len()); }
@@ end
