@@ module publish
pub struct PublishV { pub flags: u8, pub topic: Seq<char>, pub id: Option<u16>, pub props: Seq<Ent>, pub payload: Seq<u8> }
pub open spec fn pf_qos(f: u8) -> Option<QoS> { if f & 6 == 0 { Some(QoS::QoS0) } else if f & 6 == 2 { Some(QoS::QoS1) } else if f & 6 == 4 { Some(QoS::QoS2) } else { None } }
pub open spec fn pf_of(q: QoS) -> u8 { match q { QoS::QoS0 => 0, QoS::QoS1 => 2, QoS::QoS2 => 4 } }
pub open spec fn pf_ok(f: u8) -> bool { f < 16 && f & 6 != 6 }
pub open spec fn oid_enc(v: Option<u16>) -> Seq<u8> { match v { Some(i) => be16(i as int), None => seq![] } }
pub open spec fn oid_parse(on: bool, b: Seq<u8>) -> Option<(Option<u16>, int)> { if !on { Some((None, 0)) } else if b.len() < 2 { None } else { Some((Some(ru16(b) as u16), 2)) } }
pub open spec fn publish_body(v: PublishV) -> Seq<u8> { str_enc(v.topic) + oid_enc(v.id) + Properties::enc(v.props) + v.payload }
pub open spec fn publish_bparse(f: u8, b: Seq<u8>) -> Option<(PublishV, int)> {
    match topic_parse(b) {
        Some((t, i)) => if wild(t) { None } else { match oid_parse(pf_qos(f) != Some(QoS::QoS0), b.skip(i)) {
            Some((id, j)) => match pparse(b.skip(i + j)) {
                Some((es, k)) => if !all_permit(to_map(es), PropOwner::PUBLISH) { None } else {
                    Some((PublishV { flags: f, topic: t, id, props: es, payload: b.skip(i + j + k) }, b.len() as int))
                },
                None => None,
            },
            None => None,
        } },
        None => None,
    }
}
pub open spec fn publish_ok(v: PublishV) -> bool {
    pf_ok(v.flags) && tstr_ok(v.topic) && !wild(v.topic) && props_ok(v.props, PropOwner::PUBLISH) && (v.flags & 6 == 0 <==> v.id is None)
}
impl Wire for PublishFlags {
    type V = u8;
    open spec fn vv(&self) -> u8 { self.bits }
    open spec fn inv(&self) -> bool { pf_ok(self.bits) }
    open spec fn fits(v: u8) -> bool { true }
    open spec fn same(a: u8, b: u8) -> bool { a == b }
    open spec fn enc(v: u8) -> Seq<u8> { seq![v] }
    open spec fn parse(s: Seq<u8>) -> Option<(u8, int)> { if s.len() < 1 || !pf_ok(s[0]) { None } else { Some((s[0], 1)) } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Wire for Publish {
    type V = PublishV;
    open spec fn vv(&self) -> PublishV {
        PublishV { flags: self.flags.bits, topic: self.topic_name.vv(), id: match self.packet_identifier { Some(i) => Some(i.vv()), None => None }, props: self.props.vv(), payload: self.payload@ }
    }
    open spec fn inv(&self) -> bool {
        pf_ok(self.flags.bits) && self.topic_name.inv() && !wild(self.topic_name.vv()) && self.props.inv() && self.props.valid_for(PropOwner::PUBLISH)
            && (self.flags.bits & 6 == 0 ==> self.packet_identifier is None)
    }
    /// a publish that is not QoS 0 is written only with its packet identifier set
    open spec fn fits(v: PublishV) -> bool { publish_body(v).len() <= 0xfffffff && (v.flags & 6 != 0 ==> v.id is Some) }
    open spec fn same(a: PublishV, b: PublishV) -> bool { a.flags == b.flags && a.topic == b.topic && a.id == b.id && Properties::same(a.props, b.props) && a.payload == b.payload }
    /// the flags are part of the first byte, which `Packet` writes
    open spec fn enc(v: PublishV) -> Seq<u8> { vbi_enc(publish_body(v).len()) + publish_body(v) }
    /// the flags are handed over in a byte of their own in front
    open spec fn parse(s: Seq<u8>) -> Option<(PublishV, int)> {
        if s.len() < 1 || !pf_ok(s[0]) { None } else { match vbi(s.skip(1)) {
            Some((n, h)) => if s.len() < 1 + h + n { None } else { match publish_bparse(s[0], s.skip(1 + h).take(n)) { Some((v, k)) => Some((v, 1 + h + k)), None => None } },
            None => None,
        } }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
    open spec fn dpre(s: Seq<u8>) -> bool { s.len() >= 1 }
}
pub proof fn pf_bits(f: u8)
    ensures 2u8 | 4 == 6, (f & !15u8 == 0) == (f < 16), 0u8 & 15 == 0, 0u8 & 6 == 0,
        f & 6 == 0 || f & 6 == 2 || f & 6 == 4 || f & 6 == 6,
        f < 16 ==> f | 1 < 16 && f | 8 < 16, (f | 1) & 6 == f & 6, (f | 8) & 6 == f & 6,
        f < 16 ==> (f & !6u8) | 0 < 16 && (f & !6u8) | 2 < 16 && (f & !6u8) | 4 < 16,
        ((f & !6u8) | 0) & 6 == 0, ((f & !6u8) | 2) & 6 == 2, ((f & !6u8) | 4) & 6 == 4,
        ((f & !6u8) | 0) & !6u8 == f & !6u8, ((f & !6u8) | 2) & !6u8 == f & !6u8, ((f & !6u8) | 4) & !6u8 == f & !6u8,
{
    assert(2u8 | 4 == 6 && 0u8 & 15 == 0 && 0u8 & 6 == 0) by (bit_vector);
    assert((f & !15u8 == 0) == (f < 16)) by (bit_vector);
    assert(f & 6 == 0 || f & 6 == 2 || f & 6 == 4 || f & 6 == 6) by (bit_vector);
    assert((f < 16 ==> f | 1 < 16 && f | 8 < 16) && (f | 1) & 6 == f & 6 && (f | 8) & 6 == f & 6) by (bit_vector);
    assert(f < 16 ==> (f & !6u8) | 0 < 16 && (f & !6u8) | 2 < 16 && (f & !6u8) | 4 < 16) by (bit_vector);
    assert(((f & !6u8) | 0) & 6 == 0 && ((f & !6u8) | 2) & 6 == 2 && ((f & !6u8) | 4) & 6 == 4) by (bit_vector);
    assert(((f & !6u8) | 0) & !6u8 == f & !6u8 && ((f & !6u8) | 2) & !6u8 == f & !6u8 && ((f & !6u8) | 4) & !6u8 == f & !6u8) by (bit_vector);
}
pub proof fn publish_facts(s: Seq<u8>)
    ensures s.len() >= 1 ==> (vbi(s.skip(1)) matches Some((n, h)) ==> 1 <= h <= 4 && 0 <= n <= 0xfffffff && (publish_bparse(s[0], s.skip(1 + h).take(n)) matches Some((v, k)) ==> 3 <= k && k <= s.skip(1 + h).take(n).len())),
{
    if s.len() >= 1 {
        vbi_parse_len(s.skip(1));
        if let Some((n, h)) = vbi(s.skip(1)) {
            let b = s.skip(1 + h).take(n);
            str_parse_len(b);
            if let Some((t, i)) = topic_parse(b) { pparse_len(b.skip(i)); pparse_len(b.skip(i + 2)); }
        }
    }
}
@@ members MqttUncheckedDeserialize for PublishFlags
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for PublishFlags::unchecked_deserialize
@@ tags C01,C06
@@ entry
    proof { pf_bits($0.bv()[0]); }
@@ fn MqttUncheckedDeserialize for PublishFlags::fixed_size
@@ members From<QoS> for PublishFlags
    open spec fn of(q: QoS) -> PublishFlags { PublishFlags { bits: pf_of(q) } }
@@ fn From<QoS> for PublishFlags::from
@@ tags C07
@@ entry
    proof { pf_bits(0); }
@@ members TryInto<QoS> for PublishFlags
    open spec fn tri_err(self, e: DataParseError) -> bool { !(e is InsufficientBuffer) }
    open spec fn tri(self) -> Option<QoS> { pf_qos(self.bits) }
@@ fn TryInto<QoS> for PublishFlags::try_into
@@ tags C01,C06
@@ entry
    proof { pf_bits(self.bits); }
@@ fn Publish::new
@@ tags C07,C09
    ensures ret is Ok <==> tstr_ok($0@) && !wild($0@),
        ret matches Ok(p) ==> p.inv() && p.flags.bits == 0 && p.topic_name.vv() == $0@ && p.packet_identifier is None && p.props.pmap() == Map::<Property, Seq<PV>>::empty() && p.payload@ == $1@,
@@ entry
    proof { pf_bits(0); }
@@ fn Publish::topic_name
@@ tags C07
    ensures ret@ == self.vv().topic,
@@ fn Publish::packet_identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn Publish::set_retain
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), *final(self) == (Publish { flags: PublishFlags { bits: old(self).flags.bits | 1 }, ..*old(self) }),
@@ entry
    proof { pf_bits(self.flags.bits); }
@@ fn Publish::set_dup
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), *final(self) == (Publish { flags: PublishFlags { bits: old(self).flags.bits | 8 }, ..*old(self) }),
@@ entry
    proof { pf_bits(self.flags.bits); }
@@ fn Publish::set_packet_identifier
@@ tags C07,C01
    requires old(self).inv(),
    ensures final(self).inv(), ret is Ok <==> old(self).flags.bits & 6 != 0,
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).vv().id == Some($0) && *final(self) == (Publish { packet_identifier: final(self).packet_identifier, ..*old(self) }),
@@ entry
    proof { pf_bits(self.flags.bits); }
@@ fn Publish::flags
@@ tags C07
    ensures ret == self.flags,
@@ fn Publish::set_qos
@@ tags C07,C02
    requires old(self).inv(),
    ensures final(self).inv(),
        final(self).flags.bits & 6 == pf_of($0), final(self).flags.bits & !6u8 == old(self).flags.bits & !6u8,
        final(self).packet_identifier == (if $0 == QoS::QoS0 { None } else { old(self).packet_identifier }),
        *final(self) == (Publish { flags: final(self).flags, packet_identifier: final(self).packet_identifier, ..*old(self) }),
@@ entry
    proof { pf_bits(self.flags.bits); }
@@ fn Publish::qos
@@ tags C07,C01
    requires self.inv(),
    ensures Some(ret) == pf_qos(self.flags.bits),
@@ entry
    proof { pf_bits(self.flags.bits); }
@@ fn Publish::set_payload
@@ tags C07,C14
    ensures final(self).payload@ == $0.bv(), *final(self) == (Publish { payload: final(self).payload, ..*old(self) }),
@@ fn Publish::set_payload_bytes
@@ tags C07,C14
    ensures final(self).payload@ == $0@, *final(self) == (Publish { payload: final(self).payload, ..*old(self) }),
@@ fn Publish::payload
@@ tags C07,C14
    ensures ret@ == self.vv().payload,
@@ fn Publish::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::PUBLISH) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (Publish { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn Publish::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn Publish::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn Publish::build
@@ tags C07
    ensures ret == Packet::Publish(self),
@@ fn Publish::partial_size
@@ tags C03
    requires self.inv(), Publish::fits(self.vv()),
    ensures ret == publish_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ fn MqttSerialize for Publish::serialize
@@ tags C02,C03,C08
@@ entry
    let ghost o0 = $0.out();
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for Publish::deserialize
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@@ tags C01,C02,C04,C06
@@ entry
    hide(vbi_parse); hide(pparse); hide(to_map); hide(esum); hide(vbi_enc); hide(str_parse); hide(wild); hide(str_enc); hide(topic_ok); hide(all_permit); hide(map_ok); hide(ents); hide(str_ok);
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0.skip(1)) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0.skip(1)) { n } else { 0 };
    proof { publish_facts(s0); pf_bits(s0[0]); }
@@ let buf
    let ghost bb = buf.bv();
    proof { assert(bb =~= s0.skip(1 + h).take(n)); str_parse_len(bb); }
@@ let topic_name
    let ghost i = topic_parse(bb).unwrap().1;
    proof { assert(buf.bv() == bb.skip(i)); }
@@ let packet_identifier
    let ghost j = if packet_identifier is None { 0int } else { 2 };
    proof {
        assert(buf.bv() == bb.skip(i + j));
        assert(oid_parse(pf_qos(s0[0]) != Some(QoS::QoS0), bb.skip(i)) matches Some((id, jj)) && jj == j && id == (match packet_identifier { Some(k) => Some(k.vv()), None => None::<u16> }));
        pparse_len(bb.skip(i + j));
    }
@@ let props
    let ghost k = pparse(bb.skip(i + j)).unwrap().1;
    let ghost rest = bb.skip(i + j + k);
    proof { assert(buf.bv() =~= rest); assert(rest.take(rest.len() as int) =~= rest); assert(rest.skip(rest.len() as int).len() == 0); }
@@ members MqttSize for Publish
    open spec fn mlo() -> nat { 3 }
    open spec fn mhi() -> nat { 4 }
@@ fn MqttSize for Publish::min_size
@@ tags C01
@@ fn MqttSize for Publish::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(publish_body(self.vv()).len()); }
@@ end
