@@ module puback
pub struct AckV<R> { pub id: u16, pub rc: R, pub props: Seq<Ent> }
pub open spec fn puback_body(v: AckV<PubAckReasonCode>) -> Seq<u8> { be16(v.id as int) + seq![puback_code(v.rc)] + Properties::enc(v.props) }
pub open spec fn puback_bparse(b: Seq<u8>) -> Option<(AckV<PubAckReasonCode>, int)> { if b.len() < 3 { None } else { match puback_of(b[2]) {
        Some(rc) => match pparse(b.skip(3)) { Some((es, k)) => if !all_permit(to_map(es), PropOwner::PUBACK) { None } else { Some((AckV { id: ru16(b) as u16, rc, props: es }, 3 + k)) }, None => None },
        None => None,
    } } }
/// what every value a program can hold satisfies
pub open spec fn puback_ok(v: AckV<PubAckReasonCode>) -> bool { props_ok(v.props, PropOwner::PUBACK) }
impl Wire for PubAck {
    type V = AckV<PubAckReasonCode>;
    open spec fn vv(&self) -> AckV<PubAckReasonCode> { AckV { id: self.packet_identifier.vv(), rc: self.reason_code, props: self.props.vv() } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::PUBACK) }
    open spec fn fits(v: AckV<PubAckReasonCode>) -> bool { puback_body(v).len() <= 0xfffffff && true }
    open spec fn same(a: AckV<PubAckReasonCode>, b: AckV<PubAckReasonCode>) -> bool { a.id == b.id && a.rc == b.rc && Properties::same(a.props, b.props) }
    open spec fn enc(v: AckV<PubAckReasonCode>) -> Seq<u8> { vbi_enc(puback_body(v).len()) + puback_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(AckV<PubAckReasonCode>, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match puback_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn puback_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && (puback_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 4 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) { pparse_len(s.skip(h).take(n).skip(3)); }
}
@@ fn PubAck::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.reason_code == PubAckReasonCode::Success, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn PubAck::identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn PubAck::reason_code
@@ tags C07
    ensures ret == self.vv().rc,
@@ fn PubAck::set_reason_code
@@ tags C07
    ensures *final(self) == (PubAck { reason_code: $0, ..*old(self) }),
@@ fn PubAck::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::PUBACK) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (PubAck { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn PubAck::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn PubAck::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn PubAck::build
@@ tags C07
    ensures ret == Packet::PubAck(self),
@@ fn PubAck::partial_size
@@ tags C03
    requires self.inv(), PubAck::fits(self.vv()),
    ensures ret == puback_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ fn MqttSerialize for PubAck::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
    let ghost o0 = $0.out();
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for PubAck::deserialize
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { puback_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); }
@@ let reason_code
    proof { assert(puback_of(bb[2]) == Some(reason_code)); assert(buf.bv() == bb.skip(3)); }
@@ members MqttSize for PubAck
    open spec fn mlo() -> nat { 5 }
    open spec fn mhi() -> nat { 5 }
@@ fn MqttSize for PubAck::min_size
@@ tags C01
@@ fn MqttSize for PubAck::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(puback_body(self.vv()).len()); }

@@ module pubrec
pub open spec fn pubrec_body(v: AckV<PubAckReasonCode>) -> Seq<u8> { be16(v.id as int) + seq![puback_code(v.rc)] + Properties::enc(v.props) }
pub open spec fn pubrec_bparse(b: Seq<u8>) -> Option<(AckV<PubAckReasonCode>, int)> { if b.len() < 3 { None } else { match puback_of(b[2]) {
        Some(rc) => match pparse(b.skip(3)) { Some((es, k)) => if !all_permit(to_map(es), PropOwner::PUBREC) { None } else { Some((AckV { id: ru16(b) as u16, rc, props: es }, 3 + k)) }, None => None },
        None => None,
    } } }
/// what every value a program can hold satisfies
pub open spec fn pubrec_ok(v: AckV<PubAckReasonCode>) -> bool { props_ok(v.props, PropOwner::PUBREC) }
impl Wire for PubRec {
    type V = AckV<PubAckReasonCode>;
    open spec fn vv(&self) -> AckV<PubAckReasonCode> { AckV { id: self.packet_identifier.vv(), rc: self.reason_code, props: self.props.vv() } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::PUBREC) }
    open spec fn fits(v: AckV<PubAckReasonCode>) -> bool { pubrec_body(v).len() <= 0xfffffff && true }
    open spec fn same(a: AckV<PubAckReasonCode>, b: AckV<PubAckReasonCode>) -> bool { a.id == b.id && a.rc == b.rc && Properties::same(a.props, b.props) }
    open spec fn enc(v: AckV<PubAckReasonCode>) -> Seq<u8> { vbi_enc(pubrec_body(v).len()) + pubrec_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(AckV<PubAckReasonCode>, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match pubrec_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn pubrec_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && (pubrec_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 4 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) { pparse_len(s.skip(h).take(n).skip(3)); }
}
@@ fn PubRec::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.reason_code == PubAckReasonCode::Success, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn PubRec::identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn PubRec::reason_code
@@ tags C07
    ensures ret == self.vv().rc,
@@ fn PubRec::set_reason_code
@@ tags C07
    ensures *final(self) == (PubRec { reason_code: $0, ..*old(self) }),
@@ fn PubRec::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::PUBREC) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (PubRec { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn PubRec::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn PubRec::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn PubRec::build
@@ tags C07
    ensures ret == Packet::PubRec(self),
@@ fn PubRec::partial_size
@@ tags C03
    requires self.inv(), PubRec::fits(self.vv()),
    ensures ret == pubrec_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ fn MqttSerialize for PubRec::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
    let ghost o0 = $0.out();
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for PubRec::deserialize
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { pubrec_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); }
@@ let reason_code
    proof { assert(puback_of(bb[2]) == Some(reason_code)); assert(buf.bv() == bb.skip(3)); }
@@ members MqttSize for PubRec
    open spec fn mlo() -> nat { 5 }
    open spec fn mhi() -> nat { 5 }
@@ fn MqttSize for PubRec::min_size
@@ tags C01
@@ fn MqttSize for PubRec::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(pubrec_body(self.vv()).len()); }

@@ module pubrel
pub open spec fn pubrel_body(v: AckV<PubRelReasonCode>) -> Seq<u8> { be16(v.id as int) + seq![pubrel_code(v.rc)] + Properties::enc(v.props) }
pub open spec fn pubrel_bparse(b: Seq<u8>) -> Option<(AckV<PubRelReasonCode>, int)> { if b.len() < 3 { None } else { match pubrel_of(b[2]) {
        Some(rc) => match pparse(b.skip(3)) { Some((es, k)) => if !all_permit(to_map(es), PropOwner::PUBREL) { None } else { Some((AckV { id: ru16(b) as u16, rc, props: es }, 3 + k)) }, None => None },
        None => None,
    } } }
/// what every value a program can hold satisfies
pub open spec fn pubrel_ok(v: AckV<PubRelReasonCode>) -> bool { props_ok(v.props, PropOwner::PUBREL) }
impl Wire for PubRel {
    type V = AckV<PubRelReasonCode>;
    open spec fn vv(&self) -> AckV<PubRelReasonCode> { AckV { id: self.packet_identifier.vv(), rc: self.reason_code, props: self.props.vv() } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::PUBREL) }
    open spec fn fits(v: AckV<PubRelReasonCode>) -> bool { pubrel_body(v).len() <= 0xfffffff && true }
    open spec fn same(a: AckV<PubRelReasonCode>, b: AckV<PubRelReasonCode>) -> bool { a.id == b.id && a.rc == b.rc && Properties::same(a.props, b.props) }
    open spec fn enc(v: AckV<PubRelReasonCode>) -> Seq<u8> { vbi_enc(pubrel_body(v).len()) + pubrel_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(AckV<PubRelReasonCode>, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match pubrel_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn pubrel_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && (pubrel_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 4 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) { pparse_len(s.skip(h).take(n).skip(3)); }
}
@@ fn PubRel::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.reason_code == PubRelReasonCode::Success, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn PubRel::identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn PubRel::reason_code
@@ tags C07
    ensures ret == self.vv().rc,
@@ fn PubRel::set_reason_code
@@ tags C07
    ensures *final(self) == (PubRel { reason_code: $0, ..*old(self) }),
@@ fn PubRel::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::PUBREL) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (PubRel { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn PubRel::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn PubRel::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn PubRel::build
@@ tags C07
    ensures ret == Packet::PubRel(self),
@@ fn PubRel::partial_size
@@ tags C03
    requires self.inv(), PubRel::fits(self.vv()),
    ensures ret == pubrel_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ fn MqttSerialize for PubRel::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
    let ghost o0 = $0.out();
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for PubRel::deserialize
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { pubrel_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); }
@@ let reason_code
    proof { assert(pubrel_of(bb[2]) == Some(reason_code)); assert(buf.bv() == bb.skip(3)); }
@@ members MqttSize for PubRel
    open spec fn mlo() -> nat { 5 }
    open spec fn mhi() -> nat { 5 }
@@ fn MqttSize for PubRel::min_size
@@ tags C01
@@ fn MqttSize for PubRel::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(pubrel_body(self.vv()).len()); }

@@ module pubcomp
pub open spec fn pubcomp_body(v: AckV<PubRelReasonCode>) -> Seq<u8> { be16(v.id as int) + seq![pubrel_code(v.rc)] + Properties::enc(v.props) }
pub open spec fn pubcomp_bparse(b: Seq<u8>) -> Option<(AckV<PubRelReasonCode>, int)> { if b.len() < 3 { None } else { match pubrel_of(b[2]) {
        Some(rc) => match pparse(b.skip(3)) { Some((es, k)) => if !all_permit(to_map(es), PropOwner::PUBCOMP) { None } else { Some((AckV { id: ru16(b) as u16, rc, props: es }, 3 + k)) }, None => None },
        None => None,
    } } }
/// what every value a program can hold satisfies
pub open spec fn pubcomp_ok(v: AckV<PubRelReasonCode>) -> bool { props_ok(v.props, PropOwner::PUBCOMP) }
impl Wire for PubComp {
    type V = AckV<PubRelReasonCode>;
    open spec fn vv(&self) -> AckV<PubRelReasonCode> { AckV { id: self.packet_identifier.vv(), rc: self.reason_code, props: self.props.vv() } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::PUBCOMP) }
    open spec fn fits(v: AckV<PubRelReasonCode>) -> bool { pubcomp_body(v).len() <= 0xfffffff && true }
    open spec fn same(a: AckV<PubRelReasonCode>, b: AckV<PubRelReasonCode>) -> bool { a.id == b.id && a.rc == b.rc && Properties::same(a.props, b.props) }
    open spec fn enc(v: AckV<PubRelReasonCode>) -> Seq<u8> { vbi_enc(pubcomp_body(v).len()) + pubcomp_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(AckV<PubRelReasonCode>, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match pubcomp_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn pubcomp_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && (pubcomp_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 4 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) { pparse_len(s.skip(h).take(n).skip(3)); }
}
@@ fn PubComp::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.reason_code == PubRelReasonCode::Success, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn PubComp::identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn PubComp::reason_code
@@ tags C07
    ensures ret == self.vv().rc,
@@ fn PubComp::set_reason_code
@@ tags C07
    ensures *final(self) == (PubComp { reason_code: $0, ..*old(self) }),
@@ fn PubComp::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::PUBCOMP) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (PubComp { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn PubComp::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn PubComp::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn PubComp::build
@@ tags C07
    ensures ret == Packet::PubComp(self),
@@ fn PubComp::partial_size
@@ tags C03
    requires self.inv(), PubComp::fits(self.vv()),
    ensures ret == pubcomp_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ fn MqttSerialize for PubComp::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
    let ghost o0 = $0.out();
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for PubComp::deserialize
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { pubcomp_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); }
@@ let reason_code
    proof { assert(pubrel_of(bb[2]) == Some(reason_code)); assert(buf.bv() == bb.skip(3)); }
@@ members MqttSize for PubComp
    open spec fn mlo() -> nat { 5 }
    open spec fn mhi() -> nat { 5 }
@@ fn MqttSize for PubComp::min_size
@@ tags C01
@@ fn MqttSize for PubComp::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(pubcomp_body(self.vv()).len()); }

@@ module auth
pub struct RcV<R> { pub rc: R, pub props: Seq<Ent> }
pub open spec fn auth_body(v: RcV<AuthReasonCode>) -> Seq<u8> { seq![auth_code(v.rc)] + Properties::enc(v.props) }
pub open spec fn auth_bparse(b: Seq<u8>) -> Option<(RcV<AuthReasonCode>, int)> { if b.len() < 1 { None } else { match auth_of(b[0]) {
        Some(rc) => match pparse(b.skip(1)) { Some((es, k)) => if !all_permit(to_map(es), PropOwner::AUTH) { None } else { Some((RcV { rc, props: es }, 1 + k)) }, None => None },
        None => None,
    } } }
/// what every value a program can hold satisfies
pub open spec fn auth_ok(v: RcV<AuthReasonCode>) -> bool { props_ok(v.props, PropOwner::AUTH) }
impl Wire for Auth {
    type V = RcV<AuthReasonCode>;
    open spec fn vv(&self) -> RcV<AuthReasonCode> { RcV { rc: self.reason_code, props: self.props.vv() } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::AUTH) }
    open spec fn fits(v: RcV<AuthReasonCode>) -> bool { auth_body(v).len() <= 0xfffffff && true }
    open spec fn same(a: RcV<AuthReasonCode>, b: RcV<AuthReasonCode>) -> bool { a.rc == b.rc && Properties::same(a.props, b.props) }
    open spec fn enc(v: RcV<AuthReasonCode>) -> Seq<u8> { vbi_enc(auth_body(v).len()) + auth_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(RcV<AuthReasonCode>, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match auth_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn auth_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && (auth_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 2 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) { pparse_len(s.skip(h).take(n).skip(1)); }
}
@@ fn Auth::new
@@ tags C07
    ensures ret.inv(), ret.reason_code == $0, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn Auth::reason_code
@@ tags C07
    ensures ret == self.vv().rc,
@@ fn Auth::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::AUTH) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (Auth { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn Auth::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn Auth::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn Auth::build
@@ tags C07
    ensures ret == Packet::Auth(self),
@@ fn Auth::partial_size
@@ tags C03
    requires self.inv(), Auth::fits(self.vv()),
    ensures ret == auth_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ fn MqttSerialize for Auth::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
    let ghost o0 = $0.out();
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for Auth::deserialize
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { auth_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); }
@@ members MqttSize for Auth
    open spec fn mlo() -> nat { 3 }
    open spec fn mhi() -> nat { 3 }
@@ fn MqttSize for Auth::min_size
@@ tags C01
@@ fn MqttSize for Auth::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(auth_body(self.vv()).len()); }

@@ module disconnect
pub open spec fn disconnect_body(v: RcV<DisconnectReasonCode>) -> Seq<u8> { seq![disconnect_code(v.rc)] + Properties::enc(v.props) }
pub open spec fn disconnect_bparse(b: Seq<u8>) -> Option<(RcV<DisconnectReasonCode>, int)> { if b.len() < 1 { None } else { match disconnect_of(b[0]) {
        Some(rc) => match pparse(b.skip(1)) { Some((es, k)) => if !all_permit(to_map(es), PropOwner::DISCONNECT) { None } else { Some((RcV { rc, props: es }, 1 + k)) }, None => None },
        None => None,
    } } }
/// what every value a program can hold satisfies
pub open spec fn disconnect_ok(v: RcV<DisconnectReasonCode>) -> bool { props_ok(v.props, PropOwner::DISCONNECT) }
impl Wire for Disconnect {
    type V = RcV<DisconnectReasonCode>;
    open spec fn vv(&self) -> RcV<DisconnectReasonCode> { RcV { rc: self.reason_code, props: self.props.vv() } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::DISCONNECT) }
    open spec fn fits(v: RcV<DisconnectReasonCode>) -> bool { disconnect_body(v).len() <= 0xfffffff && true }
    open spec fn same(a: RcV<DisconnectReasonCode>, b: RcV<DisconnectReasonCode>) -> bool { a.rc == b.rc && Properties::same(a.props, b.props) }
    open spec fn enc(v: RcV<DisconnectReasonCode>) -> Seq<u8> { vbi_enc(disconnect_body(v).len()) + disconnect_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(RcV<DisconnectReasonCode>, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match disconnect_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn disconnect_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && (disconnect_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 2 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) { pparse_len(s.skip(h).take(n).skip(1)); }
}
@@ fn Disconnect::new
@@ tags C07
    ensures ret.inv(), ret.reason_code == $0, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn Disconnect::reason_code
@@ tags C07
    ensures ret == self.vv().rc,
@@ fn Disconnect::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::DISCONNECT) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (Disconnect { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn Disconnect::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn Disconnect::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn Disconnect::build
@@ tags C07
    ensures ret == Packet::Disconnect(self),
@@ fn Disconnect::partial_size
@@ tags C03
    requires self.inv(), Disconnect::fits(self.vv()),
    ensures ret == disconnect_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ fn MqttSerialize for Disconnect::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
    let ghost o0 = $0.out();
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for Disconnect::deserialize
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { disconnect_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); }
@@ members MqttSize for Disconnect
    open spec fn mlo() -> nat { 3 }
    open spec fn mhi() -> nat { 3 }
@@ fn MqttSize for Disconnect::min_size
@@ tags C01
@@ fn MqttSize for Disconnect::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(disconnect_body(self.vv()).len()); }

@@ module suback
pub struct RcsV<R> { pub id: u16, pub props: Seq<Ent>, pub rcs: Seq<R> }
pub open spec fn suback_rcs_enc(r: Seq<SubAckReasonCode>) -> Seq<u8> { Seq::new(r.len(), |i: int| suback_code(r[i])) }
pub open spec fn suback_rcs_ok(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> suback_of(#[trigger] b[i]) is Some }
pub open spec fn suback_rcs(b: Seq<u8>) -> Seq<SubAckReasonCode> { Seq::new(b.len(), |i: int| suback_of(b[i]).unwrap()) }
pub open spec fn suback_body(v: RcsV<SubAckReasonCode>) -> Seq<u8> { be16(v.id as int) + Properties::enc(v.props) + suback_rcs_enc(v.rcs) }
pub open spec fn suback_bparse(b: Seq<u8>) -> Option<(RcsV<SubAckReasonCode>, int)> { if b.len() < 2 { None } else { match pparse(b.skip(2)) {
        Some((es, k)) => if !all_permit(to_map(es), PropOwner::SUBACK) || 2 + k >= b.len() || !suback_rcs_ok(b.skip(2 + k)) { None } else {
            Some((RcsV { id: ru16(b) as u16, props: es, rcs: suback_rcs(b.skip(2 + k)) }, b.len() as int))
        },
        None => None,
    } } }
/// what every value a program can hold satisfies
pub open spec fn suback_ok(v: RcsV<SubAckReasonCode>) -> bool { props_ok(v.props, PropOwner::SUBACK) }
impl Wire for SubAck {
    type V = RcsV<SubAckReasonCode>;
    open spec fn vv(&self) -> RcsV<SubAckReasonCode> { RcsV { id: self.packet_identifier.vv(), props: self.props.vv(), rcs: self.reason_codes@ } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::SUBACK) }
    open spec fn fits(v: RcsV<SubAckReasonCode>) -> bool { suback_body(v).len() <= 0xfffffff && v.rcs.len() > 0 }
    open spec fn same(a: RcsV<SubAckReasonCode>, b: RcsV<SubAckReasonCode>) -> bool { a.id == b.id && a.rcs == b.rcs && Properties::same(a.props, b.props) }
    open spec fn enc(v: RcsV<SubAckReasonCode>) -> Seq<u8> { vbi_enc(suback_body(v).len()) + suback_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(RcsV<SubAckReasonCode>, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match suback_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn suback_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && (suback_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 4 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) { pparse_len(s.skip(h).take(n).skip(2)); }
}
@@ fn SubAck::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.reason_codes@.len() == 0, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn SubAck::identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn SubAck::reason_codes
@@ tags C07
    ensures ret@ == self.vv().rcs,
@@ fn SubAck::add_reason_code
@@ tags C07,C17
    ensures final(self).reason_codes@ == old(self).reason_codes@.push($0), *final(self) == (SubAck { reason_codes: final(self).reason_codes, ..*old(self) }),
@@ fn SubAck::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::SUBACK) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (SubAck { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn SubAck::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn SubAck::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn SubAck::build
@@ tags C07
    ensures ret == Packet::SubAck(self),
@@ fn SubAck::partial_size
@@ tags C03
    requires self.inv(), SubAck::fits(self.vv()),
    ensures ret == suback_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ loop 0
    invariant self.inv(), SubAck::fits(self.vv()), __it1@ == self.reason_codes.it(), __i1 <= __it1@.len(), __acc0 == __i1,
    decreases __it1@.len() - __i1
@@ fn MqttSerialize for SubAck::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
    let ghost o0 = $0.out();
@@ loop 0
    invariant __it0@ == self.reason_codes.it(), __i0 <= __it0@.len(),
        (*$0).out() =~= o0 + vbi_enc(suback_body(self.vv()).len()) + be16(self.vv().id as int) + Properties::enc(self.vv().props) + suback_rcs_enc(self.vv().rcs).take(__i0 as int),
    decreases __it0@.len() - __i0
@@ loop-body 0
    proof { let r = suback_rcs_enc(self.vv().rcs); assert(r.take(__i0 + 1) =~= r.take(__i0 as int).push(r[__i0 as int])); }
@@ tail
    proof { assert(suback_rcs_enc(self.vv().rcs).take(self.vv().rcs.len() as int) =~= suback_rcs_enc(self.vv().rcs)); assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for SubAck::deserialize
@@ attr #[verifier::loop_isolation(false)]
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { suback_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); }
@@ let props
    let ghost c0 = bb.len() - buf.bv().len();
    proof { pparse_len(bb.skip(2)); }
@@ loop 0
    invariant
        buf.pr() == fr, c0 <= bb.len(), buf.bv() == bb.skip(c0 + reason_codes@.len()), c0 + reason_codes@.len() <= bb.len(),
        forall|i: int| 0 <= i < reason_codes@.len() ==> suback_of(bb[c0 + i]) == Some(#[trigger] reason_codes@[i]),
    decreases buf.bv().len()
@@ loop-body 0
    proof { let i = reason_codes@.len() as int; assert(bb.skip(c0)[i] == bb[c0 + i]); assert(buf.bv()[0] == bb[c0 + i]); }
@@ loop-after 0
    proof {
        assert(bb.skip(c0).len() == reason_codes@.len());
        assert forall|i: int| 0 <= i < bb.skip(c0).len() implies suback_of(#[trigger] bb.skip(c0)[i]) == Some(reason_codes@[i]) by { }
        assert(suback_rcs(bb.skip(c0)) =~= reason_codes@);
    }
@@ members MqttSize for SubAck
    open spec fn mlo() -> nat { 5 }
    open spec fn mhi() -> nat { 5 }
@@ fn MqttSize for SubAck::min_size
@@ tags C01
@@ fn MqttSize for SubAck::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(suback_body(self.vv()).len()); }

@@ module unsuback
pub open spec fn unsuback_rcs_enc(r: Seq<UnsubAckReasonCode>) -> Seq<u8> { Seq::new(r.len(), |i: int| unsuback_code(r[i])) }
pub open spec fn unsuback_rcs_ok(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> unsuback_of(#[trigger] b[i]) is Some }
pub open spec fn unsuback_rcs(b: Seq<u8>) -> Seq<UnsubAckReasonCode> { Seq::new(b.len(), |i: int| unsuback_of(b[i]).unwrap()) }
pub open spec fn unsuback_body(v: RcsV<UnsubAckReasonCode>) -> Seq<u8> { be16(v.id as int) + Properties::enc(v.props) + unsuback_rcs_enc(v.rcs) }
pub open spec fn unsuback_bparse(b: Seq<u8>) -> Option<(RcsV<UnsubAckReasonCode>, int)> { if b.len() < 2 { None } else { match pparse(b.skip(2)) {
        Some((es, k)) => if !all_permit(to_map(es), PropOwner::UNSUBACK) || 2 + k >= b.len() || !unsuback_rcs_ok(b.skip(2 + k)) { None } else {
            Some((RcsV { id: ru16(b) as u16, props: es, rcs: unsuback_rcs(b.skip(2 + k)) }, b.len() as int))
        },
        None => None,
    } } }
/// what every value a program can hold satisfies
pub open spec fn unsuback_ok(v: RcsV<UnsubAckReasonCode>) -> bool { props_ok(v.props, PropOwner::UNSUBACK) }
impl Wire for UnsubAck {
    type V = RcsV<UnsubAckReasonCode>;
    open spec fn vv(&self) -> RcsV<UnsubAckReasonCode> { RcsV { id: self.packet_identifier.vv(), props: self.props.vv(), rcs: self.reason_codes@ } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::UNSUBACK) }
    open spec fn fits(v: RcsV<UnsubAckReasonCode>) -> bool { unsuback_body(v).len() <= 0xfffffff && v.rcs.len() > 0 }
    open spec fn same(a: RcsV<UnsubAckReasonCode>, b: RcsV<UnsubAckReasonCode>) -> bool { a.id == b.id && a.rcs == b.rcs && Properties::same(a.props, b.props) }
    open spec fn enc(v: RcsV<UnsubAckReasonCode>) -> Seq<u8> { vbi_enc(unsuback_body(v).len()) + unsuback_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(RcsV<UnsubAckReasonCode>, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match unsuback_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn unsuback_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && (unsuback_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 4 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) { pparse_len(s.skip(h).take(n).skip(2)); }
}
@@ fn UnsubAck::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.reason_codes@.len() == 0, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn UnsubAck::identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn UnsubAck::reason_codes
@@ tags C07
    ensures ret@ == self.vv().rcs,
@@ fn UnsubAck::add_reason_code
@@ tags C07,C17
    ensures final(self).reason_codes@ == old(self).reason_codes@.push($0), *final(self) == (UnsubAck { reason_codes: final(self).reason_codes, ..*old(self) }),
@@ fn UnsubAck::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::UNSUBACK) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (UnsubAck { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn UnsubAck::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn UnsubAck::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn UnsubAck::build
@@ tags C07
    ensures ret == Packet::UnsubAck(self),
@@ fn UnsubAck::partial_size
@@ tags C03
    requires self.inv(), UnsubAck::fits(self.vv()),
    ensures ret == unsuback_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
@@ loop 0
    invariant self.inv(), UnsubAck::fits(self.vv()), __it1@ == self.reason_codes.it(), __i1 <= __it1@.len(), __acc0 == __i1,
    decreases __it1@.len() - __i1
@@ fn MqttSerialize for UnsubAck::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }
    let ghost o0 = $0.out();
@@ loop 0
    invariant __it0@ == self.reason_codes.it(), __i0 <= __it0@.len(),
        (*$0).out() =~= o0 + vbi_enc(unsuback_body(self.vv()).len()) + be16(self.vv().id as int) + Properties::enc(self.vv().props) + unsuback_rcs_enc(self.vv().rcs).take(__i0 as int),
    decreases __it0@.len() - __i0
@@ loop-body 0
    proof { let r = unsuback_rcs_enc(self.vv().rcs); assert(r.take(__i0 + 1) =~= r.take(__i0 as int).push(r[__i0 as int])); }
@@ tail
    proof { assert(unsuback_rcs_enc(self.vv().rcs).take(self.vv().rcs.len() as int) =~= unsuback_rcs_enc(self.vv().rcs)); assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for UnsubAck::deserialize
@@ attr #[verifier::loop_isolation(false)]
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { unsuback_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); }
@@ let props
    let ghost c0 = bb.len() - buf.bv().len();
    proof { pparse_len(bb.skip(2)); }
@@ loop 0
    invariant
        buf.pr() == fr, c0 <= bb.len(), buf.bv() == bb.skip(c0 + reason_codes@.len()), c0 + reason_codes@.len() <= bb.len(),
        forall|i: int| 0 <= i < reason_codes@.len() ==> unsuback_of(bb[c0 + i]) == Some(#[trigger] reason_codes@[i]),
    decreases buf.bv().len()
@@ loop-body 0
    proof { let i = reason_codes@.len() as int; assert(bb.skip(c0)[i] == bb[c0 + i]); assert(buf.bv()[0] == bb[c0 + i]); }
@@ loop-after 0
    proof {
        assert(bb.skip(c0).len() == reason_codes@.len());
        assert forall|i: int| 0 <= i < bb.skip(c0).len() implies unsuback_of(#[trigger] bb.skip(c0)[i]) == Some(reason_codes@[i]) by { }
        assert(unsuback_rcs(bb.skip(c0)) =~= reason_codes@);
    }
@@ members MqttSize for UnsubAck
    open spec fn mlo() -> nat { 5 }
    open spec fn mhi() -> nat { 5 }
@@ fn MqttSize for UnsubAck::min_size
@@ tags C01
@@ fn MqttSize for UnsubAck::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(unsuback_body(self.vv()).len()); }

@@ end
