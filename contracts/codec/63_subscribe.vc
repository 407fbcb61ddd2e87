@@ module subscribe
pub open spec fn so_ok(o: u8) -> bool { o < 64 && o & 3 != 3 && o & 0x30 != 0x30 }
pub open spec fn so_qos(o: u8) -> Option<QoS> { if o & 3 == 0 { Some(QoS::QoS0) } else if o & 3 == 1 { Some(QoS::QoS1) } else if o & 3 == 2 { Some(QoS::QoS2) } else { None } }
pub open spec fn so_rh(o: u8) -> Option<RetainHandling> { if o & 0x30 == 0 { Some(RetainHandling::Send) } else if o & 0x30 == 0x10 { Some(RetainHandling::SendIfNotExisting) } else if o & 0x30 == 0x20 { Some(RetainHandling::DoNotSend) } else { None } }
pub type SubT = (Seq<char>, u8);
pub struct SubV { pub id: u16, pub props: Seq<Ent>, pub topics: Seq<SubT> }
pub open spec fn sub1_enc(t: SubT) -> Seq<u8> { str_enc(t.0) + seq![t.1] }
pub open spec fn subs_enc(ts: Seq<SubT>) -> Seq<u8> decreases ts.len() { if ts.len() == 0 { seq![] } else { subs_enc(ts.drop_last()) + sub1_enc(ts.last()) } }
pub open spec fn sub1_parse(b: Seq<u8>) -> Option<(SubT, int)> {
    match topic_parse(b) { Some((t, k)) => if b.len() <= k || !so_ok(b[k]) { None } else { Some(((t, b[k]), k + 1)) }, None => None }
}
/// the subscriptions that make up all of `b`, after those of `acc`
pub open spec fn subs_from(b: Seq<u8>, acc: Seq<SubT>) -> Option<Seq<SubT>> decreases b.len() {
    if b.len() == 0 { Some(acc) } else {
        match sub1_parse(b) { Some((t, k)) => if k <= 0 || k > b.len() { None } else { subs_from(b.skip(k), acc.push(t)) }, None => None }
    }
}
pub open spec fn subscribe_body(v: SubV) -> Seq<u8> { be16(v.id as int) + Properties::enc(v.props) + subs_enc(v.topics) }
pub open spec fn subscribe_bparse(b: Seq<u8>) -> Option<(SubV, int)> {
    if b.len() < 2 { None } else { match pparse(b.skip(2)) {
        Some((es, k)) => if !all_permit(to_map(es), PropOwner::SUBSCRIBE) || 2 + k >= b.len() { None } else {
            match subs_from(b.skip(2 + k), seq![]) { Some(ts) => Some((SubV { id: ru16(b) as u16, props: es, topics: ts }, b.len() as int)), None => None }
        },
        None => None,
    } }
}
pub open spec fn subs_ok(ts: Seq<SubT>) -> bool { forall|i: int| 0 <= i < ts.len() ==> sub_ok(#[trigger] ts[i]) }
pub open spec fn sub_ok(t: SubT) -> bool { tstr_ok(t.0) && so_ok(t.1) }
pub open spec fn sub_acc(a: Seq<(&Arc<str>, &SubscriptionOptions)>, t: Seq<(MqttTopic, SubscriptionOptions)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).0@ == t[i].0.vv() && a[i].1.bits == t[i].1.bits
}
pub open spec fn subscribe_ok(v: SubV) -> bool { props_ok(v.props, PropOwner::SUBSCRIBE) && subs_ok(v.topics) }
pub open spec fn sub_view(ts: Seq<(MqttTopic, SubscriptionOptions)>) -> Seq<SubT> { Seq::new(ts.len(), |i: int| (ts[i].0.vv(), ts[i].1.bits)) }
impl Wire for SubscriptionOptions {
    type V = u8;
    open spec fn vv(&self) -> u8 { self.bits }
    open spec fn inv(&self) -> bool { so_ok(self.bits) }
    open spec fn fits(v: u8) -> bool { true }
    open spec fn same(a: u8, b: u8) -> bool { a == b }
    open spec fn enc(v: u8) -> Seq<u8> { seq![v] }
    open spec fn parse(s: Seq<u8>) -> Option<(u8, int)> { if s.len() < 1 || !so_ok(s[0]) { None } else { Some((s[0], 1)) } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Wire for Subscribe {
    type V = SubV;
    open spec fn vv(&self) -> SubV { SubV { id: self.packet_identifier.vv(), props: self.props.vv(), topics: sub_view(self.topics@) } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::SUBSCRIBE) && subs_ok(sub_view(self.topics@)) }
    /// a SUBSCRIBE without any subscription is not well formed
    open spec fn fits(v: SubV) -> bool { subscribe_body(v).len() <= 0xfffffff && v.topics.len() > 0 }
    open spec fn same(a: SubV, b: SubV) -> bool { a.id == b.id && Properties::same(a.props, b.props) && a.topics == b.topics }
    open spec fn enc(v: SubV) -> Seq<u8> { vbi_enc(subscribe_body(v).len()) + subscribe_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(SubV, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match subscribe_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn so_bits(f: u8)
    ensures 1u8 | 2 == 3, 0x10u8 | 0x20 == 0x30, (f & !0x3fu8 == 0) == (f < 64),
        f & 3 == 0 || f & 3 == 1 || f & 3 == 2 || f & 3 == 3,
        f & 0x30 == 0 || f & 0x30 == 0x10 || f & 0x30 == 0x20 || f & 0x30 == 0x30,
{
    assert(1u8 | 2 == 3 && 0x10u8 | 0x20 == 0x30) by (bit_vector);
    assert((f & !0x3fu8 == 0) == (f < 64)) by (bit_vector);
    assert(f & 3 == 0 || f & 3 == 1 || f & 3 == 2 || f & 3 == 3) by (bit_vector);
    assert(f & 0x30 == 0 || f & 0x30 == 0x10 || f & 0x30 == 0x20 || f & 0x30 == 0x30) by (bit_vector);
}
pub proof fn sub1_len(b: Seq<u8>) ensures sub1_parse(b) matches Some((t, k)) ==> 3 <= k <= b.len() && k == sub1_enc(t).len() && sub_ok(t) { str_parse_len(b); }
pub proof fn subs_step(b: Seq<u8>, acc: Seq<SubT>)
    requires b.len() > 0
    ensures
        sub1_parse(b) is None ==> subs_from(b, acc) is None,
        sub1_parse(b) matches Some((t, k)) ==> subs_from(b, acc) == subs_from(b.skip(k), acc.push(t)),
{ sub1_len(b); }
pub proof fn subs_done(b: Seq<u8>, acc: Seq<SubT>) requires b.len() == 0 ensures subs_from(b, acc) == Some(acc) { }
pub proof fn subs_min(b: Seq<u8>, acc: Seq<SubT>) requires b.len() > 0 ensures subs_from(b, acc) is Some ==> b.len() >= 3 { sub1_len(b); }
pub proof fn subscribe_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && 0 <= n <= 0xfffffff && (subscribe_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 6 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) {
        let b = s.skip(h).take(n);
        pparse_len(b.skip(2));
        if b.len() >= 2 { if let Some((es, k)) = pparse(b.skip(2)) { if 2 + k < b.len() { subs_min(b.skip(2 + k), seq![]); } } }
    }
}
pub proof fn subs_enc_take(ts: Seq<SubT>, i: int)
    requires 0 <= i < ts.len()
    ensures subs_enc(ts.take(i + 1)) == subs_enc(ts.take(i)) + sub1_enc(ts[i]), subs_enc(ts.take(i + 1)).len() <= subs_enc(ts).len()
    decreases ts.len() - i
{
    assert(ts.take(i + 1).drop_last() =~= ts.take(i));
    if i + 1 < ts.len() { subs_enc_take(ts, i + 1); } else { assert(ts.take(i + 1) =~= ts); }
}
@@ members From<RetainHandling> for SubscriptionOptions
    open spec fn of(r: RetainHandling) -> SubscriptionOptions { match r { RetainHandling::Send => SubscriptionOptions { bits: 0 }, RetainHandling::SendIfNotExisting => SubscriptionOptions { bits: 0x10 }, RetainHandling::DoNotSend => SubscriptionOptions { bits: 0x20 } } }
@@ fn From<RetainHandling> for SubscriptionOptions::from
@@ tags C07
@@ fn MqttSerialize for SubscriptionOptions::serialize
@@ members MqttUncheckedDeserialize for SubscriptionOptions
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for SubscriptionOptions::unchecked_deserialize
@@ tags C01,C06
@@ entry
    proof { so_bits($0.bv()[0]); }
@@ fn MqttUncheckedDeserialize for SubscriptionOptions::fixed_size
@@ members From<QoS> for SubscriptionOptions
    open spec fn of(q: QoS) -> SubscriptionOptions { match q { QoS::QoS0 => SubscriptionOptions { bits: 0 }, QoS::QoS1 => SubscriptionOptions { bits: 1 }, QoS::QoS2 => SubscriptionOptions { bits: 2 } } }
@@ fn From<QoS> for SubscriptionOptions::from
@@ tags C07
@@ members TryInto<RetainHandling> for SubscriptionOptions
    open spec fn tri_err(self, e: DataParseError) -> bool { !(e is InsufficientBuffer) }
    open spec fn tri(self) -> Option<RetainHandling> { so_rh(self.bits) }
@@ fn TryInto<RetainHandling> for SubscriptionOptions::try_into
@@ tags C01,C06
@@ entry
    proof { so_bits(self.bits); }
@@ members TryInto<QoS> for SubscriptionOptions
    open spec fn tri_err(self, e: DataParseError) -> bool { !(e is InsufficientBuffer) }
    open spec fn tri(self) -> Option<QoS> { so_qos(self.bits) }
@@ fn TryInto<QoS> for SubscriptionOptions::try_into
@@ tags C01,C06
@@ entry
    proof { so_bits(self.bits); }
@@ fn Subscribe::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.topics@.len() == 0, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn Subscribe::packet_identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn Subscribe::topics_iter
@@ tags C07,C17
    ensures ret@.len() == self.vv().topics.len(), forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0@ == self.vv().topics[i].0 && ret@[i].1.bits == self.vv().topics[i].1,
@@ loop 0
    invariant __it1@ == self.topics.it(), __i1 <= __it1@.len(), __acc0@.len() == __i1,
        sub_acc(__acc0@, self.topics@, __i1 as int),
    decreases __it1@.len() - __i1
@@ fn Subscribe::add_topic
@@ tags C07,C09
    requires old(self).inv(), $1.bits < 64,
    ensures final(self).inv(),
        ret is Ok <==> tstr_ok($0@) && so_ok($1.bits),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).vv().topics == old(self).vv().topics.push(($0@, $1.bits)) && *final(self) == (Subscribe { topics: final(self).topics, ..*old(self) }),
@@ entry
    let ghost ts0 = self.topics@; let ghost t0 = $0@;
    proof { so_bits($1.bits); }
@@ tail
    proof {
        assert(sub_view(self.topics@) =~= sub_view(ts0).push((t0, $1.bits)));
    }
@@ fn Subscribe::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::SUBSCRIBE) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (Subscribe { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn Subscribe::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn Subscribe::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn Subscribe::build
@@ tags C07
    ensures ret == Packet::Subscribe(self),
@@ fn Subscribe::partial_size
@@ tags C03
    requires self.inv(), Subscribe::fits(self.vv()),
    ensures ret == subscribe_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); assert(self.vv().topics.take(self.vv().topics.len() as int) =~= self.vv().topics); assert(self.vv().topics.take(0) =~= seq![]); }
@@ loop 0
    invariant self.inv(), Subscribe::fits(self.vv()), __it1@ == self.topics.it(), __i1 <= __it1@.len(), __acc0 == subs_enc(self.vv().topics.take(__i1 as int)).len(),
    decreases __it1@.len() - __i1
@@ loop-body 0
    proof { subs_enc_take(self.vv().topics, __i1 as int); assert(sub_ok(self.vv().topics[__i1 as int])); }
@@ fn MqttSerialize for Subscribe::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); assert(self.vv().topics.take(self.vv().topics.len() as int) =~= self.vv().topics); assert(self.vv().topics.take(0) =~= seq![]); }
    let ghost o0 = $0.out();
@@ loop 0
    invariant self.inv(), __it0@ == self.topics.it(), __i0 <= __it0@.len(),
        (*$0).out() =~= o0 + vbi_enc(subscribe_body(self.vv()).len()) + be16(self.vv().id as int) + Properties::enc(self.vv().props) + subs_enc(self.vv().topics.take(__i0 as int)),
    decreases __it0@.len() - __i0
@@ loop-body 0
    proof { subs_enc_take(self.vv().topics, __i0 as int); assert(sub_ok(self.vv().topics[__i0 as int])); assert(__it0@[__i0 as int].0.vv() == self.vv().topics[__i0 as int].0); assert(__it0@[__i0 as int].1.bits == self.vv().topics[__i0 as int].1); }
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for Subscribe::deserialize
@@ tags C01,C02,C04,C06
@@ attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
@@ entry
    hide(subs_from); hide(pparse); hide(vbi_parse); hide(str_parse); hide(str_enc); hide(vbi_enc); hide(to_map); hide(esum); hide(all_permit); hide(topic_ok); hide(str_ok); hide(map_ok); hide(ents); hide(subs_enc); hide(eenc);
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { subscribe_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); if bb.len() >= 2 { pparse_len(bb.skip(2)); } }
@@ let topics
    let ghost mut c: int = bb.len() - buf.bv().len();
    let ghost c0 = c;
    let ghost kk = pparse(bb.skip(2)).unwrap().1;
    proof { assert(sub_view(topics@) =~= seq![]); assert(pparse(bb.skip(2)) is Some && c0 == 2 + kk); assert(all_permit(to_map(pparse(bb.skip(2)).unwrap().0), PropOwner::SUBSCRIBE)); }
@@ loop 0
    invariant
        buf.pr() == fr, 0 <= c <= bb.len(), c0 <= c, buf.bv() == bb.skip(c), c == c0 || topics@.len() > 0, topics@.len() > 0 ==> c0 < c,
        subs_from(bb.skip(c0), seq![]) == subs_from(bb.skip(c), sub_view(topics@)),
        subs_ok(sub_view(topics@)),
    decreases buf.bv().len()
@@ loop-body 0
    let ghost s1 = buf.bv();
    let ghost t1 = topics@;
    proof { subs_step(s1, sub_view(topics@)); sub1_len(s1); str_parse_len(s1); }
@@ loop-end 0
    proof {
        let t = sub1_parse(s1).unwrap().0;
        let k = sub1_parse(s1).unwrap().1;
        assert(sub_view(topics@) =~= sub_view(t1).push(t));
        assert(s1.skip(k) =~= bb.skip(c + k));
        c = c + k;
    }
@@ loop-after 0
    proof { subs_done(buf.bv(), sub_view(topics@)); assert(subs_from(bb.skip(c0), seq![]) == Some(sub_view(topics@))); if c0 < bb.len() { subs_step(bb.skip(c0), seq![]); } }
@@ members MqttSize for Subscribe
    open spec fn mlo() -> nat { 6 }
    open spec fn mhi() -> nat { 7 }
@@ fn MqttSize for Subscribe::min_size
@@ tags C01
@@ fn MqttSize for Subscribe::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(subscribe_body(self.vv()).len()); }
@@ end
