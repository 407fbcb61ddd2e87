@@ module unsubscribe
pub struct UnsubV { pub id: u16, pub props: Seq<Ent>, pub topics: Seq<Seq<char>> }
pub open spec fn tops_enc(ts: Seq<Seq<char>>) -> Seq<u8> decreases ts.len() { if ts.len() == 0 { seq![] } else { tops_enc(ts.drop_last()) + str_enc(ts.last()) } }
/// the topic filters that make up all of `b`, after those of `acc`
pub open spec fn tops_from(b: Seq<u8>, acc: Seq<Seq<char>>) -> Option<Seq<Seq<char>>> decreases b.len() {
    if b.len() == 0 { Some(acc) } else {
        match topic_parse(b) { Some((t, k)) => if k <= 0 || k > b.len() { None } else { tops_from(b.skip(k), acc.push(t)) }, None => None }
    }
}
pub open spec fn unsubscribe_body(v: UnsubV) -> Seq<u8> { be16(v.id as int) + Properties::enc(v.props) + tops_enc(v.topics) }
pub open spec fn unsubscribe_bparse(b: Seq<u8>) -> Option<(UnsubV, int)> {
    if b.len() < 2 { None } else { match pparse(b.skip(2)) {
        Some((es, k)) => if !all_permit(to_map(es), PropOwner::UNSUBSCRIBE) || 2 + k >= b.len() { None } else {
            match tops_from(b.skip(2 + k), seq![]) { Some(ts) => Some((UnsubV { id: ru16(b) as u16, props: es, topics: ts }, b.len() as int)), None => None }
        },
        None => None,
    } }
}
pub open spec fn tops_ok(ts: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> tstr_ok(#[trigger] ts[i]) }
pub open spec fn unsubscribe_ok(v: UnsubV) -> bool { props_ok(v.props, PropOwner::UNSUBSCRIBE) && tops_ok(v.topics) }
pub open spec fn top_view(ts: Seq<MqttTopic>) -> Seq<Seq<char>> { Seq::new(ts.len(), |i: int| ts[i].vv()) }
impl Wire for Unsubscribe {
    type V = UnsubV;
    open spec fn vv(&self) -> UnsubV { UnsubV { id: self.packet_identifier.vv(), props: self.props.vv(), topics: top_view(self.topics@) } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::UNSUBSCRIBE) && tops_ok(top_view(self.topics@)) }
    /// an UNSUBSCRIBE without any topic filter is not well formed
    open spec fn fits(v: UnsubV) -> bool { unsubscribe_body(v).len() <= 0xfffffff && v.topics.len() > 0 }
    open spec fn same(a: UnsubV, b: UnsubV) -> bool { a.id == b.id && Properties::same(a.props, b.props) && a.topics == b.topics }
    open spec fn enc(v: UnsubV) -> Seq<u8> { vbi_enc(unsubscribe_body(v).len()) + unsubscribe_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(UnsubV, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match unsubscribe_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
pub proof fn top_len(b: Seq<u8>) ensures topic_parse(b) matches Some((t, k)) ==> 2 <= k <= b.len() && k == str_enc(t).len() && tstr_ok(t) { str_parse_len(b); }
pub proof fn tops_step(b: Seq<u8>, acc: Seq<Seq<char>>)
    requires b.len() > 0
    ensures
        topic_parse(b) is None ==> tops_from(b, acc) is None,
        topic_parse(b) matches Some((t, k)) ==> tops_from(b, acc) == tops_from(b.skip(k), acc.push(t)),
{ top_len(b); }
pub proof fn tops_done(b: Seq<u8>, acc: Seq<Seq<char>>) requires b.len() == 0 ensures tops_from(b, acc) == Some(acc) { }
pub proof fn tops_min(b: Seq<u8>, acc: Seq<Seq<char>>) requires b.len() > 0 ensures tops_from(b, acc) is Some ==> b.len() >= 2 { top_len(b); }
pub proof fn unsubscribe_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && 0 <= n <= 0xfffffff && (unsubscribe_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 5 <= k),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) {
        let b = s.skip(h).take(n);
        pparse_len(b.skip(2));
        if b.len() >= 2 { if let Some((es, k)) = pparse(b.skip(2)) { if 2 + k < b.len() { tops_min(b.skip(2 + k), seq![]); } } }
    }
}
pub proof fn tops_enc_take(ts: Seq<Seq<char>>, i: int)
    requires 0 <= i < ts.len()
    ensures tops_enc(ts.take(i + 1)) == tops_enc(ts.take(i)) + str_enc(ts[i]), tops_enc(ts.take(i + 1)).len() <= tops_enc(ts).len()
    decreases ts.len() - i
{
    assert(ts.take(i + 1).drop_last() =~= ts.take(i));
    if i + 1 < ts.len() { tops_enc_take(ts, i + 1); } else { assert(ts.take(i + 1) =~= ts); }
}
pub open spec fn top_acc(a: Seq<&Arc<str>>, t: Seq<MqttTopic>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] a[i])@ == t[i].vv()
}
@@ fn Unsubscribe::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.topics@.len() == 0, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn Unsubscribe::topics_iter
@@ tags C07
    ensures ret@.len() == self.vv().topics.len(), forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == self.vv().topics[i],
@@ loop 0
    invariant __it1@ == self.topics.it(), __i1 <= __it1@.len(), __acc0@.len() == __i1,
        top_acc(__acc0@, self.topics@, __i1 as int),
    decreases __it1@.len() - __i1
@@ fn Unsubscribe::add_topic
@@ tags C07,C09
    requires old(self).inv(),
    ensures final(self).inv(),
        ret is Ok <==> tstr_ok($0@),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).vv().topics == old(self).vv().topics.push($0@) && *final(self) == (Unsubscribe { topics: final(self).topics, ..*old(self) }),
@@ entry
    let ghost ts0 = self.topics@; let ghost t0 = $0@;
@@ tail
    proof { assert(top_view(self.topics@) =~= top_view(ts0).push(t0)); }
@@ fn Unsubscribe::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::UNSUBSCRIBE) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (Unsubscribe { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn Unsubscribe::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn Unsubscribe::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn Unsubscribe::build
@@ tags C07
    ensures ret == Packet::Unsubscribe(self),
@@ fn Unsubscribe::partial_size
@@ tags C03
    requires self.inv(), Unsubscribe::fits(self.vv()),
    ensures ret == unsubscribe_body(self.vv()).len(),
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); assert(self.vv().topics.take(self.vv().topics.len() as int) =~= self.vv().topics); assert(self.vv().topics.take(0) =~= seq![]); }
@@ loop 0
    invariant self.inv(), Unsubscribe::fits(self.vv()), __it1@ == self.topics.it(), __i1 <= __it1@.len(), __acc0 == tops_enc(self.vv().topics.take(__i1 as int)).len(),
    decreases __it1@.len() - __i1
@@ loop-body 0
    proof { tops_enc_take(self.vv().topics, __i1 as int); assert(tstr_ok(self.vv().topics[__i1 as int])); }
@@ fn MqttSerialize for Unsubscribe::serialize
@@ tags C02,C03,C08
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); assert(self.vv().topics.take(self.vv().topics.len() as int) =~= self.vv().topics); assert(self.vv().topics.take(0) =~= seq![]); }
    let ghost o0 = $0.out();
@@ loop 0
    invariant self.inv(), __it0@ == self.topics.it(), __i0 <= __it0@.len(),
        (*$0).out() =~= o0 + vbi_enc(unsubscribe_body(self.vv()).len()) + be16(self.vv().id as int) + Properties::enc(self.vv().props) + tops_enc(self.vv().topics.take(__i0 as int)),
    decreases __it0@.len() - __i0
@@ loop-body 0
    proof { tops_enc_take(self.vv().topics, __i0 as int); assert(tstr_ok(self.vv().topics[__i0 as int])); assert(__it0@[__i0 as int].vv() == self.vv().topics[__i0 as int]); }
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for Unsubscribe::deserialize
@@ tags C01,C02,C04,C06
@@ attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
@@ entry
    hide(tops_from); hide(pparse); hide(vbi_parse); hide(str_parse); hide(str_enc); hide(vbi_enc); hide(to_map); hide(esum); hide(all_permit); hide(topic_ok); hide(str_ok); hide(map_ok); hide(ents); hide(tops_enc); hide(eenc);
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { unsubscribe_facts(s0); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { assert(bb =~= s0.skip(h).take(n)); if bb.len() >= 2 { pparse_len(bb.skip(2)); } }
@@ let topics
    let ghost mut c: int = bb.len() - buf.bv().len();
    let ghost c0 = c;
    let ghost kk = pparse(bb.skip(2)).unwrap().1;
    proof { assert(top_view(topics@) =~= seq![]); assert(pparse(bb.skip(2)) is Some && c0 == 2 + kk); assert(all_permit(to_map(pparse(bb.skip(2)).unwrap().0), PropOwner::UNSUBSCRIBE)); }
@@ loop 0
    invariant
        buf.pr() == fr, 0 <= c <= bb.len(), c0 <= c, buf.bv() == bb.skip(c), c == c0 || topics@.len() > 0, topics@.len() > 0 ==> c0 < c,
        tops_from(bb.skip(c0), seq![]) == tops_from(bb.skip(c), top_view(topics@)),
        tops_ok(top_view(topics@)),
    decreases buf.bv().len()
@@ loop-body 0
    let ghost s1 = buf.bv();
    let ghost t1 = topics@;
    proof { tops_step(s1, top_view(topics@)); top_len(s1); }
@@ loop-end 0
    proof {
        let t = topic_parse(s1).unwrap().0;
        let k = topic_parse(s1).unwrap().1;
        assert(top_view(topics@) =~= top_view(t1).push(t));
        assert(s1.skip(k) =~= bb.skip(c + k));
        c = c + k;
    }
@@ loop-after 0
    proof { tops_done(buf.bv(), top_view(topics@)); assert(tops_from(bb.skip(c0), seq![]) == Some(top_view(topics@))); if c0 < bb.len() { tops_step(bb.skip(c0), seq![]); } }
@@ members MqttSize for Unsubscribe
    open spec fn mlo() -> nat { 5 }
    open spec fn mhi() -> nat { 6 }
@@ fn MqttSize for Unsubscribe::min_size
@@ tags C01
@@ fn MqttSize for Unsubscribe::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(unsubscribe_body(self.vv()).len()); }
@@ end
