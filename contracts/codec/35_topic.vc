@@ module topic
/// `#` only as the last character and a level of its own, `+` only as a level of its own
pub open spec fn topic_ok(c: Seq<char>) -> bool {
    forall|i: int| 0 <= i < c.len() ==> lvl_ok(c, i)
}
pub open spec fn lvl_ok(c: Seq<char>, i: int) -> bool {
    (c[i] == '#' ==> i == c.len() - 1 && (i == 0 || c[i - 1] == '/'))
        && (c[i] == '+' ==> (i == 0 || c[i - 1] == '/') && (i == c.len() - 1 || c[i + 1] == '/'))
}
pub open spec fn wild_c(c: char) -> bool { c == '#' || c == '+' }
pub open spec fn wild(c: Seq<char>) -> bool { exists|i: int| 0 <= i < c.len() && wild_c(#[trigger] c[i]) }
pub open spec fn system_topic(c: Seq<char>) -> bool { c.len() > 0 && c[0] == '$' }
pub open spec fn topic_parse(s: Seq<u8>) -> Option<(Seq<char>, int)> {
    match str_parse(s) { Some((c, k)) => if topic_ok(c) { Some((c, k)) } else { None }, None => None }
}
pub open spec fn tstr_ok(c: Seq<char>) -> bool { str_ok(c) && topic_ok(c) }
impl Wire for MqttTopic {
    type V = Seq<char>;
    open spec fn vv(&self) -> Seq<char> { self.0.s@ }
    open spec fn inv(&self) -> bool { tstr_ok(self.0.s@) }
    open spec fn fits(v: Seq<char>) -> bool { true }
    open spec fn same(a: Seq<char>, b: Seq<char>) -> bool { a == b }
    open spec fn enc(v: Seq<char>) -> Seq<u8> { str_enc(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(Seq<char>, int)> { topic_parse(s) }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
@@ fn is_valid_topic
@@ tags C09
    ensures ret == topic_ok($0@),
@@ loop 0
    invariant_except_break
        iter.wf(), iter.s@ == $0@, prev == (if iter.i == 0 { '/' } else { $0@[iter.i - 1] }),
        forall|j: int| 0 <= j < iter.i ==> lvl_ok($0@, j),
    ensures topic_ok($0@),
    decreases $0@.len() - iter.i,
@@ loop-body 0
    proof { assert(c == $0@[iter.i - 1]); assert(topic_ok($0@) ==> lvl_ok($0@, iter.i - 1)); }
@@ fn MqttTopic::is_wildcard
@@ tags C09
    ensures ret == wild(self.vv()),
@@ entry
    proof { reveal_strlit("#+"); }
@@ loop 0
    invariant_except_break !__acc0,
    invariant __i0 <= __it0.len(), __it0@ == self.vv(), forall|j: int| 0 <= j < __i0 ==> !wild_c(#[trigger] self.vv()[j]),
    ensures __acc0 == wild(self.vv()),
    decreases __it0.len() - __i0,
@@ loop-body 0
    proof {
        reveal_strlit("#+");
        let h = "#+"@;
        assert(h.len() == 2 && h[0] == '#' && h[1] == '+');
        assert(forall|c: char| h.contains(c) <==> wild_c(c)) by {
            assert forall|c: char| h.contains(c) <==> wild_c(c) by { assert(h.contains(h[0])); assert(h.contains(h[1])); }
        }
    }
@@ fn MqttTopic::is_system
@@ tags C09
    ensures ret == system_topic(self.vv()),
@@ fn MqttTopic::new
@@ tags C09,C07
    ensures ret is Ok <==> tstr_ok($0@), ret matches Ok(x) ==> x.vv() == $0@ && x.inv(),
@@ fn MqttTopic::unwrap
@@ tags C09
    ensures ret@ == self.vv(),
@@ fn MqttTopic::inner
@@ tags C09
    ensures ret@ == self.vv(),
@@ fn MqttSerialize for MqttTopic::serialize
@@ fn MqttDeserialize for MqttTopic::deserialize
@@ tags C01,C09
@@ members MqttSize for MqttTopic
    open spec fn mlo() -> nat { 1 }
    open spec fn mhi() -> nat { 2 }
@@ fn MqttSize for MqttTopic::min_size
@@ fn MqttSize for MqttTopic::size
@@ end
