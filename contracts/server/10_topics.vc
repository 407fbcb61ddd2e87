@@ module s_topics
/// who holds the subscription at the place `p` of the tree: client -> options
pub open spec fn subs_at(b: Block, p: Levels) -> Holders decreases p.len() {
    if p.len() == 0 { b.inner.subscribers@ }
    else if p[0] == hash_l() { b.inner.hash_wildcard@ }
    else if b.inner.sub_blocks@.contains_key(p[0]) { subs_at(b.inner.sub_blocks@[p[0]], p.skip(1)) }
    else { Map::empty() }
}
pub open spec fn node_map(b: Block, h: bool) -> Holders { if h { b.inner.hash_wildcard@ } else { b.inner.subscribers@ } }
/// the subscription a lookup of `t` comes across
pub open spec fn hit(b: Block, t: Levels, c: Seq<char>, i: SubscriptionInfo) -> bool decreases t.len() {
    (b.inner.hash_wildcard@.contains_key(c) && b.inner.hash_wildcard@[c] == i)
    || (if t.len() == 0 { b.inner.subscribers@.contains_key(c) && b.inner.subscribers@[c] == i } else {
        (b.inner.sub_blocks@.contains_key(plus_l()) && hit(b.inner.sub_blocks@[plus_l()], t.skip(1), c, i))
        || (b.inner.sub_blocks@.contains_key(t[0]) && hit(b.inner.sub_blocks@[t[0]], t.skip(1), c, i))
    })
}
pub open spec fn hits(b: Block, t: Levels) -> Offer { |c: Seq<char>, i: SubscriptionInfo| hit(b, t, c, i) }
/// collecting in steps; and what counts is what has been offered, not how it is said
pub proof fn collect_all(b: Block, o: Holders, n: Holders, t: Levels)
    ensures
        forall|x: Holders, y: Holders, z: Holders, f: Offer, g: Offer| #[trigger] merged(x, y, f) && #[trigger] merged(y, z, g) ==> merged(x, z, either(f, g)),
        forall|f: Offer| #[trigger] merged(o, n, f) && (forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] f(c, i) <==> hit(b, t, c, i)) ==> merged(o, n, hits(b, t)),
{
    assert forall|x: Holders, y: Holders, z: Holders, f: Offer, g: Offer| #[trigger] merged(x, y, f) && #[trigger] merged(y, z, g) implies merged(x, z, either(f, g)) by { merged_trans(x, y, z, f, g, either(f, g)); }
    assert forall|f: Offer| #[trigger] merged(o, n, f) && (forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] f(c, i) <==> hit(b, t, c, i)) implies merged(o, n, hits(b, t)) by {
        let z = hits(b, t);
        assert forall|x: Seq<char>| #[trigger] n.contains_key(x) implies holds(o, x, n[x]) || z(x, n[x]) by { assert(holds(o, x, n[x]) || f(x, n[x])); assert(z(x, n[x]) <==> f(x, n[x])); }
        assert forall|x: Seq<char>, i: SubscriptionInfo| #[trigger] z(x, i) implies n.contains_key(x) && qrank(n[x].qos) >= qrank(i.qos) by { assert(f(x, i) <==> hit(b, t, x, i)); assert(f(x, i)); }
    }
}
/// what a lookup comes across is what matches
pub proof fn hit_iff(b: Block, t: Levels, c: Seq<char>, i: SubscriptionInfo)
    requires no_hash(t)
    ensures hit(b, t, c, i) <==> exists|p: Levels| mt(p, t) && holds(#[trigger] subs_at(b, p), c, i)
    decreases t.len()
{
    let hp = seq![hash_l()];
    if holds(b.inner.hash_wildcard@, c, i) { assert(mt(hp, t) && holds(subs_at(b, hp), c, i)); }
    if t.len() == 0 {
        let e = Seq::<Seq<char>>::empty();
        if holds(b.inner.subscribers@, c, i) { assert(mt(e, t) && holds(subs_at(b, e), c, i)); }
        assert forall|p: Levels| mt(p, t) && holds(#[trigger] subs_at(b, p), c, i) implies hit(b, t, c, i) by { }
    } else {
        let t1 = t.skip(1);
        assert(no_hash(t1)) by { assert forall|k: int| 0 <= k < t1.len() implies #[trigger] t1[k] != hash_l() by { assert(t1[k] == t[k + 1]); } }
        assert(plus_l()[0] != hash_l()[0]);
        assert(plus_l() != hash_l());
        if b.inner.sub_blocks@.contains_key(plus_l()) {
            let nb = b.inner.sub_blocks@[plus_l()];
            hit_iff(nb, t1, c, i);
            if hit(nb, t1, c, i) {
                let p = choose|p: Levels| mt(p, t1) && holds(#[trigger] subs_at(nb, p), c, i);
                let q = seq![plus_l()] + p;
                assert(q.skip(1) =~= p);
                assert(mt(q, t) && holds(subs_at(b, q), c, i));
            }
        }
        if b.inner.sub_blocks@.contains_key(t[0]) {
            let nb = b.inner.sub_blocks@[t[0]];
            hit_iff(nb, t1, c, i);
            if hit(nb, t1, c, i) {
                let p = choose|p: Levels| mt(p, t1) && holds(#[trigger] subs_at(nb, p), c, i);
                let q = seq![t[0]] + p;
                assert(q.skip(1) =~= p);
                assert(t[0] != hash_l());
                assert(mt(q, t) && holds(subs_at(b, q), c, i));
            }
        }
        assert forall|p: Levels| mt(p, t) && holds(#[trigger] subs_at(b, p), c, i) implies hit(b, t, c, i) by {
            if p.len() > 0 && p[0] != hash_l() {
                let nb = b.inner.sub_blocks@[p[0]];
                assert(holds(subs_at(nb, p.skip(1)), c, i) && mt(p.skip(1), t1));
                hit_iff(nb, t1, c, i);
            }
        }
    }
}
/// the same place holds the same subscriptions
pub proof fn same_pl_at(b: Block, p: Levels, q: Levels)
    requires same_pl(p, q)
    ensures subs_at(b, p) == subs_at(b, q)
    decreases p.len()
{
    if p.len() > 0 && q.len() > 0 && p[0] != hash_l() && q[0] != hash_l() && b.inner.sub_blocks@.contains_key(p[0]) { same_pl_at(b.inner.sub_blocks@[p[0]], p.skip(1), q.skip(1)); }
}
/// nothing below is different: same places, same subscriptions
pub open spec fn same_table(a: Block, b: Block) -> bool { forall|q: Levels| #[trigger] subs_at(a, q) == subs_at(b, q) }
/// only the place `p` may be different
pub open spec fn same_but(a: Block, b: Block, p: Levels) -> bool { forall|q: Levels| !same_pl(q, p) ==> #[trigger] subs_at(a, q) == subs_at(b, q) }
pub proof fn sub_changed(o: Block, n: Block, p: Levels)
    requires p.len() > 0, p[0] != hash_l(), o.inner.sub_blocks@.contains_key(p[0]),
        n.inner.hash_wildcard@ == o.inner.hash_wildcard@, n.inner.subscribers@ == o.inner.subscribers@,
        n.inner.sub_blocks@ == o.inner.sub_blocks@.insert(p[0], n.inner.sub_blocks@[p[0]]),
        same_but(n.inner.sub_blocks@[p[0]], o.inner.sub_blocks@[p[0]], p.skip(1)),
    ensures same_but(n, o, p)
{
    assert forall|q: Levels| !same_pl(q, p) implies #[trigger] subs_at(n, q) == subs_at(o, q) by {
        if q.len() > 0 && q[0] != hash_l() {
            if q[0] == p[0] {
                assert(!same_pl(q.skip(1), p.skip(1)));
                assert(subs_at(n.inner.sub_blocks@[p[0]], q.skip(1)) == subs_at(o.inner.sub_blocks@[p[0]], q.skip(1)));
                assert(n.inner.sub_blocks@.contains_key(q[0]) && o.inner.sub_blocks@.contains_key(q[0]));
            } else {
                assert(n.inner.sub_blocks@.contains_key(q[0]) == o.inner.sub_blocks@.contains_key(q[0]));
                if o.inner.sub_blocks@.contains_key(q[0]) { assert(n.inner.sub_blocks@[q[0]] == o.inner.sub_blocks@[q[0]]); }
            }
        }
    }
}
/// a step down the tree, possibly after a block has been created there
pub proof fn visit_down(o: Block, n: Block, p: Levels)
    requires p.len() > 0, p[0] != hash_l(),
    ensures
        is_hash(p) == is_hash(p.skip(1)),
        forall|m: Block| #[trigger] same_table(m, o) && m.inner.sub_blocks@.contains_key(p[0])
            && n.inner.hash_wildcard@ == m.inner.hash_wildcard@ && n.inner.subscribers@ == m.inner.subscribers@
            && n.inner.sub_blocks@ == m.inner.sub_blocks@.insert(p[0], n.inner.sub_blocks@[p[0]])
            && same_but(n.inner.sub_blocks@[p[0]], m.inner.sub_blocks@[p[0]], p.skip(1))
            ==> same_but(n, o, p) && subs_at(o, p) == subs_at(m.inner.sub_blocks@[p[0]], p.skip(1)) && subs_at(n, p) == subs_at(n.inner.sub_blocks@[p[0]], p.skip(1)),
        forall|m: Block| #[trigger] same_table(m, o) && !m.inner.sub_blocks@.contains_key(p[0]) ==> subs_at(o, p) == Map::<Seq<char>, SubscriptionInfo>::empty(),
{
    assert forall|m: Block| #[trigger] same_table(m, o) && m.inner.sub_blocks@.contains_key(p[0])
            && n.inner.hash_wildcard@ == m.inner.hash_wildcard@ && n.inner.subscribers@ == m.inner.subscribers@
            && n.inner.sub_blocks@ == m.inner.sub_blocks@.insert(p[0], n.inner.sub_blocks@[p[0]])
            && same_but(n.inner.sub_blocks@[p[0]], m.inner.sub_blocks@[p[0]], p.skip(1))
            implies same_but(n, o, p) && subs_at(o, p) == subs_at(m.inner.sub_blocks@[p[0]], p.skip(1)) && subs_at(n, p) == subs_at(n.inner.sub_blocks@[p[0]], p.skip(1)) by {
        sub_changed(m, n, p);
        assert(subs_at(m, p) == subs_at(o, p));
        assert forall|q: Levels| !same_pl(q, p) implies #[trigger] subs_at(n, q) == subs_at(o, q) by { assert(subs_at(m, q) == subs_at(o, q)); }
    }
    assert forall|m: Block| #[trigger] same_table(m, o) && !m.inner.sub_blocks@.contains_key(p[0]) implies subs_at(o, p) == Map::<Seq<char>, SubscriptionInfo>::empty() by { assert(subs_at(m, p) == subs_at(o, p)); }
}
/// what may be done at a place: change the subscriptions there and nothing else
pub open spec fn local_change(o: Block, n: Block, h: bool) -> bool {
    n.inner.sub_blocks@ == o.inner.sub_blocks@ && (if h { n.inner.subscribers@ == o.inner.subscribers@ } else { n.inner.hash_wildcard@ == o.inner.hash_wildcard@ })
}
pub proof fn local_same_but(o: Block, n: Block, p: Levels)
    requires p.len() == 0 || p[0] == hash_l(), local_change(o, n, p.len() > 0)
    ensures same_but(n, o, p)
{ }

@@ fn SubscriptionInfo::new
@@ tags C13
    ensures ret == (SubscriptionInfo { qos: $0, flags: $1 }),
@@ fn BlockInner::new
@@ tags C13
    ensures ret.hash_wildcard@ == Map::<Seq<char>, SubscriptionInfo>::empty(), ret.subscribers@ == Map::<Seq<char>, SubscriptionInfo>::empty(), ret.sub_blocks@ == Map::<Seq<char>, Block>::empty(),
@@ fn BlockInner::insert_into_hash
@@ tags C13
    ensures final(self).hash_wildcard@ == old(self).hash_wildcard@.insert($0@, SubscriptionInfo { qos: $1, flags: $2 }),
        final(self).subscribers@ == old(self).subscribers@, final(self).sub_blocks@ == old(self).sub_blocks@,
@@ fn BlockInner::remove_from_hash
@@ tags C13
    ensures final(self).hash_wildcard@ == old(self).hash_wildcard@.remove($0@), final(self).subscribers@ == old(self).subscribers@, final(self).sub_blocks@ == old(self).sub_blocks@,
@@ fn BlockInner::insert_into_subs
@@ tags C13
    ensures final(self).subscribers@ == old(self).subscribers@.insert($0@, SubscriptionInfo { qos: $1, flags: $2 }),
        final(self).hash_wildcard@ == old(self).hash_wildcard@, final(self).sub_blocks@ == old(self).sub_blocks@,
@@ fn BlockInner::remove_from_subs
@@ tags C13
    ensures final(self).subscribers@ == old(self).subscribers@.remove($0@), final(self).hash_wildcard@ == old(self).hash_wildcard@, final(self).sub_blocks@ == old(self).sub_blocks@,
@@ fn BlockInner::collect_hash_wildcard
@@ tags C12
    ensures merged(old($0)@, final($0)@, in_map(self.hash_wildcard@)),
@@ entry
    proof { self.hash_wildcard.order_props(); }
    let ghost m = self.hash_wildcard@;
    let ghost ord = self.hash_wildcard.order();
@@ loop 0
    invariant __i0 <= __it0@.len(), __it0@.len() == ord.len(), m == self.hash_wildcard@, ord.to_set() == m.dom(), ord.no_duplicates(),
        forall|k: int| 0 <= k < __it0@.len() ==> (#[trigger] __it0@[k]).0.kv() == ord[k] && *__it0@[k].1 == m[ord[k]],
        merged(old(subs)@, subs@, |c: Seq<char>, i: SubscriptionInfo| offered(m, ord, __i0 as int, c, i)),
    decreases __it0@.len() - __i0
@@ loop-body 0
    let ghost before = subs@;
@@ loop-end 0
    proof { assert(ord.to_set().contains(ord[__i0 - 1])); merged_step(old(subs)@, before, subs@, m, ord, __i0 - 1); }
@@ loop-after 0
    proof { merged_all(old(subs)@, subs@, m, ord); }
@@ fn BlockInner::collect_subscribers
@@ tags C12
    ensures merged(old($0)@, final($0)@, in_map(self.subscribers@)),
@@ entry
    proof { self.subscribers.order_props(); }
    let ghost m = self.subscribers@;
    let ghost ord = self.subscribers.order();
@@ loop 0
    invariant __i0 <= __it0@.len(), __it0@.len() == ord.len(), m == self.subscribers@, ord.to_set() == m.dom(), ord.no_duplicates(),
        forall|k: int| 0 <= k < __it0@.len() ==> (#[trigger] __it0@[k]).0.kv() == ord[k] && *__it0@[k].1 == m[ord[k]],
        merged(old(subs)@, subs@, |c: Seq<char>, i: SubscriptionInfo| offered(m, ord, __i0 as int, c, i)),
    decreases __it0@.len() - __i0
@@ loop-body 0
    let ghost before = subs@;
@@ loop-end 0
    proof { assert(ord.to_set().contains(ord[__i0 - 1])); merged_step(old(subs)@, before, subs@, m, ord, __i0 - 1); }
@@ loop-after 0
    proof { merged_all(old(subs)@, subs@, m, ord); }
@@ module s_topics
pub proof fn merged_step(o: Holders, b: Holders, n: Holders, m: Holders, ord: Seq<Seq<char>>, k: int)
    requires 0 <= k < ord.len(), m.contains_key(ord[k]),
        merged(o, b, |c: Seq<char>, i: SubscriptionInfo| offered(m, ord, k, c, i)),
        n == (if b.contains_key(ord[k]) && qrank(b[ord[k]].qos) >= qrank(m[ord[k]].qos) { b } else { b.insert(ord[k], m[ord[k]]) }),
    ensures merged(o, n, |c: Seq<char>, i: SubscriptionInfo| offered(m, ord, k + 1, c, i)),
{
    let f = |c: Seq<char>, i: SubscriptionInfo| offered(m, ord, k, c, i);
    let g = |c: Seq<char>, i: SubscriptionInfo| offered(m, ord, k + 1, c, i);
    let c0 = ord[k];
    assert forall|c: Seq<char>| #[trigger] n.contains_key(c) implies holds(o, c, n[c]) || g(c, n[c]) by {
        if c == c0 && n[c] == m[c0] { assert(ord[k] == c); assert(offered(m, ord, k + 1, c, n[c])); }
        else { assert(b.contains_key(c) && b[c] == n[c]); assert(holds(o, c, b[c]) || f(c, b[c])); if f(c, b[c]) { let j = choose|j: int| 0 <= j < k && ord[j] == c; assert(0 <= j < k + 1 && ord[j] == c); assert(offered(m, ord, k + 1, c, n[c])); } }
    }
    assert forall|c: Seq<char>| #[trigger] o.contains_key(c) implies n.contains_key(c) && qrank(n[c].qos) >= qrank(o[c].qos) by { assert(b.contains_key(c)); }
    assert forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] g(c, i) implies n.contains_key(c) && qrank(n[c].qos) >= qrank(i.qos) by {
        let j = choose|j: int| 0 <= j < k + 1 && ord[j] == c;
        if j < k { assert(offered(m, ord, k, c, i)); assert(f(c, i)); }
    }
}
pub proof fn merged_all(o: Holders, n: Holders, m: Holders, ord: Seq<Seq<char>>)
    requires ord.to_set() == m.dom(), merged(o, n, |c: Seq<char>, i: SubscriptionInfo| offered(m, ord, ord.len() as int, c, i)),
    ensures merged(o, n, in_map(m)),
{
    let f = |c: Seq<char>, i: SubscriptionInfo| offered(m, ord, ord.len() as int, c, i);
    let g = in_map(m);
    assert forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] g(c, i) implies f(c, i) by {
        assert(m.dom().contains(c)); assert(ord.to_set().contains(c)); let k = choose|k: int| 0 <= k < ord.len() && ord[k] == c;
        assert(offered(m, ord, ord.len() as int, c, i));
    }
    assert forall|c: Seq<char>| #[trigger] n.contains_key(c) implies holds(o, c, n[c]) || g(c, n[c]) by { assert(holds(o, c, n[c]) || f(c, n[c])); }
    assert forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] g(c, i) implies n.contains_key(c) && qrank(n[c].qos) >= qrank(i.qos) by { assert(f(c, i)); }
}
pub proof fn merged_start(o: Holders, m: Holders, ord: Seq<Seq<char>>)
    ensures merged(o, o, |c: Seq<char>, i: SubscriptionInfo| offered(m, ord, 0, c, i)),
{ }
@@ fn Block::new
@@ tags C13
    ensures ret.inner.hash_wildcard@ == Map::<Seq<char>, SubscriptionInfo>::empty(), ret.inner.subscribers@ == Map::<Seq<char>, SubscriptionInfo>::empty(), ret.inner.sub_blocks@ == Map::<Seq<char>, Block>::empty(),
        forall|q: Levels| #[trigger] subs_at(ret, q) == Map::<Seq<char>, SubscriptionInfo>::empty(),
@@ fn Block::contains_subtopic
@@ tags C13
    ensures ret == self.inner.sub_blocks@.contains_key($0@),
@@ fn Block::create_if_not_existing
@@ tags C13
    requires $0@ != hash_l(),
    ensures same_table(*final(self), *old(self)), final(self).inner.sub_blocks@.contains_key($0@),
@@ entry
    let ghost o = *self;
@@ tail returns
    proof {
        let n = *self;
        assert forall|q: Levels| #[trigger] subs_at(n, q) == subs_at(o, q) by {
            if q.len() > 0 && q[0] != hash_l() {
                if q[0] == $0@ { if !o.inner.sub_blocks@.contains_key(q[0]) { assert(subs_at(n.inner.sub_blocks@[q[0]], q.skip(1)) == Map::<Seq<char>, SubscriptionInfo>::empty()); } }
                else { assert(n.inner.sub_blocks@.contains_key(q[0]) == o.inner.sub_blocks@.contains_key(q[0])); }
            }
        }
    }
@@ fn Block::visit
@@ tags C13
    requires forall|x: &mut Block, h: bool| #[trigger] $2.requires((x, h)),
        forall|x: &mut Block, h: bool| #[trigger] $2.ensures((x, h), ()) ==> local_change(*x, *final(x), h),
    ensures same_but(*final(self), *old(self), $0.rest()),
        (exists|x: &mut Block, h: bool| #[trigger] $2.ensures((x, h), ()) && h == is_hash($0.rest()) && node_map(*x, h) == subs_at(*old(self), $0.rest()) && node_map(*final(x), h) == subs_at(*final(self), $0.rest()))
        || (!$1 && subs_at(*old(self), $0.rest()) == Map::<Seq<char>, SubscriptionInfo>::empty() && subs_at(*final(self), $0.rest()) == Map::<Seq<char>, SubscriptionInfo>::empty()),
    decreases $0.rest().len()
@@ entry
    proof { reveal_strlit("#"); assert("#"@ =~= hash_l()); assert(same_table(*self, *self)); }
    let ghost p = $0.rest();
    let ghost o = *self;
@@ tail returns
    proof {
        let n = *self;
        if p.len() > 0 && p[0] != hash_l() {
            visit_down(o, n, p);
        } else { assert(local_change(o, n, is_hash(p)) ==> same_but(n, o, p)); }
    }
@@ fn Block::collect_subs
@@ tags C12
    ensures merged(old($0)@, final($0)@, hits(*self, $1.rest())),
    decreases $1.rest().len()
@@ entry
    proof { reveal_strlit("+"); assert("+"@ =~= plus_l()); }
    let ghost t = $1.rest();
    let ghost s0 = subs@;
@@ tail returns
    proof { collect_all(*self, s0, subs@, t); }
@@ fn TopicsTable::new
@@ tags C13
    ensures ret.inv(), forall|q: Levels| #[trigger] ret.at(q) == Map::<Seq<char>, SubscriptionInfo>::empty(),
@@ members TopicsTable
    pub open spec fn at(&self, p: Levels) -> Holders { subs_at(self.root_block, p) }
    /// who holds a subscription to the filter `f`
    pub open spec fn held(&self, f: Seq<char>) -> Holders { self.at(path(f)) }
    /// every subscription is known to the reverse index, which knows filters only
    pub open spec fn inv(&self) -> bool {
        (forall|c: Seq<char>, t: Seq<char>| #![trigger self.reverse_index@[c]@.contains(t)] self.reverse_index@.contains_key(c) && self.reverse_index@[c]@.contains(t) ==> tfilter(t))
        && forall|p: Levels, c: Seq<char>| #![trigger self.at(p).contains_key(c)] self.at(p).contains_key(c) ==> self.reverse_index@.contains_key(c) && listed(self.reverse_index@[c]@, p)
    }
@@ module s_topics
pub open spec fn gone<T: Key<KV = Seq<char>>>(v: Seq<T>, n: int, q: Levels) -> bool { exists|k: int| 0 <= k < n && same_pl(path((#[trigger] v[k]).kv()), q) }
pub proof fn gone_step<T: Key<KV = Seq<char>>>(v: Seq<T>, n: int, q: Levels)
    requires 0 <= n < v.len()
    ensures gone(v, n + 1, q) <==> gone(v, n, q) || same_pl(path(v[n].kv()), q)
{
    if gone(v, n + 1, q) { let k = choose|k: int| 0 <= k < n + 1 && same_pl(path((#[trigger] v[k]).kv()), q); if k < n { assert(gone(v, n, q)); } }
    if gone(v, n, q) { let k = choose|k: int| 0 <= k < n && same_pl(path((#[trigger] v[k]).kv()), q); assert(0 <= k < n + 1 && same_pl(path(v[k].kv()), q)); }
    if same_pl(path(v[n].kv()), q) { assert(0 <= n < n + 1); }
}
pub open spec fn listed(s: Set<Seq<char>>, p: Levels) -> bool { exists|t: Seq<char>| s.contains(t) && same_pl(#[trigger] path(t), p) }
@@ fn TopicsTable::topic_to_subtopics
@@ tags C12,C13
    ensures ret.rest() == path($0@),
@@ entry
    proof { reveal_strlit("/"); reveal_strlit(""); split_len($0@, '/'); assert("/"@ =~= slash_l()); assert(""@.len() == 0); }
@@ tail
    proof { let l = split_on($0@, '/'); assert(l =~= seq![l[0]] + l.skip(1)); if l[0].len() == 0 { assert(l[0] =~= ""@); } }
@@ fn TopicsTable::visit
@@ tags C13
    requires forall|x: &mut Block, h: bool| #[trigger] $2.requires((x, h)),
        forall|x: &mut Block, h: bool| #[trigger] $2.ensures((x, h), ()) ==> local_change(*x, *final(x), h),
    ensures same_but(final(self).root_block, old(self).root_block, path($0@)), final(self).reverse_index == old(self).reverse_index,
        (exists|x: &mut Block, h: bool| #[trigger] $2.ensures((x, h), ()) && h == is_hash(path($0@)) && node_map(*x, h) == old(self).at(path($0@)) && node_map(*final(x), h) == final(self).at(path($0@)))
        || (!$1 && old(self).at(path($0@)) == Map::<Seq<char>, SubscriptionInfo>::empty() && final(self).at(path($0@)) == Map::<Seq<char>, SubscriptionInfo>::empty()),
@@ fn TopicsTable::topics_add
@@ tags C13
    ensures same_but(final(self).root_block, old(self).root_block, path($1@)), final(self).reverse_index == old(self).reverse_index,
        final(self).at(path($1@)) == old(self).at(path($1@)).insert($0@, SubscriptionInfo { qos: $2, flags: $3 }),
@@ closure 0
    ensures local_change(*old(block), *final(block), is_hash), node_map(*final(block), is_hash) == node_map(*old(block), is_hash).insert($0@, SubscriptionInfo { qos: $2, flags: $3 })
@@ fn TopicsTable::topic_remove
@@ tags C13
    ensures same_but(final(self).root_block, old(self).root_block, path($1@)), final(self).reverse_index == old(self).reverse_index,
        final(self).at(path($1@)) == old(self).at(path($1@)).remove($0@),
@@ closure 0
    ensures local_change(*old(block), *final(block), is_hash), node_map(*final(block), is_hash) == node_map(*old(block), is_hash).remove($0@)
@@ fn TopicsTable::reverse_index_add
@@ tags C13
    ensures final(self).root_block == old(self).root_block,
        final(self).reverse_index@.contains_key($0@),
        final(self).reverse_index@.dom() == old(self).reverse_index@.dom().insert($0@),
        final(self).reverse_index@[$0@]@ == (if old(self).reverse_index@.contains_key($0@) { old(self).reverse_index@[$0@]@ } else { Set::<Seq<char>>::empty() }).insert($1@),
        forall|c: Seq<char>| c != $0@ && old(self).reverse_index@.contains_key(c) ==> #[trigger] final(self).reverse_index@[c] == old(self).reverse_index@[c],
@@ fn TopicsTable::reverse_index_remove
@@ tags C13
    ensures final(self).root_block == old(self).root_block,
        forall|c: Seq<char>| c != $0@ ==> (#[trigger] final(self).reverse_index@.contains_key(c) == old(self).reverse_index@.contains_key(c)),
        forall|c: Seq<char>| c != $0@ && old(self).reverse_index@.contains_key(c) ==> #[trigger] final(self).reverse_index@[c] == old(self).reverse_index@[c],
        forall|t: Seq<char>| final(self).reverse_index@.contains_key($0@) && #[trigger] final(self).reverse_index@[$0@]@.contains(t) ==> old(self).reverse_index@.contains_key($0@) && old(self).reverse_index@[$0@]@.contains(t),
        forall|t: Seq<char>| t != $1@ && old(self).reverse_index@.contains_key($0@) && #[trigger] old(self).reverse_index@[$0@]@.contains(t) ==> final(self).reverse_index@.contains_key($0@) && final(self).reverse_index@[$0@]@.contains(t),
@@ entry
    let ghost o = *self;
@@ tail returns
    proof {
        if o.reverse_index@.contains_key($0@) {
            let (a, b) = (o.reverse_index@[$0@]@, o.reverse_index@[$0@]@.remove($1@));
            assert forall|t: Seq<char>| t != $1@ && #[trigger] a.contains(t) implies b.contains(t) && b != Set::<Seq<char>>::empty() by { assert(!Set::<Seq<char>>::empty().contains(t)); }
        }
    }
@@ fn TopicsTable::reverse_index_remove_all
@@ tags C13
    ensures final(self).root_block == old(self).root_block, final(self).reverse_index@ == old(self).reverse_index@.remove($0@),
        ret == (if old(self).reverse_index@.contains_key($0@) { Some(old(self).reverse_index@[$0@]) } else { None }),
@@ fn TopicsTable::subscribe
@@ tags C13
    requires old(self).inv(), tfilter($1@),
    ensures final(self).inv(),
        forall|f: Seq<char>| #![trigger final(self).held(f)] tfilter(f) ==> final(self).held(f) == (if f == $1@ { old(self).held(f).insert($0@, SubscriptionInfo { qos: $2, flags: $3 }) } else { old(self).held(f) }),
        forall|q: Levels| #[trigger] final(self).at(q) == (if same_pl(q, path($1@)) { old(self).at(q).insert($0@, SubscriptionInfo { qos: $2, flags: $3 }) } else { old(self).at(q) }),
@@ entry
    let ghost o = *self;
@@ tail returns
    proof {
        let p = path($1@);
        same_pl_refl(p);
        assert forall|q: Levels| #[trigger] self.at(q) == (if same_pl(q, p) { o.at(q).insert($0@, SubscriptionInfo { qos: $2, flags: $3 }) } else { o.at(q) }) by {
            if same_pl(q, p) { same_pl_at(self.root_block, q, p); same_pl_at(o.root_block, q, p); }
            else { assert(subs_at(self.root_block, q) == subs_at(o.root_block, q)); }
        }
        assert forall|f: Seq<char>| #![trigger self.held(f)] tfilter(f) implies self.held(f) == (if f == $1@ { o.held(f).insert($0@, SubscriptionInfo { qos: $2, flags: $3 }) } else { o.held(f) }) by {
            assert(self.at(path(f)) == (if same_pl(path(f), p) { o.at(path(f)).insert($0@, SubscriptionInfo { qos: $2, flags: $3 }) } else { o.at(path(f)) }));
            if same_pl(path(f), p) { place_inj(f, $1@); }
        }
        assert forall|q: Levels,  c: Seq<char>| #![trigger self.at(q).contains_key(c)] self.at(q).contains_key(c) implies self.reverse_index@.contains_key(c) && listed(self.reverse_index@[c]@, q) by {
            if c == $0@ && same_pl(q, p) { same_pl_sym(q, p); assert(self.reverse_index@[c]@.contains($1@)); }
            else {
                assert(o.at(q).contains_key(c));
                let t = choose|t: Seq<char>| o.reverse_index@[c]@.contains(t) && same_pl(#[trigger] path(t), q);
                assert(self.reverse_index@[c]@.contains(t));
            }
        }
    }
@@ fn TopicsTable::unsubscribe
@@ tags C13
    requires old(self).inv(), tfilter($1@),
    ensures final(self).inv(),
        forall|f: Seq<char>| #![trigger final(self).held(f)] tfilter(f) ==> final(self).held(f) == (if f == $1@ { old(self).held(f).remove($0@) } else { old(self).held(f) }),
        forall|q: Levels| #[trigger] final(self).at(q) == (if same_pl(q, path($1@)) { old(self).at(q).remove($0@) } else { old(self).at(q) }),
@@ entry
    let ghost o = *self;
@@ tail returns
    proof {
        let p = path($1@);
        same_pl_refl(p);
        assert forall|q: Levels| #[trigger] self.at(q) == (if same_pl(q, p) { o.at(q).remove($0@) } else { o.at(q) }) by {
            if same_pl(q, p) { same_pl_at(self.root_block, q, p); same_pl_at(o.root_block, q, p); }
            else { assert(subs_at(self.root_block, q) == subs_at(o.root_block, q)); }
        }
        assert forall|f: Seq<char>| #![trigger self.held(f)] tfilter(f) implies self.held(f) == (if f == $1@ { o.held(f).remove($0@) } else { o.held(f) }) by {
            assert(self.at(path(f)) == (if same_pl(path(f), p) { o.at(path(f)).remove($0@) } else { o.at(path(f)) }));
            if same_pl(path(f), p) { place_inj(f, $1@); }
        }
        assert forall|q: Levels,  c: Seq<char>| #![trigger self.at(q).contains_key(c)] self.at(q).contains_key(c) implies self.reverse_index@.contains_key(c) && listed(self.reverse_index@[c]@, q) by {
            assert(o.at(q).contains_key(c));
            let t = choose|t: Seq<char>| o.reverse_index@[c]@.contains(t) && same_pl(#[trigger] path(t), q);
            if c == $0@ && t == $1@ { same_pl_sym(p, q); assert(false); }
            assert(self.reverse_index@[c]@.contains(t));
        }
    }
@@ fn TopicsTable::unsubscribe_all
@@ tags C13
    requires old(self).inv(),
    ensures final(self).inv(),
        forall|f: Seq<char>| #![trigger final(self).held(f)] final(self).held(f) == old(self).held(f).remove($0@),
        forall|q: Levels| #[trigger] final(self).at(q) == old(self).at(q).remove($0@),
@@ attr #[verifier::loop_isolation(false)]
@@ entry
    let ghost o = *self;
@@ loop 0
    invariant __i0 <= __it0@.len(), self.reverse_index@ == o.reverse_index@.remove($0@),
        forall|q: Levels| #[trigger] self.at(q) == (if gone(__it0@, __i0 as int, q) { o.at(q).remove($0@) } else { o.at(q) }),
    decreases __it0@.len() - __i0
@@ loop-body 0
    let ghost m = *self;
@@ loop-end 0
    proof {
        assert forall|q: Levels| #[trigger] self.at(q) == (if gone(__it0@, __i0 as int, q) { o.at(q).remove($0@) } else { o.at(q) }) by {
            gone_step(__it0@, __i0 - 1, q);
            let p = path(__it0@[__i0 - 1]@);
            if same_pl(p, q) {
                same_pl_at(self.root_block, p, q); same_pl_at(m.root_block, p, q); same_pl_sym(p, q);
                assert(m.at(q) == (if gone(__it0@, __i0 - 1, q) { o.at(q).remove($0@) } else { o.at(q) }));
                assert(o.at(q).remove($0@).remove($0@) =~= o.at(q).remove($0@));
            } else {
                if same_pl(q, p) { same_pl_sym(q, p); }
                assert(subs_at(self.root_block, q) == subs_at(m.root_block, q));
                assert(self.at(q) == m.at(q));
            }
        }
    }
@@ tail returns
    proof {
        assert forall|q: Levels| #[trigger] self.at(q) == o.at(q).remove($0@) by {
            if o.at(q).contains_key($0@) { assert(listed(o.reverse_index@[$0@]@, q)); }
            else { assert(o.at(q).remove($0@) =~= o.at(q)); }
        }
    }
@@ fn TopicsTable::get_all_subscribed
@@ tags C12
    requires !$0@.contains('#'), self.inv(),
    ensures
        forall|c: Seq<char>| #[trigger] ret@.contains_key(c) <==> matching(*self, $0@, c), //! C12,C14
        forall|c: Seq<char>| #[trigger] ret@.contains_key(c) ==> one_of(*self, $0@, c, ret@[c]), //! C12,C14
        forall|c: Seq<char>, f: Seq<char>| #![trigger self.held(f).contains_key(c)] tmatch(f, $0@) && tfilter(f) && self.held(f).contains_key(c) ==> qrank(ret@[c].qos) >= qrank(self.held(f)[c].qos), //! C12
@@ tail returns
    proof { lookup(*self, $0@, __r@); }
@@ end
@@ module s_topics
/// the client holds a subscription to a filter that matches
pub open spec fn matching(tt: TopicsTable, t: Seq<char>, c: Seq<char>) -> bool { exists|f: Seq<char>| tfilter(f) && tmatch(f, t) && (#[trigger] tt.held(f)).contains_key(c) }
pub open spec fn one_of(tt: TopicsTable, t: Seq<char>, c: Seq<char>, i: SubscriptionInfo) -> bool { exists|f: Seq<char>| tfilter(f) && tmatch(f, t) && holds(#[trigger] tt.held(f), c, i) }
/// what has been collected, said with filters
pub proof fn lookup(tt: TopicsTable, s: Seq<char>, r: Holders)
    requires !s.contains('#'), merged(Map::empty(), r, hits(tt.root_block, path(s))), tt.inv(),
    ensures
        forall|c: Seq<char>| #[trigger] r.contains_key(c) <==> matching(tt, s, c),
        forall|c: Seq<char>| #[trigger] r.contains_key(c) ==> one_of(tt, s, c, r[c]),
        forall|c: Seq<char>, f: Seq<char>| #![trigger tt.held(f).contains_key(c)] tmatch(f, s) && tfilter(f) && tt.held(f).contains_key(c) ==> r.contains_key(c) && qrank(r[c].qos) >= qrank(tt.held(f)[c].qos),
{
    let b = tt.root_block;
    let t = path(s);
    let h = hits(b, t);
    path_no_hash(s);
    assert forall|c: Seq<char>| #[trigger] r.contains_key(c) implies one_of(tt, s, c, r[c]) && matching(tt, s, c) by {
        assert(h(c, r[c]));
        hit_iff(b, t, c, r[c]);
        let p = choose|p: Levels| mt(p, t) && holds(#[trigger] subs_at(b, p), c, r[c]);
        assert(tt.at(p).contains_key(c));
        let f = choose|f: Seq<char>| tt.reverse_index@[c]@.contains(f) && same_pl(#[trigger] path(f), p);
        assert(tfilter(f));
        path_filter(f);
        mt_hash_last(p, t);
        same_pl_eq(path(f), p);
        mt_path(f, s);
        assert(holds(tt.held(f), c, r[c]));
    }
    assert forall|c: Seq<char>, f: Seq<char>| #![trigger tt.held(f).contains_key(c)] tmatch(f, s) && tfilter(f) && tt.held(f).contains_key(c) implies r.contains_key(c) && qrank(r[c].qos) >= qrank(tt.held(f)[c].qos) by {
        mt_path(f, s);
        let i = tt.held(f)[c];
        assert(holds(subs_at(b, path(f)), c, i));
        hit_iff(b, t, c, i);
        assert(h(c, i));
    }
    assert forall|c: Seq<char>| matching(tt, s, c) implies #[trigger] r.contains_key(c) by {
        let f = choose|f: Seq<char>| tfilter(f) && tmatch(f, s) && (#[trigger] tt.held(f)).contains_key(c);
        assert(tt.held(f).contains_key(c));
    }
}
@@ end
