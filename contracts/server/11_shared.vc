// The subscription table under concurrent calls. A lock keeps a ghost record of the critical sections that the calls
// under consideration have had on it: what was found and what was left. What is found is what the other tasks have made
// of it in the meantime (`rely`); and each section of ours is shown to be one of those the others rely on (`grow`, and
// for the tables of subscribers: one client's entry).
@@ prelude
pub ghost struct Sect<T> { pub found: T, pub left: T }
pub trait Env: Sized { spec fn rely(a: Self, b: Self) -> bool; }
#[verifier::external_body]
#[verifier::reject_recursive_types_in_ground_variants(T)]
pub struct RwLock<T> { _p: std::marker::PhantomData<T> }
impl<T> RwLock<T> {
    pub uninterp spec fn v(&self) -> T;
    pub uninterp spec fn log(&self) -> Seq<Sect<T>>;
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn new(x: T) -> (r: Self) ensures r.v() == x, r.log() == Seq::<Sect<T>>::empty() { unimplemented!() }
}
impl<T: Env> RwLock<T> {
    #[verifier::external_body] pub fn v_acq<'a>(&'a mut self) -> (r: &'a mut T)
        ensures T::rely(old(self).v(), *r), final(self).v() == *final(r), final(self).id() == old(self).id(),
            final(self).log() == old(self).log().push(Sect { found: *r, left: *final(r) })
    { unimplemented!() }
}
impl<K: Key, V> Env for HashMap<K, V> { open spec fn rely(a: Self, b: Self) -> bool { true } }

@@ module s_topics
pub type Cell = HashMap<Arc<str>, SubscriptionInfo>;
pub type Log = Seq<Sect<Cell>>;
pub type ILog = Seq<Sect<BlockInner>>;
pub open spec fn inn(b: BlockInner, k: Seq<char>) -> bool { b.sub_blocks@.contains_key(k) }
pub open spec fn kid(b: BlockInner, k: Seq<char>) -> Block { b.sub_blocks@[k] }
/// the sections on the subscriptions at a place
pub open spec fn clog(b: BlockInner, q: Levels) -> Log decreases q.len() {
    if q.len() == 0 { b.subscribers.log() }
    else if q[0] == hash_l() { b.hash_wildcard.log() }
    else if inn(b, q[0]) { clog(kid(b, q[0]).inner.v(), q.skip(1)) }
    else { Seq::empty() }
}
/// the sections on the block at a place below
pub open spec fn ilog(b: BlockInner, p: Levels) -> ILog decreases p.len() {
    if p.len() == 0 || !inn(b, p[0]) { Seq::empty() }
    else if p.len() == 1 { kid(b, p[0]).inner.log() }
    else { ilog(kid(b, p[0]).inner.v(), p.skip(1)) }
}
pub open spec fn blog(b: Block, p: Levels) -> ILog { if p.len() == 0 { b.inner.log() } else { ilog(b.inner.v(), p) } }
/// what the others may have done to a block while it was not locked: added blocks, changed subscriptions. What has been
/// there is there, and our record with it.
impl Env for BlockInner {
    open spec fn rely(a: Self, b: Self) -> bool {
        a.hash_wildcard.id() == b.hash_wildcard.id() && a.subscribers.id() == b.subscribers.id()
        && (forall|k: Seq<char>| #[trigger] inn(a, k) ==> inn(b, k) && kid(a, k).inner.id() == kid(b, k).inner.id())
        && (forall|q: Levels| #[trigger] clog(b, q) == clog(a, q)) && (forall|p: Levels| #[trigger] ilog(b, p) == ilog(a, p))
    }
}
pub open spec fn blank(b: Block) -> bool {
    b.inner.v().sub_blocks@ == Map::<Seq<char>, Block>::empty() && b.inner.v().hash_wildcard.v()@ == Map::<Seq<char>, SubscriptionInfo>::empty() && b.inner.v().subscribers.v()@ == Map::<Seq<char>, SubscriptionInfo>::empty()
}
/// what a section may do to a block: add empty blocks
pub open spec fn grow(f: BlockInner, l: BlockInner) -> bool {
    l.hash_wildcard.id() == f.hash_wildcard.id() && l.subscribers.id() == f.subscribers.id()
    && (forall|k: Seq<char>| #[trigger] inn(f, k) ==> inn(l, k) && kid(f, k).inner.id() == kid(l, k).inner.id())
    && (forall|k: Seq<char>| #[trigger] inn(l, k) && !inn(f, k) ==> blank(kid(l, k)))
}
pub open spec fn grows(o: ILog, n: ILog) -> bool { o.is_prefix_of(n) && forall|k: int| o.len() <= k < n.len() ==> grow((#[trigger] n[k]).found, n[k].left) }
/// what has been done to blocks is adding empty ones, each time
pub open spec fn adds(o: Block, n: Block) -> bool { n.inner.id() == o.inner.id() && forall|p: Levels| grows(#[trigger] blog(o, p), blog(n, p)) }
pub open spec fn same_but(n: Block, o: Block, p: Levels) -> bool { forall|q: Levels| !same_pl(q, p) ==> #[trigger] clog(n.inner.v(), q) == clog(o.inner.v(), q) }
/// one section, that stored a client's subscription
pub open spec fn put(o: Log, n: Log, c: Seq<char>, i: SubscriptionInfo) -> bool { n == o.push(n.last()) && n.last().left@ == n.last().found@.insert(c, i) }
/// one section, that removed a client's subscription
pub open spec fn cut(o: Log, n: Log, c: Seq<char>) -> bool { n == o.push(n.last()) && n.last().left@ == n.last().found@.remove(c) }
/// one section, that only looked
pub open spec fn saw(o: Log, n: Log) -> bool { n == o.push(n.last()) && n.last().left@ == n.last().found@ }
pub open spec fn hp(h: bool) -> Levels { if h { seq![hash_l()] } else { Seq::empty() } }

@@ fn SubscriptionInfo::new
@@ tags C20
    ensures ret == (SubscriptionInfo { qos: $0, flags: $1 }),
@@ fn BlockInner::new
@@ tags C20
    ensures ret.hash_wildcard.v()@ == Map::<Seq<char>, SubscriptionInfo>::empty(), ret.subscribers.v()@ == Map::<Seq<char>, SubscriptionInfo>::empty(), ret.sub_blocks@ == Map::<Seq<char>, Block>::empty(),
        ret.hash_wildcard.log() == Seq::<Sect<Cell>>::empty(), ret.subscribers.log() == Seq::<Sect<Cell>>::empty(),
@@ fn BlockInner::insert_into_hash
@@ tags C20
    ensures put(old(self).hash_wildcard.log(), final(self).hash_wildcard.log(), $0@, SubscriptionInfo { qos: $1, flags: $2 }),
        final(self).hash_wildcard.id() == old(self).hash_wildcard.id(), final(self).subscribers == old(self).subscribers, final(self).sub_blocks == old(self).sub_blocks,
@@ fn BlockInner::remove_from_hash
@@ tags C20
    ensures cut(old(self).hash_wildcard.log(), final(self).hash_wildcard.log(), $0@),
        final(self).hash_wildcard.id() == old(self).hash_wildcard.id(), final(self).subscribers == old(self).subscribers, final(self).sub_blocks == old(self).sub_blocks,
@@ fn BlockInner::insert_into_subs
@@ tags C20
    ensures put(old(self).subscribers.log(), final(self).subscribers.log(), $0@, SubscriptionInfo { qos: $1, flags: $2 }),
        final(self).subscribers.id() == old(self).subscribers.id(), final(self).hash_wildcard == old(self).hash_wildcard, final(self).sub_blocks == old(self).sub_blocks,
@@ fn BlockInner::remove_from_subs
@@ tags C20
    ensures cut(old(self).subscribers.log(), final(self).subscribers.log(), $0@),
        final(self).subscribers.id() == old(self).subscribers.id(), final(self).hash_wildcard == old(self).hash_wildcard, final(self).sub_blocks == old(self).sub_blocks,
@@ end
@@ fn BlockInner::collect_hash_wildcard
@@ tags C20
    ensures saw(old(self).hash_wildcard.log(), final(self).hash_wildcard.log()), merged(old($0)@, final($0)@, in_map(final(self).hash_wildcard.log().last().found@)),
        final(self).hash_wildcard.id() == old(self).hash_wildcard.id(), final(self).subscribers == old(self).subscribers, final(self).sub_blocks == old(self).sub_blocks,
@@ attr #[verifier::loop_isolation(false)]
@@ loop 0
    invariant __i0 <= __it0@.len(), merged(old(subs)@, subs@, listing(__it0@, __i0 as int)),
    decreases __it0@.len() - __i0
@@ loop-body 0
    let ghost before = subs@;
@@ loop-end 0
    proof { list_step(old(subs)@, before, subs@, __it0@, __i0 - 1); }
@@ tail returns
    proof { self.hash_wildcard.log().last().found.order_props(); list_all(old(subs)@, subs@, self.hash_wildcard.log().last().found); }
@@ fn BlockInner::collect_subscribers
@@ tags C20
    ensures saw(old(self).subscribers.log(), final(self).subscribers.log()), merged(old($0)@, final($0)@, in_map(final(self).subscribers.log().last().found@)),
        final(self).subscribers.id() == old(self).subscribers.id(), final(self).hash_wildcard == old(self).hash_wildcard, final(self).sub_blocks == old(self).sub_blocks,
@@ attr #[verifier::loop_isolation(false)]
@@ loop 0
    invariant __i0 <= __it0@.len(), merged(old(subs)@, subs@, listing(__it0@, __i0 as int)),
    decreases __it0@.len() - __i0
@@ loop-body 0
    let ghost before = subs@;
@@ loop-end 0
    proof { list_step(old(subs)@, before, subs@, __it0@, __i0 - 1); }
@@ tail returns
    proof { self.subscribers.log().last().found.order_props(); list_all(old(subs)@, subs@, self.subscribers.log().last().found); }
@@ module s_topics
pub open spec fn listed_in(it: Seq<(&Arc<str>, &SubscriptionInfo)>, n: int, c: Seq<char>, i: SubscriptionInfo) -> bool { exists|k: int| 0 <= k < n && (#[trigger] it[k]).0@ == c && *it[k].1 == i }
pub open spec fn listing(it: Seq<(&Arc<str>, &SubscriptionInfo)>, n: int) -> Offer { |c: Seq<char>, i: SubscriptionInfo| listed_in(it, n, c, i) }
pub proof fn list_step(o: Holders, b: Holders, n: Holders, it: Seq<(&Arc<str>, &SubscriptionInfo)>, k: int)
    requires 0 <= k < it.len(), merged(o, b, listing(it, k)),
        n == (if b.contains_key(it[k].0@) && qrank(b[it[k].0@].qos) >= qrank(it[k].1.qos) { b } else { b.insert(it[k].0@, *it[k].1) }),
    ensures merged(o, n, listing(it, k + 1)),
{
    let f = listing(it, k);
    let g = listing(it, k + 1);
    let c0 = it[k].0@;
    assert forall|c: Seq<char>| #[trigger] n.contains_key(c) implies holds(o, c, n[c]) || g(c, n[c]) by {
        if c == c0 && n[c] == *it[k].1 { assert(listed_in(it, k + 1, c, n[c])); }
        else { assert(b.contains_key(c) && b[c] == n[c]); assert(holds(o, c, b[c]) || f(c, b[c])); }
    }
    assert forall|c: Seq<char>| #[trigger] o.contains_key(c) implies n.contains_key(c) && qrank(n[c].qos) >= qrank(o[c].qos) by { assert(b.contains_key(c)); }
    assert forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] g(c, i) implies n.contains_key(c) && qrank(n[c].qos) >= qrank(i.qos) by {
        let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] it[j]).0@ == c && *it[j].1 == i;
        if j < k { assert(listed_in(it, k, c, i)); assert(f(c, i)); }
    }
}
/// all of them: what the map holds
pub proof fn list_all(o: Holders, n: Holders, m: Cell)
    ensures forall|it: Seq<(&Arc<str>, &SubscriptionInfo)>, z: int| z == it.len() && it.len() == m.order().len() && (forall|k: int| 0 <= k < it.len() ==> (#[trigger] it[k]).0@ == m.order()[k] && *it[k].1 == m@[m.order()[k]])
        && #[trigger] merged(o, n, listing(it, z)) ==> merged(o, n, in_map(m@)),
{
    m.order_props();
    assert forall|it: Seq<(&Arc<str>, &SubscriptionInfo)>, z: int| z == it.len() && it.len() == m.order().len() && (forall|k: int| 0 <= k < it.len() ==> (#[trigger] it[k]).0@ == m.order()[k] && *it[k].1 == m@[m.order()[k]])
        && #[trigger] merged(o, n, listing(it, z)) implies merged(o, n, in_map(m@)) by {
        let f = listing(it, z);
        let g = in_map(m@);
        assert forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] g(c, i) implies f(c, i) by {
            assert(m@.dom().contains(c)); assert(m.order().to_set().contains(c));
            let k = choose|k: int| 0 <= k < m.order().len() && m.order()[k] == c;
            assert(it[k].0@ == c);
        }
        assert forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] f(c, i) implies g(c, i) by {
            let k = choose|k: int| 0 <= k < it.len() && (#[trigger] it[k]).0@ == c && *it[k].1 == i;
            assert(m.order().to_set().contains(m.order()[k])); assert(m@.dom().contains(c));
        }
        assert forall|c: Seq<char>| #[trigger] n.contains_key(c) implies holds(o, c, n[c]) || g(c, n[c]) by { assert(holds(o, c, n[c]) || f(c, n[c])); }
        assert forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] g(c, i) implies n.contains_key(c) && qrank(n[c].qos) >= qrank(i.qos) by { assert(f(c, i)); }
    }
}
@@ end

@@ module s_topics
pub open spec fn unused(b: Block) -> bool { (forall|p: Levels| #[trigger] blog(b, p) == Seq::<Sect<BlockInner>>::empty()) && forall|q: Levels| #[trigger] clog(b.inner.v(), q) == Seq::<Sect<Cell>>::empty() }
/// sections on the block itself, none elsewhere
pub open spec fn kept(o: Block, n: Block) -> bool {
    n.inner.id() == o.inner.id() && grows(o.inner.log(), n.inner.log())
    && (forall|q: Levels| #[trigger] clog(n.inner.v(), q) == clog(o.inner.v(), q)) && (forall|p: Levels| #[trigger] ilog(n.inner.v(), p) == ilog(o.inner.v(), p))
}
/// a section in which a block was created, or found to be there
pub open spec fn makes(m: Block, n: Block, f: BlockInner, k: Seq<char>) -> bool {
    let l = n.inner.v();
    &&& n.inner.id() == m.inner.id() && n.inner.log() == m.inner.log().push(Sect { found: f, left: l })
    &&& l.hash_wildcard == f.hash_wildcard && l.subscribers == f.subscribers && (l.sub_blocks@ == f.sub_blocks@.insert(k, kid(l, k)) || inn(f, k) && l.sub_blocks@ == f.sub_blocks@)
    &&& if inn(f, k) { kid(l, k) == kid(f, k) } else { blank(kid(l, k)) && unused(kid(l, k)) }
}
pub proof fn made(o: Block, n: Block, k: Seq<char>)
    requires k != hash_l()
    ensures kept(o, o), forall|m: Block, f: BlockInner| #[trigger] kept(o, m) && #[trigger] BlockInner::rely(m.inner.v(), f) && makes(m, n, f, k) ==> kept(o, n) && inn(n.inner.v(), k),
        forall|m: Block, f: BlockInner| #[trigger] kept(o, m) && #[trigger] BlockInner::rely(m.inner.v(), f) && inn(m.inner.v(), k) ==> inn(f, k),
{
    assert forall|m: Block, f: BlockInner| #[trigger] kept(o, m) && #[trigger] BlockInner::rely(m.inner.v(), f) && makes(m, n, f, k) implies kept(o, n) && inn(n.inner.v(), k) by {
        let l = n.inner.v(); let b = kid(l, k); let lg = n.inner.log();
        if inn(f, k) { assert(l.sub_blocks@ =~= f.sub_blocks@); }
        assert forall|q: Levels| #[trigger] clog(l, q) == clog(o.inner.v(), q) by {
            assert(clog(m.inner.v(), q) == clog(o.inner.v(), q));
            assert(clog(f, q) == clog(m.inner.v(), q));
            if q.len() > 0 && q[0] != hash_l() {
                if q[0] == k && !inn(f, k) { assert(clog(b.inner.v(), q.skip(1)) == Seq::<Sect<Cell>>::empty()); }
                else { assert(inn(l, q[0]) == inn(f, q[0])); }
            }
        }
        assert forall|p: Levels| #[trigger] ilog(l, p) == ilog(o.inner.v(), p) by {
            assert(ilog(m.inner.v(), p) == ilog(o.inner.v(), p));
            assert(ilog(f, p) == ilog(m.inner.v(), p));
            if p.len() > 0 {
                if p[0] == k && !inn(f, k) { assert(blog(b, p.skip(1)) == Seq::<Sect<BlockInner>>::empty()); }
                else { assert(inn(l, p[0]) == inn(f, p[0])); }
            }
        }
        assert(grow(f, l)) by {
            assert forall|j: Seq<char>| #[trigger] inn(f, j) implies inn(l, j) && kid(f, j).inner.id() == kid(l, j).inner.id() by { if j != k { assert(kid(l, j) == kid(f, j)); } }
            assert forall|j: Seq<char>| #[trigger] inn(l, j) && !inn(f, j) implies blank(kid(l, j)) by { }
        }
        assert forall|j: int| o.inner.log().len() <= j < lg.len() implies grow((#[trigger] lg[j]).found, lg[j].left) by { if j < m.inner.log().len() { assert(lg[j] == m.inner.log()[j]); } }
    }
}
/// the same blocks below
pub proof fn no_more(f: BlockInner, l: BlockInner)
    requires l.sub_blocks@ == f.sub_blocks@, l.hash_wildcard.id() == f.hash_wildcard.id(), l.subscribers.id() == f.subscribers.id(),
    ensures grow(f, l), forall|p: Levels| #[trigger] ilog(l, p) == ilog(f, p),
        forall|q: Levels| q.len() > 0 && q[0] != hash_l() ==> #[trigger] clog(l, q) == clog(f, q),
{ }
@@ fn Block::new
@@ tags C20
    ensures blank(ret), unused(ret),
@@ tail returns
    proof {
        assert forall|p: Levels| #[trigger] blog(__r, p) == Seq::<Sect<BlockInner>>::empty() by { }
        assert forall|q: Levels| #[trigger] clog(__r.inner.v(), q) == Seq::<Sect<Cell>>::empty() by { }
    }
@@ fn Block::contains_subtopic
@@ tags C20
    requires $0@ != hash_l(),
    ensures kept(*old(self), *final(self)), ret == inn(final(self).inner.v(), $0@),
@@ tail returns
    proof { no_more(self.inner.log().last().found, self.inner.v()); }
@@ fn Block::create_if_not_existing
@@ tags C20
    requires $0@ != hash_l(),
    ensures kept(*old(self), *final(self)), inn(final(self).inner.v(), $0@),
@@ entry
    let ghost o = *self;
@@ tail returns
    proof { made(o, *self, $0@); }
@@ end

@@ module s_topics
/// what may be done at a place: have sections on it, none on other places
pub open spec fn local_change(o: Block, n: Block, h: bool) -> bool { adds(o, n) && same_but(n, o, hp(h)) }
pub open spec fn at_place(b: Block, h: bool) -> Log { clog(b.inner.v(), hp(h)) }
/// at some moment a block on the way was not there
pub open spec fn lost_at(o: Block, n: Block, p: Levels, j: int, k: int) -> bool {
    0 <= j < p.len() && hash_free(p, j + 1) && blog(o, p.take(j)).len() <= k < blog(n, p.take(j)).len() && !inn(blog(n, p.take(j))[k].found, p[j])
}
pub open spec fn hash_free(p: Levels, n: int) -> bool { forall|i: int| 0 <= i < n && i < p.len() ==> #[trigger] p[i] != hash_l() }
pub open spec fn lost(o: Block, n: Block, p: Levels) -> bool { exists|j: int, k: int| #[trigger] lost_at(o, n, p, j, k) }
/// a section on the block in which at most something below the level `k` was done
pub open spec fn step_in(m: Block, n: Block, k: Seq<char>) -> bool {
    let f = n.inner.log().last().found;
    let l = n.inner.v();
    &&& n.inner.id() == m.inner.id() && n.inner.log() == m.inner.log().push(Sect { found: f, left: l }) && BlockInner::rely(m.inner.v(), f)
    &&& l.hash_wildcard == f.hash_wildcard && l.subscribers == f.subscribers
    &&& l.sub_blocks@ == (if inn(f, k) { f.sub_blocks@.insert(k, l.sub_blocks@[k]) } else { f.sub_blocks@ })
    &&& inn(f, k) ==> kid(l, k).inner.id() == kid(f, k).inner.id()
}
pub proof fn adds_refl(b: Block)
    ensures adds(b, b)
{ }
pub proof fn adds_trans(a: Block, b: Block, c: Block)
    requires adds(a, b), adds(b, c)
    ensures adds(a, c)
{
    assert forall|p: Levels| grows(#[trigger] blog(a, p), blog(c, p)) by {
        assert(grows(blog(a, p), blog(b, p)) && grows(blog(b, p), blog(c, p)));
        let (x, y, z) = (blog(a, p), blog(b, p), blog(c, p));
        assert forall|k: int| x.len() <= k < z.len() implies grow((#[trigger] z[k]).found, z[k].left) by { if k < y.len() { assert(z[k] == y[k]); } }
    }
}
pub proof fn step_down(o: Block, m: Block, n: Block, p: Levels)
    requires p.len() > 0, p[0] != hash_l(), kept(o, m), step_in(m, n, p[0]),
    ensures
        ({ let f = n.inner.log().last().found; let l = n.inner.v(); let x = kid(f, p[0]); let y = kid(l, p[0]);
        &&& inn(f, p[0]) && adds(x, y) && same_but(y, x, p.skip(1)) ==> adds(o, n) && same_but(n, o, p)
            && clog(o.inner.v(), p) == clog(x.inner.v(), p.skip(1)) && clog(n.inner.v(), p) == clog(y.inner.v(), p.skip(1))
            && (lost(x, y, p.skip(1)) ==> lost(o, n, p))
        &&& !inn(f, p[0]) ==> adds(o, n) && same_but(n, o, p) && clog(n.inner.v(), p) == clog(o.inner.v(), p) && lost(o, n, p)
        &&& inn(m.inner.v(), p[0]) ==> inn(f, p[0]) }),
{
    let f = n.inner.log().last().found; let l = n.inner.v(); let k0 = p[0];
    let x = kid(f, k0); let y = kid(l, k0); let p1 = p.skip(1);
    let lg = n.inner.log();
    let e = Seq::<Seq<char>>::empty();
    assert(grow(f, l)) by {
        assert forall|k: Seq<char>| #[trigger] inn(f, k) implies inn(l, k) && kid(f, k).inner.id() == kid(l, k).inner.id() by { if k == k0 { } else { assert(kid(l, k) == kid(f, k)); } }
        assert forall|k: Seq<char>| #[trigger] inn(l, k) && !inn(f, k) implies blank(kid(l, k)) by { }
    }
    assert(grows(o.inner.log(), lg)) by {
        assert forall|k: int| o.inner.log().len() <= k < lg.len() implies grow((#[trigger] lg[k]).found, lg[k].left) by { if k < m.inner.log().len() { assert(lg[k] == m.inner.log()[k]); } }
    }
    assert forall|p: Levels| #[trigger] ilog(f, p) == ilog(o.inner.v(), p) by { assert(ilog(m.inner.v(), p) == ilog(o.inner.v(), p)); }
    assert forall|q: Levels| #[trigger] clog(f, q) == clog(o.inner.v(), q) by { assert(clog(m.inner.v(), q) == clog(o.inner.v(), q)); }
    if inn(f, k0) && adds(x, y) && same_but(y, x, p1) {
        assert forall|r: Levels| grows(#[trigger] blog(o, r), blog(n, r)) by {
            if r.len() > 0 {
                assert(blog(o, r) == ilog(f, r));
                if r[0] == k0 { assert(ilog(f, r) == blog(x, r.skip(1))); assert(ilog(l, r) == blog(y, r.skip(1))); assert(grows(blog(x, r.skip(1)), blog(y, r.skip(1)))); }
                else { assert(inn(l, r[0]) == inn(f, r[0])); if inn(f, r[0]) { assert(kid(l, r[0]) == kid(f, r[0])); } assert(ilog(l, r) == ilog(f, r)); }
            }
        }
        assert forall|q: Levels| !same_pl(q, p) implies #[trigger] clog(l, q) == clog(o.inner.v(), q) by {
            assert(clog(f, q) == clog(o.inner.v(), q));
            if q.len() > 0 && q[0] != hash_l() {
                if q[0] == k0 { assert(!same_pl(q.skip(1), p1)); assert(clog(y.inner.v(), q.skip(1)) == clog(x.inner.v(), q.skip(1))); }
                else { assert(inn(l, q[0]) == inn(f, q[0])); if inn(f, q[0]) { assert(kid(l, q[0]) == kid(f, q[0])); } }
            }
        }
        assert(clog(f, p) == clog(o.inner.v(), p));
        if lost(x, y, p1) {
            let (j, k) = choose|j: int, k: int| #[trigger] lost_at(x, y, p1, j, k);
            let t = p.take(j + 1);
            assert(t.skip(1) =~= p1.take(j));
            assert(t.len() > 0 && t[0] == k0);
            assert(blog(o, t) == ilog(f, t));
            assert(ilog(f, t) == blog(x, t.skip(1)));
            assert(ilog(l, t) == blog(y, t.skip(1)));
            assert(hash_free(p, j + 2)) by { assert forall|i: int| 0 <= i < j + 2 && i < p.len() implies #[trigger] p[i] != hash_l() by { if i > 0 { assert(p1[i - 1] == p[i]); } } }
            assert(lost_at(o, n, p, j + 1, k));
        }
    }
    if !inn(f, k0) {
        no_more(f, l);
        assert forall|r: Levels| grows(#[trigger] blog(o, r), blog(n, r)) by { if r.len() > 0 { assert(blog(o, r) == ilog(f, r)); assert(ilog(l, r) == ilog(f, r)); } }
        assert forall|q: Levels| #[trigger] clog(l, q) == clog(o.inner.v(), q) by { assert(clog(f, q) == clog(o.inner.v(), q)); }
        assert(p.take(0) =~= e);
        let k = lg.len() - 1;
        assert(lg[k].found == f);
        assert(lost_at(o, n, p, 0, k));
    }
}
/// what `visit` has done, from the way it went
pub proof fn visited(o: Block, n: Block, p: Levels)
    requires p.len() > 0, p[0] != hash_l(),
    ensures is_hash(p) == is_hash(p.skip(1)),
        forall|m: Block| #[trigger] kept(o, m) && step_in(m, n, p[0]) ==>
        ({ let f = n.inner.log().last().found; let l = n.inner.v(); let x = kid(f, p[0]); let y = kid(l, p[0]);
        &&& inn(f, p[0]) && adds(x, y) && same_but(y, x, p.skip(1)) ==> adds(o, n) && same_but(n, o, p)
            && clog(o.inner.v(), p) == clog(x.inner.v(), p.skip(1)) && clog(n.inner.v(), p) == clog(y.inner.v(), p.skip(1))
            && (lost(x, y, p.skip(1)) ==> lost(o, n, p))
        &&& !inn(f, p[0]) ==> adds(o, n) && same_but(n, o, p) && clog(n.inner.v(), p) == clog(o.inner.v(), p) && lost(o, n, p)
        &&& inn(m.inner.v(), p[0]) ==> inn(f, p[0]) }),
{
    assert forall|m: Block| #[trigger] kept(o, m) && step_in(m, n, p[0]) implies
        ({ let f = n.inner.log().last().found; let l = n.inner.v(); let x = kid(f, p[0]); let y = kid(l, p[0]);
        &&& inn(f, p[0]) && adds(x, y) && same_but(y, x, p.skip(1)) ==> adds(o, n) && same_but(n, o, p)
            && clog(o.inner.v(), p) == clog(x.inner.v(), p.skip(1)) && clog(n.inner.v(), p) == clog(y.inner.v(), p.skip(1))
            && (lost(x, y, p.skip(1)) ==> lost(o, n, p))
        &&& !inn(f, p[0]) ==> adds(o, n) && same_but(n, o, p) && clog(n.inner.v(), p) == clog(o.inner.v(), p) && lost(o, n, p)
        &&& inn(m.inner.v(), p[0]) ==> inn(f, p[0]) }) by { step_down(o, m, n, p); }
}
@@ fn Block::visit
@@ tags C20
    requires forall|x: &mut Block, h: bool| #[trigger] $2.requires((x, h)),
        forall|x: &mut Block, h: bool| #[trigger] $2.ensures((x, h), ()) ==> local_change(*x, *final(x), h),
    ensures adds(*old(self), *final(self)), same_but(*final(self), *old(self), $0.rest()),
        (exists|x: &mut Block, h: bool| #[trigger] $2.ensures((x, h), ()) && h == is_hash($0.rest()) && at_place(*x, h) == clog(old(self).inner.v(), $0.rest()) && at_place(*final(x), h) == clog(final(self).inner.v(), $0.rest()))
        || (!$1 && clog(final(self).inner.v(), $0.rest()) == clog(old(self).inner.v(), $0.rest()) && lost(*old(self), *final(self), $0.rest())),
    decreases $0.rest().len()
@@ entry
    proof { reveal_strlit("#"); assert("#"@ =~= hash_l()); assert(kept(*self, *self)); }
    let ghost p = $0.rest();
    let ghost o = *self;
@@ tail returns
    proof {
        let n = *self;
        if p.len() > 0 && p[0] != hash_l() { visited(o, n, p); }
        else { assert(local_change(o, n, is_hash(p)) ==> same_but(n, o, p)) by { if p.len() > 0 { assert forall|q: Levels| !same_pl(q, p) implies !same_pl(q, hp(true)) by { } } } }
    }

@@ module s_topics
pub open spec fn no_wild(t: Levels) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != hash_l() && t[i] != plus_l() }
pub open spec fn looks(o: Log, n: Log) -> bool { o.is_prefix_of(n) && forall|k: int| o.len() <= k < n.len() ==> (#[trigger] n[k]).left@ == n[k].found@ }
/// nothing has been done but looking at subscriptions
pub open spec fn reads(o: Block, n: Block) -> bool { adds(o, n) && forall|q: Levels| looks(#[trigger] clog(o.inner.v(), q), clog(n.inner.v(), q)) }
pub open spec fn found_in(o: Log, n: Log, c: Seq<char>, i: SubscriptionInfo) -> bool { exists|k: int| o.len() <= k < n.len() && holds((#[trigger] n[k]).found@, c, i) }
/// what has been seen at the places that match
pub open spec fn seen(o: Block, n: Block, t: Levels) -> Offer { |c: Seq<char>, i: SubscriptionInfo| exists|p: Levels| #[trigger] mt(p, t) && found_in(clog(o.inner.v(), p), clog(n.inner.v(), p), c, i) }
/// every place that matches has been looked at, or was seen not to be there
pub open spec fn covered(o: Block, n: Block, t: Levels) -> bool { forall|p: Levels| #[trigger] mt(p, t) ==> clog(n.inner.v(), p).len() > clog(o.inner.v(), p).len() || lost(o, n, p) }
pub open spec fn parts(n: Block, t: Levels, c: Seq<char>, i: SubscriptionInfo) -> bool {
    let f = n.inner.log().last().found; let l = n.inner.v();
    holds(l.hash_wildcard.log().last().found@, c, i)
    || (if t.len() == 0 { holds(l.subscribers.log().last().found@, c, i) } else {
        (inn(f, plus_l()) && seen(kid(f, plus_l()), kid(l, plus_l()), t.skip(1))(c, i)) || (inn(f, t[0]) && seen(kid(f, t[0]), kid(l, t[0]), t.skip(1))(c, i))
    })
}
pub open spec fn looked_in(o: Block, n: Block, t: Levels) -> bool {
    let f = n.inner.log().last().found; let l = n.inner.v();
    &&& n.inner.id() == o.inner.id() && n.inner.log() == o.inner.log().push(Sect { found: f, left: l }) && BlockInner::rely(o.inner.v(), f)
    &&& saw(f.hash_wildcard.log(), l.hash_wildcard.log()) && l.hash_wildcard.id() == f.hash_wildcard.id() && l.subscribers.id() == f.subscribers.id()
    &&& if t.len() == 0 { saw(f.subscribers.log(), l.subscribers.log()) && l.sub_blocks@ == f.sub_blocks@ } else {
        &&& l.subscribers.log() == f.subscribers.log()
        &&& forall|k: Seq<char>| #[trigger] inn(l, k) == inn(f, k)
        &&& forall|k: Seq<char>| inn(f, k) && k != plus_l() && k != t[0] ==> #[trigger] kid(l, k) == kid(f, k)
        &&& forall|k: Seq<char>| (k == plus_l() || k == t[0]) && inn(f, k) ==> reads(kid(f, k), #[trigger] kid(l, k)) && covered(kid(f, k), kid(l, k), t.skip(1))
    }
}
pub proof fn saw_found(o: Log, n: Log, c: Seq<char>, i: SubscriptionInfo)
    requires saw(o, n)
    ensures found_in(o, n, c, i) == holds(n.last().found@, c, i), looks(o, n)
{
    if holds(n.last().found@, c, i) { assert(holds(n[n.len() - 1].found@, c, i)); }
}
pub proof fn looked(o: Block, n: Block, t: Levels)
    requires no_wild(t), looked_in(o, n, t),
    ensures reads(o, n), covered(o, n, t), forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] parts(n, t, c, i) <==> seen(o, n, t)(c, i),
{
    let f = n.inner.log().last().found; let l = n.inner.v(); let lg = n.inner.log();
    let e = Seq::<Seq<char>>::empty();
    let hs = seq![hash_l()];
    assert(plus_l()[0] != hash_l()[0]);
    assert(plus_l() != hash_l());
    assert(grow(f, l)) by {
        assert forall|k: Seq<char>| #[trigger] inn(f, k) implies inn(l, k) && kid(f, k).inner.id() == kid(l, k).inner.id() by { assert(inn(l, k) == inn(f, k)); if t.len() > 0 && (k == plus_l() || k == t[0]) { assert(reads(kid(f, k), kid(l, k))); } else if t.len() > 0 { assert(kid(l, k) == kid(f, k)); } }
        assert forall|k: Seq<char>| #[trigger] inn(l, k) && !inn(f, k) implies blank(kid(l, k)) by { }
    }
    assert(grows(o.inner.log(), lg));
    saw_found(f.hash_wildcard.log(), l.hash_wildcard.log(), hash_l(), arbitrary());
    if t.len() == 0 { saw_found(f.subscribers.log(), l.subscribers.log(), hash_l(), arbitrary()); }
    assert forall|q: Levels| #[trigger] clog(f, q) == clog(o.inner.v(), q) by { }
    assert forall|q: Levels| #[trigger] ilog(f, q) == ilog(o.inner.v(), q) by { }
    assert forall|r: Levels| grows(#[trigger] blog(o, r), blog(n, r)) by {
        if r.len() > 0 {
            assert(ilog(f, r) == ilog(o.inner.v(), r));
            assert(inn(l, r[0]) == inn(f, r[0]));
            if inn(f, r[0]) {
                let (x, y) = (kid(f, r[0]), kid(l, r[0]));
                assert(ilog(f, r) == blog(x, r.skip(1))); assert(ilog(l, r) == blog(y, r.skip(1)));
                if t.len() > 0 && (r[0] == plus_l() || r[0] == t[0]) { assert(reads(x, y)); assert(grows(blog(x, r.skip(1)), blog(y, r.skip(1)))); }
            }
        }
    }
    assert forall|q: Levels| looks(#[trigger] clog(o.inner.v(), q), clog(l, q)) by {
        assert(clog(f, q) == clog(o.inner.v(), q));
        if q.len() > 0 && q[0] != hash_l() {
            assert(inn(l, q[0]) == inn(f, q[0]));
            if inn(f, q[0]) {
                let (x, y) = (kid(f, q[0]), kid(l, q[0]));
                if t.len() > 0 && (q[0] == plus_l() || q[0] == t[0]) { assert(reads(x, y)); assert(looks(clog(x.inner.v(), q.skip(1)), clog(y.inner.v(), q.skip(1)))); }
            }
        }
    }
    assert forall|p: Levels| #[trigger] mt(p, t) implies clog(l, p).len() > clog(o.inner.v(), p).len() || lost(o, n, p) by {
        assert(clog(f, p) == clog(o.inner.v(), p));
        if p.len() > 0 && p[0] != hash_l() {
            let k0 = p[0]; let p1 = p.skip(1);
            if inn(f, k0) {
                let (x, y) = (kid(f, k0), kid(l, k0));
                assert(inn(l, k0) == inn(f, k0));
                assert(covered(x, y, t.skip(1)));
                assert(mt(p1, t.skip(1)));
                if lost(x, y, p1) {
                    let (j, k) = choose|j: int, k: int| #[trigger] lost_at(x, y, p1, j, k);
                    let r = p.take(j + 1);
                    assert(r.skip(1) =~= p1.take(j));
                    assert(r.len() > 0 && r[0] == k0);
                    assert(blog(o, r) == ilog(f, r));
                    assert(ilog(f, r) == blog(x, r.skip(1)));
                    assert(ilog(l, r) == blog(y, r.skip(1)));
                    assert(hash_free(p, j + 2)) by { assert forall|i: int| 0 <= i < j + 2 && i < p.len() implies #[trigger] p[i] != hash_l() by { if i > 0 { assert(p1[i - 1] == p[i]); } } }
                    assert(lost_at(o, n, p, j + 1, k));
                }
            } else {
                assert(p.take(0) =~= e);
                assert(lg[lg.len() - 1].found == f);
                assert(lost_at(o, n, p, 0, lg.len() - 1));
            }
        }
    }
    assert forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] parts(n, t, c, i) <==> seen(o, n, t)(c, i) by {
        saw_found(f.hash_wildcard.log(), l.hash_wildcard.log(), c, i);
        if t.len() == 0 { saw_found(f.subscribers.log(), l.subscribers.log(), c, i); }
        assert(clog(f, hs) == clog(o.inner.v(), hs)); assert(clog(f, e) == clog(o.inner.v(), e));
        if holds(l.hash_wildcard.log().last().found@, c, i) { assert(mt(hs, t) && found_in(clog(o.inner.v(), hs), clog(l, hs), c, i)); }
        if t.len() == 0 && holds(l.subscribers.log().last().found@, c, i) { assert(mt(e, t) && found_in(clog(o.inner.v(), e), clog(l, e), c, i)); }
        if t.len() > 0 {
            let t1 = t.skip(1);
            if inn(f, plus_l()) && seen(kid(f, plus_l()), kid(l, plus_l()), t1)(c, i) { seen_up(o, n, t, plus_l(), c, i); }
            if inn(f, t[0]) && seen(kid(f, t[0]), kid(l, t[0]), t1)(c, i) { seen_up(o, n, t, t[0], c, i); }
        }
        if seen(o, n, t)(c, i) {
            let p = choose|p: Levels| #[trigger] mt(p, t) && found_in(clog(o.inner.v(), p), clog(l, p), c, i);
            assert(clog(f, p) == clog(o.inner.v(), p));
            if p.len() > 0 && p[0] != hash_l() {
                let k0 = p[0];
                assert(inn(l, k0) == inn(f, k0));
                assert(mt(p.skip(1), t.skip(1)));
                assert(inn(f, k0));
                assert(found_in(clog(kid(f, k0).inner.v(), p.skip(1)), clog(kid(l, k0).inner.v(), p.skip(1)), c, i));
            }
        }
    }
}
pub proof fn seen_up(o: Block, n: Block, t: Levels, k: Seq<char>, c: Seq<char>, i: SubscriptionInfo)
    requires looked_in(o, n, t), no_wild(t), t.len() > 0, k == plus_l() || k == t[0], k != hash_l(),
        ({ let f = n.inner.log().last().found; inn(f, k) && seen(kid(f, k), kid(n.inner.v(), k), t.skip(1))(c, i) }),
    ensures seen(o, n, t)(c, i)
{
    let f = n.inner.log().last().found; let l = n.inner.v();
    let p = choose|p: Levels| #[trigger] mt(p, t.skip(1)) && found_in(clog(kid(f, k).inner.v(), p), clog(kid(l, k).inner.v(), p), c, i);
    let q = seq![k] + p;
    assert(q.skip(1) =~= p);
    assert(inn(l, k) == inn(f, k));
    assert(clog(f, q) == clog(o.inner.v(), q));
    assert(mt(q, t) && found_in(clog(o.inner.v(), q), clog(l, q), c, i));
}
/// collecting in steps; and what counts is what has been offered, not how it is said
pub proof fn collect_all(o: Holders, n: Holders, h: Offer)
    ensures
        forall|x: Holders, y: Holders, z: Holders, f: Offer, g: Offer| #[trigger] merged(x, y, f) && #[trigger] merged(y, z, g) ==> merged(x, z, either(f, g)),
        forall|f: Offer| #[trigger] merged(o, n, f) && (forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] f(c, i) <==> h(c, i)) ==> merged(o, n, h),
{
    assert forall|x: Holders, y: Holders, z: Holders, f: Offer, g: Offer| #[trigger] merged(x, y, f) && #[trigger] merged(y, z, g) implies merged(x, z, either(f, g)) by { merged_trans(x, y, z, f, g, either(f, g)); }
    assert forall|f: Offer| #[trigger] merged(o, n, f) && (forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] f(c, i) <==> h(c, i)) implies merged(o, n, h) by {
        assert forall|x: Seq<char>| #[trigger] n.contains_key(x) implies holds(o, x, n[x]) || h(x, n[x]) by { assert(holds(o, x, n[x]) || f(x, n[x])); assert(h(x, n[x]) <==> f(x, n[x])); }
        assert forall|x: Seq<char>, i: SubscriptionInfo| #[trigger] h(x, i) implies n.contains_key(x) && qrank(n[x].qos) >= qrank(i.qos) by { assert(f(x, i) <==> h(x, i)); assert(f(x, i)); }
    }
}
@@ fn Block::collect_subs
@@ tags C20
    requires no_wild($1.rest()),
    ensures reads(*old(self), *final(self)), covered(*old(self), *final(self), $1.rest()), merged(old($0)@, final($0)@, seen(*old(self), *final(self), $1.rest())),
    decreases $1.rest().len()
@@ entry
    proof { reveal_strlit("+"); assert("+"@ =~= plus_l()); }
    let ghost t = $1.rest();
    let ghost s0 = subs@;
    let ghost o = *self;
    proof { if t.len() > 0 { assert forall|i: int| 0 <= i < t.skip(1).len() implies #[trigger] t.skip(1)[i] != hash_l() && t.skip(1)[i] != plus_l() by { assert(t.skip(1)[i] == t[i + 1]); } } }
@@ tail returns
    proof {
        assert(looked_in(o, *self, t));
        looked(o, *self, t);
        collect_all(s0, subs@, |c: Seq<char>, i: SubscriptionInfo| parts(*self, t, c, i));
        collect_all(s0, subs@, seen(o, *self, t));
    }
@@ end
@@ module s_topics
pub type Index = Seq<Sect<HashMap<Arc<str>, HashSet<Arc<str>>>>>;
pub open spec fn knows(m: Map<Seq<char>, HashSet<Arc<str>>>, c: Seq<char>, t: Seq<char>) -> bool { m.contains_key(c) && m[c]@.contains(t) }
/// one section on the reverse index: after it the index knows what it knew, and this
pub open spec fn noted(o: Index, n: Index, c: Seq<char>, t: Seq<char>) -> bool {
    n == o.push(n.last())
    && forall|d: Seq<char>, u: Seq<char>| #[trigger] knows(n.last().left@, d, u) <==> knows(n.last().found@, d, u) || (d == c && u == t)
}
/// .. and not this
pub open spec fn struck(o: Index, n: Index, c: Seq<char>, t: Seq<char>) -> bool {
    n == o.push(n.last())
    && forall|d: Seq<char>, u: Seq<char>| #[trigger] knows(n.last().left@, d, u) <==> knows(n.last().found@, d, u) && !(d == c && u == t)
}
pub open spec fn struck_all(o: Index, n: Index, c: Seq<char>) -> bool { n == o.push(n.last()) && n.last().left@ == n.last().found@.remove(c) }
/// sections that removed the client's subscription
pub open spec fn cuts(o: Log, n: Log, c: Seq<char>) -> bool { o.is_prefix_of(n) && forall|k: int| o.len() <= k < n.len() ==> (#[trigger] n[k]).left@ == n[k].found@.remove(c) }
pub open spec fn away(o: Block, n: Block, p: Levels) -> bool { clog(n.inner.v(), p).len() > clog(o.inner.v(), p).len() || lost(o, n, p) }
pub open spec fn gone<T: Key<KV = Seq<char>>>(v: Seq<T>, n: int, q: Levels) -> bool { exists|k: int| 0 <= k < n && same_pl(path((#[trigger] v[k]).kv()), q) }
pub proof fn gone_step<T: Key<KV = Seq<char>>>(v: Seq<T>, n: int, q: Levels)
    requires 0 <= n < v.len()
    ensures gone(v, n + 1, q) <==> gone(v, n, q) || same_pl(path(v[n].kv()), q)
{
    if gone(v, n + 1, q) { let k = choose|k: int| 0 <= k < n + 1 && same_pl(path((#[trigger] v[k]).kv()), q); if k < n { assert(gone(v, n, q)); } }
    if gone(v, n, q) { let k = choose|k: int| 0 <= k < n && same_pl(path((#[trigger] v[k]).kv()), q); assert(0 <= k < n + 1 && same_pl(path(v[k].kv()), q)); }
    if same_pl(path(v[n].kv()), q) { assert(0 <= n < n + 1); }
}
pub proof fn lost_later(o: Block, m: Block, n: Block)
    requires adds(m, n), adds(o, m),
    ensures forall|p: Levels| #![trigger lost(o, m, p)] #![trigger lost(m, n, p)] lost(o, m, p) || lost(m, n, p) ==> lost(o, n, p),
{
    assert forall|p: Levels| #![trigger lost(o, m, p)] #![trigger lost(m, n, p)] lost(o, m, p) || lost(m, n, p) implies lost(o, n, p) by {
        if lost(o, m, p) {
            let (j, k) = choose|j: int, k: int| #[trigger] lost_at(o, m, p, j, k);
            assert(grows(blog(m, p.take(j)), blog(n, p.take(j))));
            assert(blog(n, p.take(j))[k] == blog(m, p.take(j))[k]);
            assert(lost_at(o, n, p, j, k));
        } else {
            let (j, k) = choose|j: int, k: int| #[trigger] lost_at(m, n, p, j, k);
            assert(grows(blog(o, p.take(j)), blog(m, p.take(j))));
            assert(lost_at(o, n, p, j, k));
        }
    }
}
pub proof fn place_log(b: BlockInner, p: Levels, q: Levels)
    requires same_pl(p, q)
    ensures clog(b, p) == clog(b, q)
    decreases p.len()
{
    if p.len() > 0 && q.len() > 0 && p[0] != hash_l() && q[0] != hash_l() && inn(b, p[0]) { place_log(kid(b, p[0]).inner.v(), p.skip(1), q.skip(1)); }
}
@@ members TopicsTable
    pub open spec fn log_at(&self, p: Levels) -> Log { clog(self.root_block.inner.v(), p) }
@@ fn TopicsTable::new
@@ tags C20
    ensures unused(ret.root_block), blank(ret.root_block), ret.reverse_index.v()@ == Map::<Seq<char>, HashSet<Arc<str>>>::empty(),
@@ fn TopicsTable::topic_to_subtopics
@@ tags C20
    ensures ret.rest() == path($0@),
@@ entry
    proof { reveal_strlit("/"); reveal_strlit(""); split_len($0@, '/'); assert("/"@ =~= slash_l()); assert(""@.len() == 0); }
@@ tail returns
    proof { let l = split_on($0@, '/'); assert(l =~= seq![l[0]] + l.skip(1)); if l[0].len() == 0 { assert(l[0] =~= ""@); } }
@@ fn TopicsTable::visit
@@ tags C20
    requires forall|x: &mut Block, h: bool| #[trigger] $2.requires((x, h)),
        forall|x: &mut Block, h: bool| #[trigger] $2.ensures((x, h), ()) ==> local_change(*x, *final(x), h),
    ensures adds(old(self).root_block, final(self).root_block), same_but(final(self).root_block, old(self).root_block, path($0@)), final(self).reverse_index == old(self).reverse_index,
        (exists|x: &mut Block, h: bool| #[trigger] $2.ensures((x, h), ()) && h == is_hash(path($0@)) && at_place(*x, h) == old(self).log_at(path($0@)) && at_place(*final(x), h) == final(self).log_at(path($0@)))
        || (!$1 && final(self).log_at(path($0@)) == old(self).log_at(path($0@)) && lost(old(self).root_block, final(self).root_block, path($0@))),
@@ fn TopicsTable::topics_add
@@ tags C20
    ensures adds(old(self).root_block, final(self).root_block), same_but(final(self).root_block, old(self).root_block, path($1@)), final(self).reverse_index == old(self).reverse_index,
        put(old(self).log_at(path($1@)), final(self).log_at(path($1@)), $0@, SubscriptionInfo { qos: $2, flags: $3 }),
@@ entry
    proof { sectioned(); }
@@ closure 0
    ensures local_change(*old(block), *final(block), is_hash), put(at_place(*old(block), is_hash), at_place(*final(block), is_hash), $0@, SubscriptionInfo { qos: $2, flags: $3 })
@@ fn TopicsTable::topic_remove
@@ tags C20
    requires old(self).reverse_index.log().len() > 0, !knows(old(self).reverse_index.log().last().left@, $0@, $1@),
    ensures adds(old(self).root_block, final(self).root_block), same_but(final(self).root_block, old(self).root_block, path($1@)), final(self).reverse_index == old(self).reverse_index,
        cut(old(self).log_at(path($1@)), final(self).log_at(path($1@)), $0@)
        || (final(self).log_at(path($1@)) == old(self).log_at(path($1@)) && lost(old(self).root_block, final(self).root_block, path($1@))),
@@ entry
    proof { sectioned(); }
@@ closure 0
    ensures local_change(*old(block), *final(block), is_hash), cut(at_place(*old(block), is_hash), at_place(*final(block), is_hash), $0@)
@@ module s_topics
/// one section on a block, in which one of its tables had sections
pub open spec fn one_section(o: Block, n: Block, h: bool) -> bool {
    let f = n.inner.log().last().found; let l = n.inner.v();
    &&& n.inner.id() == o.inner.id() && n.inner.log() == o.inner.log().push(Sect { found: f, left: l }) && BlockInner::rely(o.inner.v(), f)
    &&& l.sub_blocks == f.sub_blocks && l.hash_wildcard.id() == f.hash_wildcard.id() && l.subscribers.id() == f.subscribers.id()
    &&& if h { l.subscribers == f.subscribers } else { l.hash_wildcard == f.hash_wildcard }
}
pub open spec fn table_of(b: BlockInner, h: bool) -> Log { if h { b.hash_wildcard.log() } else { b.subscribers.log() } }
pub open spec fn sectioned_at(o: Block, n: Block, h: bool) -> bool { local_change(o, n, h) && at_place(o, h) == table_of(n.inner.log().last().found, h) && at_place(n, h) == table_of(n.inner.v(), h) }
pub proof fn section_is(o: Block, n: Block, h: bool)
    requires one_section(o, n, h)
    ensures sectioned_at(o, n, h)
{
    let f = n.inner.log().last().found; let l = n.inner.v();
    no_more(f, l);
    assert forall|p: Levels| grows(#[trigger] blog(o, p), blog(n, p)) by { if p.len() > 0 { assert(ilog(l, p) == ilog(f, p)); assert(ilog(f, p) == ilog(o.inner.v(), p)); } }
    assert forall|q: Levels| !same_pl(q, hp(h)) implies #[trigger] clog(l, q) == clog(o.inner.v(), q) by { assert(clog(f, q) == clog(o.inner.v(), q)); }
    assert(clog(f, hp(h)) == clog(o.inner.v(), hp(h)));
    if h { assert(hp(h).len() == 1 && hp(h)[0] == hash_l()); } else { assert(hp(h).len() == 0); }
}
pub proof fn sectioned()
    ensures forall|o: Block, n: Block, h: bool| #[trigger] local_change(o, n, h) || !one_section(o, n, h),
        forall|o: Block, n: Block, h: bool| #![trigger at_place(o, h), at_place(n, h)] one_section(o, n, h) ==> sectioned_at(o, n, h),
{
    assert forall|o: Block, n: Block, h: bool| #[trigger] one_section(o, n, h) implies local_change(o, n, h) && sectioned_at(o, n, h) by { section_is(o, n, h); }
}
@@ fn TopicsTable::reverse_index_add
@@ tags C20
    requires old(self).log_at(path($1@)).len() > 0, old(self).log_at(path($1@)).last().left@.contains_key($0@),
    ensures final(self).root_block == old(self).root_block, noted(old(self).reverse_index.log(), final(self).reverse_index.log(), $0@, $1@),
@@ fn TopicsTable::subscribe
@@ tags C20
    ensures adds(old(self).root_block, final(self).root_block), same_but(final(self).root_block, old(self).root_block, path($1@)),
        put(old(self).log_at(path($1@)), final(self).log_at(path($1@)), $0@, SubscriptionInfo { qos: $2, flags: $3 }),
        noted(old(self).reverse_index.log(), final(self).reverse_index.log(), $0@, $1@),
@@ fn TopicsTable::reverse_index_remove
@@ tags C20
    ensures final(self).root_block == old(self).root_block, struck(old(self).reverse_index.log(), final(self).reverse_index.log(), $0@, $1@),
@@ tail returns
    proof {
        let s = self.reverse_index.log().last();
        if s.found@.contains_key($0@) {
            let (a, b) = (s.found@[$0@]@, s.found@[$0@]@.remove($1@));
            assert forall|t: Seq<char>| t != $1@ && #[trigger] a.contains(t) implies b.contains(t) && b != Set::<Seq<char>>::empty() by { assert(!Set::<Seq<char>>::empty().contains(t)); }
        }
    }
@@ fn TopicsTable::unsubscribe
@@ tags C20
    ensures adds(old(self).root_block, final(self).root_block), same_but(final(self).root_block, old(self).root_block, path($1@)),
        cut(old(self).log_at(path($1@)), final(self).log_at(path($1@)), $0@)
        || (final(self).log_at(path($1@)) == old(self).log_at(path($1@)) && lost(old(self).root_block, final(self).root_block, path($1@))),
        struck(old(self).reverse_index.log(), final(self).reverse_index.log(), $0@, $1@),
@@ fn TopicsTable::reverse_index_remove_all
@@ tags C20
    ensures final(self).root_block == old(self).root_block, struck_all(old(self).reverse_index.log(), final(self).reverse_index.log(), $0@),
        ret == (if final(self).reverse_index.log().last().found@.contains_key($0@) { Some(final(self).reverse_index.log().last().found@[$0@]) } else { None }),
@@ fn TopicsTable::unsubscribe_all
@@ tags C20
    ensures adds(old(self).root_block, final(self).root_block), struck_all(old(self).reverse_index.log(), final(self).reverse_index.log(), $0@),
        forall|q: Levels| cuts(#[trigger] old(self).log_at(q), final(self).log_at(q), $0@),
        forall|q: Levels| (forall|t: Seq<char>| #[trigger] knows(final(self).reverse_index.log().last().found@, $0@, t) ==> !same_pl(path(t), q)) ==> #[trigger] final(self).log_at(q) == old(self).log_at(q),
        forall|t: Seq<char>| #[trigger] knows(final(self).reverse_index.log().last().found@, $0@, t) ==> away(old(self).root_block, final(self).root_block, path(t)),
@@ attr #[verifier::loop_isolation(false)]
@@ entry
    let ghost o = *self;
    proof { adds_refl(o.root_block); }
@@ loop 0
    invariant __i0 <= __it0@.len(), struck_all(o.reverse_index.log(), self.reverse_index.log(), $0@), adds(o.root_block, self.root_block),
        forall|k: int| 0 <= k < __it0@.len() ==> knows(self.reverse_index.log().last().found@, $0@, (#[trigger] __it0@[k])@),
        forall|t: Seq<char>| #[trigger] knows(self.reverse_index.log().last().found@, $0@, t) ==> exists|k: int| 0 <= k < __it0@.len() && (#[trigger] __it0@[k])@ == t,
        forall|q: Levels| cuts(#[trigger] o.log_at(q), self.log_at(q), $0@),
        forall|q: Levels| !gone(__it0@, __i0 as int, q) ==> #[trigger] self.log_at(q) == o.log_at(q),
        forall|k: int| 0 <= k < __i0 ==> away(o.root_block, self.root_block, path((#[trigger] __it0@[k])@)),
    decreases __it0@.len() - __i0
@@ loop-body 0
    let ghost m = *self;
    proof { assert(knows(self.reverse_index.log().last().found@, $0@, __it0@[__i0 as int]@)); }
@@ loop-end 0
    proof {
        let p = path(__it0@[__i0 - 1]@);
        adds_trans(o.root_block, m.root_block, self.root_block);
        lost_later(o.root_block, m.root_block, self.root_block);
        assert forall|q: Levels| cuts(#[trigger] o.log_at(q), self.log_at(q), $0@) by {
            assert(cuts(o.log_at(q), m.log_at(q), $0@));
            if same_pl(q, p) { place_log(self.root_block.inner.v(), q, p); place_log(m.root_block.inner.v(), q, p); }
        }
        assert forall|q: Levels| !gone(__it0@, __i0 as int, q) implies #[trigger] self.log_at(q) == o.log_at(q) by {
            gone_step(__it0@, __i0 - 1, q);
            if same_pl(q, p) { same_pl_sym(q, p); }
            assert(m.log_at(q) == o.log_at(q));
        }
        assert forall|k: int| 0 <= k < __i0 implies away(o.root_block, self.root_block, path((#[trigger] __it0@[k])@)) by {
            let r = path(__it0@[k]@);
            assert(cuts(o.log_at(r), m.log_at(r), $0@));
            if k < __i0 - 1 { assert(away(o.root_block, m.root_block, r)); if same_pl(r, p) { place_log(self.root_block.inner.v(), r, p); place_log(m.root_block.inner.v(), r, p); } }
        }
    }
@@ loop-after 0
    proof {
        let m = self.reverse_index.log().last().found@;
        assert forall|t: Seq<char>| #[trigger] knows(m, $0@, t) implies away(o.root_block, self.root_block, path(t)) by {
            let k = choose|k: int| 0 <= k < __it0@.len() && (#[trigger] __it0@[k])@ == t;
        }
    }
@@ fn TopicsTable::get_all_subscribed
@@ tags C20
    requires !$0@.contains('#'), !$0@.contains('+'),
    ensures reads(old(self).root_block, final(self).root_block), final(self).reverse_index == old(self).reverse_index,
        covered(old(self).root_block, final(self).root_block, path($0@)), merged(Map::empty(), ret@, seen(old(self).root_block, final(self).root_block, path($0@))),
        forall|f: Seq<char>| #[trigger] mt(split_on(f, '/'), split_on($0@, '/')) ==> away(old(self).root_block, final(self).root_block, path(f)),
@@ entry
    proof { path_no_wild($0@); }
@@ tail returns
    proof { assert forall|f: Seq<char>| #[trigger] mt(split_on(f, '/'), split_on($0@, '/')) implies away(old(self).root_block, self.root_block, path(f)) by { mt_path(f, $0@); } }
@@ module s_topics
pub proof fn path_no_wild(s: Seq<char>)
    requires !s.contains('#'), !s.contains('+')
    ensures no_wild(path(s))
{
    path_no_hash(s);
    split_chars(s, '/', '+');
    split_len(s, '/');
    let l = split_on(s, '/');
    assert forall|i: int| 0 <= i < path(s).len() implies #[trigger] path(s)[i] != hash_l() && path(s)[i] != plus_l() by {
        assert(slash_l()[0] != plus_l()[0]);
        assert(plus_l()[0] == '+');
        if l[0].len() == 0 && i == 0 { assert(path(s)[0] == slash_l()); }
        else { assert(path(s)[i] == l[i]); if l[i] == plus_l() { assert(l[i].contains('+')); } }
    }
}
@@ end
