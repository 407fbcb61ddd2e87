// Stand-ins for what the server library takes from std, tokio and uuid, in the sequential reading.
@@ prelude
impl Key for str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl Key for Arc<str> { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl<T: Key + ?Sized> Key for &T { type KV = T::KV; open spec fn kv(&self) -> T::KV { (**self).kv() } }
impl<K: Key, V> HashMap<K, V> {
    // the entry API, by lookups
    #[verifier::external_body] pub fn v_insert_ref<'a>(&'a mut self, k: K, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self)@ == old(self)@.insert(k.kv(), *final(r))
    { unimplemented!() }
    #[verifier::external_body] pub fn v_replace(&mut self, k: K, v: V) -> (r: V)
        requires old(self)@.contains_key(k.kv())
        ensures r == old(self)@[k.kv()], final(self)@ == old(self)@.insert(k.kv(), v)
    { unimplemented!() }
    #[verifier::external_body] pub fn v_at<'a, Q: Key<KV = K::KV> + ?Sized>(&'a self, k: &Q) -> (r: &'a V)
        requires self@.contains_key(k.kv())
        ensures *r == self@[k.kv()]
    { unimplemented!() }
    #[verifier::external_body] pub fn v_at_mut<'a, Q: Key<KV = K::KV> + ?Sized>(&'a mut self, k: &Q) -> (r: &'a mut V)
        requires old(self)@.contains_key(k.kv())
        ensures *r == old(self)@[k.kv()], final(self)@ == old(self)@.insert(k.kv(), *final(r))
    { unimplemented!() }
    #[verifier::external_body] pub fn v_or_insert<'a>(&'a mut self, k: K, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self)@.contains_key(k.kv()) { old(self)@[k.kv()] } else { v }), final(self)@ == old(self)@.insert(k.kv(), *final(r))
    { unimplemented!() }
    #[verifier::external_body] pub fn v_remove<Q: Key<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: V)
        requires old(self)@.contains_key(k.kv())
        ensures r == old(self)@[k.kv()], final(self)@ == old(self)@.remove(k.kv())
    { unimplemented!() }
}
pub open spec fn keyed<K: Key, V>(r: Seq<(K, V)>, k: K::KV) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.kv() == k }
impl<K: Key, V> VInto for HashMap<K, V> {
    type E = (K, V);
    uninterp spec fn ito(self) -> Seq<(K, V)>;
    #[verifier::external_body]
    fn v_into(self) -> (r: Vec<(K, V)>)
        ensures r@.len() == self.order().len(), self.order().no_duplicates(),
            forall|k: K::KV| #![trigger self@.contains_key(k)] #![trigger keyed(r@, k)] self@.contains_key(k) <==> keyed(r@, k),
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0.kv()) && r@[i].1 == self@[r@[i].0.kv()],
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0.kv() != (#[trigger] r@[j]).0.kv(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0.kv() == self.order()[i] && r@[i].1 == self@[self.order()[i]]
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K: Key> { _p: std::marker::PhantomData<K> }
impl<K: Key> View for HashSet<K> { type V = Set<K::KV>; uninterp spec fn view(&self) -> Set<K::KV>; }
impl<K: Key> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::KV>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.kv()), r == !old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: Key<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.kv()), r == old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn contains<Q: Key<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::KV>::empty()) { unimplemented!() }
}
impl<K: Key> HashSet<K> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<K::KV>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: Vec<&'a K>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i]).kv()), forall|k: K::KV| #[trigger] self@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).kv() == k
    { unimplemented!() }
}
impl<K: Key + Clone> Clone for HashSet<K> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<K: Key> VInto for HashSet<K> {
    type E = K;
    uninterp spec fn ito(self) -> Seq<K>;
    #[verifier::external_body]
    fn v_into(self) -> (r: Vec<K>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i]).kv()), forall|k: K::KV| #[trigger] self@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && r@[i].kv() == k
    { unimplemented!() }
}

// ---------------------------------------------------------------- the levels of a topic
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let r = split_on(s.skip(1), c);
        if s[0] == c { seq![Seq::<char>::empty()] + r } else { seq![seq![s[0]] + r[0]] + r.skip(1) }
    }
}
/// `str::split` and the adapters around it: a cursor over strings
#[verifier::external_body]
pub struct VStrs<'a> { _p: &'a u8 }
impl<'a> VStrs<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && r->0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1)
    { unimplemented!() }
}
impl<'a> Clone for VStrs<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() } }
#[verifier::external_body]
pub fn v_split<'a>(s: &'a str, c: char) -> (r: VStrs<'a>) ensures r.rest() == split_on(s@, c) { unimplemented!() }
#[verifier::external_body]
pub fn v_once_chain<'a>(x: &'a str, y: VStrs<'a>) -> (r: VStrs<'a>) ensures r.rest() == seq![x@] + y.rest() { unimplemented!() }

// ---------------------------------------------------------------- tokio
/// its value stands for its identity
#[verifier::external_body]
pub struct Notify { _p: u8 }
impl Notify {
    /// at some time it was notified
    pub uninterp spec fn told(&self) -> bool;
    #[verifier::external_body] pub fn new() -> Notify { unimplemented!() }
    #[verifier::external_body] pub fn notify_one(&self) ensures self.told() { unimplemented!() }
    #[verifier::external_body] pub fn notify_waiters(&self) { unimplemented!() }
    #[verifier::external_body] pub fn notified(&self) ensures self.told() { unimplemented!() }
    // the same, as steps of a task
    #[verifier::external_body] pub fn v_take(&self, Tracked(t): Tracked<&mut Task>)
        ensures self.told(), *final(t) == (Task { takes: old(t).takes.insert(*self, old(t).owed(*self) + 1), ..*old(t) })
    { unimplemented!() }
    #[verifier::external_body] pub fn v_give(&self, Tracked(t): Tracked<&mut Task>)
        ensures self.told(), *final(t) == (Task { takes: old(t).takes.insert(*self, old(t).owed(*self) - 1), ..*old(t) })
    { unimplemented!() }
    #[verifier::external_body] pub fn v_wake(&self, Tracked(t): Tracked<&mut Task>) ensures *final(t) == *old(t) { unimplemented!() }
    #[verifier::external_body] pub fn v_beside(&self, Tracked(t): Tracked<&mut Task>)
        ensures *final(t) == (Task { beside: old(t).beside.insert(*self), ..*old(t) })
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<T> { _p: std::marker::PhantomData<T> }
pub struct JoinError { _p: u8 }
impl<T> JoinHandle<T> { 
    pub uninterp spec fn out(&self) -> T;
    pub uninterp spec fn id(&self) -> int;
    /// the task has ended
    #[verifier::external_body] pub fn v_join(self, Tracked(t): Tracked<&mut Task>) -> (r: Result<T, JoinError>)
        ensures *final(t) == (Task { waits: old(t).waits.insert(old(t).takes), joined: old(t).joined.push(self.id()), ..*old(t) }), r matches Ok(x) ==> x == self.out()
    { unimplemented!() }
}
#[verifier::external_body] pub fn v_spawn<T>(t: T) -> (r: JoinHandle<T>) ensures r.out() == t { unimplemented!() }
/// this is the notice that `MqttServer::shutdown` gives
pub open spec fn at(a: Arc<Notify>) -> Notify { *a }
pub uninterp spec fn server_notice(n: Notify) -> bool;
/// What a task has done, as far as its end is concerned. A notice (`notify_one`) is for one of those who
/// wait for it, now or later: whoever takes it owes it to the others.
pub tracked struct Task {
    /// how many of which notice it has taken, less those it has given
    pub ghost takes: Map<Notify, int>,
    /// the notices the wait to come is beside
    pub ghost beside: Set<Notify>,
    /// the sets of notices that the waits of `select!` were beside
    pub ghost selects: Set<Set<Notify>>,
    /// the waits that were beside nothing, each with what was owed then
    pub ghost waits: Set<Map<Notify, int>>,
    /// the ends of tasks that were waited for, in this order
    pub ghost joined: Seq<int>,
}
pub open spec fn owed_in(m: Map<Notify, int>, n: Notify) -> int { if m.contains_key(n) { m[n] } else { 0 } }
impl Task {
    pub open spec fn owed(&self, n: Notify) -> int { owed_in(self.takes, n) }
    /// every wait was beside this notice
    pub open spec fn listened(&self, n: Notify) -> bool { self.waits == Set::<Map<Notify, int>>::empty() && self.heard(n) }
    pub open spec fn heard(&self, n: Notify) -> bool { forall|s: Set<Notify>| #[trigger] self.selects.contains(s) ==> s.contains(n) }
    /// at every wait beside nothing this much was owed
    pub open spec fn waited_at(&self, n: Notify, k: int) -> bool { forall|f: Map<Notify, int>| #[trigger] self.waits.contains(f) ==> owed_in(f, n) == k }
}
pub axiom fn v_task() -> (tracked t: Task)
    ensures t.takes == Map::<Notify, int>::empty(), t.beside == Set::<Notify>::empty(), t.selects == Set::<Set<Notify>>::empty(), t.waits == Set::<Map<Notify, int>>::empty(), t.joined == Seq::<int>::empty();
#[verifier::external_body] pub fn v_waited(Tracked(t): Tracked<&mut Task>)
    ensures *final(t) == (Task { beside: Set::empty(), selects: old(t).selects.insert(old(t).beside), ..*old(t) })
{ unimplemented!() }
#[verifier::external_body] pub fn v_wait(Tracked(t): Tracked<&mut Task>)
    ensures *final(t) == (Task { waits: old(t).waits.insert(old(t).takes), ..*old(t) })
{ unimplemented!() }
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [std::sync::Arc::<T, A>::ptr_eq] (a: &std::sync::Arc<T, A>, b: &std::sync::Arc<T, A>) -> (r: bool) ensures r == same_arc(a, b);
pub uninterp spec fn same_arc<T: ?Sized, A: std::alloc::Allocator>(a: &std::sync::Arc<T, A>, b: &std::sync::Arc<T, A>) -> bool;
pub broadcast axiom fn notify_identity(a: &Arc<Notify>, b: &Arc<Notify>) ensures (#[trigger] same_arc(a, b)) == (*a == *b);
#[derive(Clone, Copy)]
pub struct SocketAddr { _p: u8 }
/// what may travel over a channel: its sender owes it, its receiver has it
pub trait Carried: Sized { spec fn carried(&self) -> bool;
    /// what a thing has to itself: no two that travel over a channel share it
    open spec fn apart(&self, o: Self) -> bool { true } }
/// packets on their way to a connection can be written
impl Carried for Packet { open spec fn carried(&self) -> bool { self.inv() && Packet::fits(self.vv()) } }
pub struct SendError<T> { pub t: T }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct UnboundedSender<T: Carried> { _p: std::marker::PhantomData<T> }
impl<T: Carried> UnboundedSender<T> {
    /// the receiving end is still there
    pub uninterp spec fn open(&self) -> bool;
    /// everything sent through this sender
    pub uninterp spec fn sent(&self) -> Seq<T>;
    #[verifier::external_body] pub fn send(&mut self, t: T) -> (r: Result<(), SendError<T>>)
        requires t.carried()
        ensures r is Ok <==> old(self).open(), final(self).open() == old(self).open(),
            final(self).sent() == (if old(self).open() { old(self).sent().push(t) } else { old(self).sent() })
    { unimplemented!() }
}
impl<T: Carried> Clone for UnboundedSender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.open() == self.open() { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T: Carried> { _p: std::marker::PhantomData<T> }
impl<T: Carried> Receiver<T> {
    /// at some time nothing more comes: every sender has gone
    pub uninterp spec fn ends(&self) -> bool;
    #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<T>)
        ensures r matches Some(t) ==> t.carried(), final(self).ends() == old(self).ends(), r is None ==> old(self).ends()
    { unimplemented!() }
}

/// which branch of a `select!` completes: any
#[verifier::external_body] pub fn v_choice(n: u8) -> (r: u8) ensures r < n { unimplemented!() }

// errors of other crates
#[derive(Debug)] pub struct IoError { _p: u8 }
#[derive(Debug)] pub struct SnowError { _p: u8 }
@@ end
