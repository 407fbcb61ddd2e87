// The registry of clients.
@@ prelude
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct FuturesUnordered<T> { _p: std::marker::PhantomData<T> }
impl<T> FuturesUnordered<JoinHandle<T>> {
    /// the tasks that have not been seen to end, in whatever order
    pub uninterp spec fn tasks(&self) -> Seq<JoinHandle<T>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.tasks() == Seq::<JoinHandle<T>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, t: JoinHandle<T>) ensures final(self).tasks() == old(self).tasks().push(t) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.tasks().len() == 0) { unimplemented!() }
    /// some task that has ended; no task panics or is cancelled
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<T, JoinError>>)
        ensures
            r is None ==> old(self).tasks().len() == 0 && final(self).tasks() == old(self).tasks(),
            r is Some ==> exists|i: int| 0 <= i < old(self).tasks().len() && final(self).tasks() == old(self).tasks().remove(i) && (r.unwrap() matches Ok(t) && t == (#[trigger] old(self).tasks()[i]).out()),
    { unimplemented!() }
}
@@ end
@@ module s_mod
pub type Reg = Map<Seq<char>, Client>;
/// some task that has not been seen to end runs the connection of the client
pub open spec fn alive(ts: Seq<JoinHandle<Client>>, c: Client) -> bool { exists|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).out() == c }
/// every connection has its own signal to end it by
pub open spec fn apart(ts: Seq<JoinHandle<Client>>) -> bool { forall|i: int, j: int| 0 <= i < j < ts.len() ==> (#[trigger] ts[i]).out().killme != (#[trigger] ts[j]).out().killme }
/// the registry has the clients whose connections are alive, without those who were told to end
pub open spec fn registry(reg: Reg, ts: Seq<JoinHandle<Client>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] reg.contains_key(k) ==> reg[k].clientid@ == k && alive(ts, reg[k])
    &&& forall|i: int| 0 <= i < ts.len() ==> { let c = (#[trigger] ts[i]).out(); c.killme.told() || (reg.contains_key(c.clientid@) && reg[c.clientid@] == c) }
}
/// what there is after a task that ran the connection of `c` has ended
pub open spec fn ended(reg: Reg, ts: Seq<JoinHandle<Client>>, c: Client) -> bool {
    &&& forall|k: Seq<char>| #[trigger] reg.contains_key(k) ==> reg[k].clientid@ == k && (alive(ts, reg[k]) || reg[k] == c)
    &&& forall|i: int| 0 <= i < ts.len() ==> { let d = (#[trigger] ts[i]).out(); d.killme != c.killme && (d.killme.told() || (reg.contains_key(d.clientid@) && reg[d.clientid@] == d)) }
    &&& apart(ts)
}
/// every task runs the connection of a worker that was taken from the queue
pub open spec fn from_queue(ts: Seq<JoinHandle<Client>>, q: Seq<ClientWorker>) -> bool { forall|i: int| 0 <= i < ts.len() ==> queued(q, (#[trigger] ts[i]).out()) }
pub open spec fn queued(q: Seq<ClientWorker>, c: Client) -> bool { exists|j: int| 0 <= j < q.len() && (#[trigger] q[j]).internals == c }
/// the signal to end this one is that of none of the tasks
pub open spec fn apart_from(ts: Seq<JoinHandle<Client>>, w: ClientWorker) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).out().killme != w.internals.killme }
pub broadcast proof fn queue_grows(ts: Seq<JoinHandle<Client>>, q: Seq<ClientWorker>, w: ClientWorker)
    requires #[trigger] from_queue(ts, q)
    ensures from_queue(ts, #[trigger] q.push(w))
{
    assert forall|i: int| 0 <= i < ts.len() implies queued(q.push(w), (#[trigger] ts[i]).out()) by {
        let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).internals == ts[i].out();
        assert(q.push(w)[j] == q[j]);
    }
}
pub broadcast proof fn tasks_grow(ts: Seq<JoinHandle<Client>>, q: Seq<ClientWorker>, t: JoinHandle<Client>)
    requires #[trigger] from_queue(ts, q), q.len() > 0, q.last().internals == t.out()
    ensures from_queue(#[trigger] ts.push(t), q)
{
    let n = ts.push(t);
    assert(queued(q, t.out())) by { assert(q[q.len() - 1].internals == t.out()); }
    assert forall|i: int| 0 <= i < n.len() implies queued(q, (#[trigger] n[i]).out()) by { if i < ts.len() { assert(n[i] == ts[i]); } }
}
pub broadcast proof fn task_ends(ts: Seq<JoinHandle<Client>>, q: Seq<ClientWorker>, i: int)
    requires #[trigger] from_queue(ts, q), 0 <= i < ts.len()
    ensures from_queue(#[trigger] ts.remove(i), q)
{
    let n = ts.remove(i);
    assert forall|k: int| 0 <= k < n.len() implies queued(q, (#[trigger] n[k]).out()) by { assert(n[k] == ts[if k < i { k } else { k + 1 }]); }
}
pub broadcast proof fn own_signal(ts: Seq<JoinHandle<Client>>, q: Seq<ClientWorker>, w: ClientWorker)
    requires #[trigger] from_queue(ts, q), forall|j: int| 0 <= j < q.len() ==> w.apart(#[trigger] q[j])
    ensures #[trigger] apart_from(ts, w)
{ }
pub broadcast proof fn one_ended(reg: Reg, ts: Seq<JoinHandle<Client>>, i: int)
    requires #[trigger] registry(reg, ts), apart(ts), 0 <= i < ts.len()
    ensures ended(reg, #[trigger] ts.remove(i), ts[i].out())
{
    let n = ts.remove(i);
    let c = ts[i].out();
    assert forall|k: int| 0 <= k < n.len() implies ({ let d = (#[trigger] n[k]).out(); d.killme != c.killme && (d.killme.told() || (reg.contains_key(d.clientid@) && reg[d.clientid@] == d)) }) by { let j = if k < i { k } else { k + 1 }; assert(n[k] == ts[j]); }
    assert forall|k: Seq<char>| #[trigger] reg.contains_key(k) implies reg[k].clientid@ == k && (alive(n, reg[k]) || reg[k] == c) by {
        let j = choose|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).out() == reg[k];
        if j != i { assert(n[if j < i { j } else { j - 1 }].out() == reg[k]); }
    }
    assert forall|k: int, j: int| 0 <= k < j < n.len() implies (#[trigger] n[k]).out().killme != (#[trigger] n[j]).out().killme by { let (a, b) = (if k < i { k } else { k + 1 }, if j < i { j } else { j + 1 }); assert(n[k] == ts[a] && n[j] == ts[b] && a < b); }
}
impl ClientManager {
    pub open spec fn inv(&self) -> bool { registry(self.clients@, self.workers.tasks()) && apart(self.workers.tasks()) }
    pub open spec fn linked(&self) -> bool { self.inv() && server_notice(*self.shutdown) && from_queue(self.workers.tasks(), self.rx.taken()) }
}
@@ fn ClientManager::new
@@ tags C21,C22
    requires $1@ == Map::<Seq<char>, Client>::empty(), server_notice(*$2),
    ensures ret.linked(), //! C21,C22
        ret.shutdown == $2, //! C22
@@ fn ClientManager::start
@@ tags C21,C22
    requires $1@ == Map::<Seq<char>, Client>::empty(), server_notice(*$2),
    // one task for each listener and one for the registry
    ensures ret matches Ok(ts) ==> ts@.len() == 1 + (if $0.mqtt_socketaddr is Some { 1int } else { 0 }) + (if $0.noise_socketaddr is Some { 1int } else { 0 }), //! C22
@@ fn ClientManager::process_new_worker
@@ tags C21
    requires old(self).inv(), $0 matches Some(w) ==> w.admitted() && apart_from(old(self).workers.tasks(), w),
    ensures final(self).inv(), ret == $0 is Some, //! C21
        *final(self) == (ClientManager { clients: final(self).clients, workers: final(self).workers, ..*old(self) }), //! C21
        $0 matches Some(w) ==> exists|t: JoinHandle<Client>| t.out() == w.internals && final(self).workers.tasks() == #[trigger] old(self).workers.tasks().push(t), //! C21
        $0 is None ==> *final(self) == *old(self), //! C21
        $0 matches Some(w) ==> final(self).clients@ == old(self).clients@.insert(w.internals.clientid@, w.internals), //! C18,C21
        $0 matches Some(w) ==> old(self).clients@.contains_key(w.internals.clientid@) ==> old(self).clients@[w.internals.clientid@].killme.told(), //! C21
@@ entry
    let ghost w0 = $0;
    let ghost r0 = self.clients@;
    let ghost t0 = self.workers.tasks();
@@ tail
    proof {
        let w = w0.unwrap();
        let c = w.internals;
        let t = self.workers.tasks();
        assert(t == t0.push(t.last()) && t.last().out() == c);
        assert forall|k: Seq<char>| #[trigger] self.clients@.contains_key(k) implies self.clients@[k].clientid@ == k && alive(t, self.clients@[k]) by {
            if k == c.clientid@ { assert(t[t.len() - 1].out() == c); }
            else { let i = choose|i: int| 0 <= i < t0.len() && (#[trigger] t0[i]).out() == r0[k]; assert(t[i].out() == r0[k]); }
        }
        assert forall|i: int| 0 <= i < t.len() implies ({ let d = (#[trigger] t[i]).out(); d.killme.told() || (self.clients@.contains_key(d.clientid@) && self.clients@[d.clientid@] == d) }) by { if i < t0.len() { assert(t[i] == t0[i]); } }
    }
@@ fn ClientManager::process_retiring_worker
@@ tags C21
    requires
        $0 matches Some(Ok(c)) ==> ended(old(self).clients@, old(self).workers.tasks(), c),
        !($0 matches Some(Ok(_))) ==> old(self).inv(),
    ensures final(self).inv(), //! C21
        *final(self) == (ClientManager { clients: final(self).clients, ..*old(self) }), //! C21
        $0 matches Some(Ok(c)) ==> final(self).clients@ == (if old(self).clients@.contains_key(c.clientid@) && old(self).clients@[c.clientid@].killme == c.killme { old(self).clients@.remove(c.clientid@) } else { old(self).clients@ }), //! C21
@@ fn ClientManager::process_forever
@@ attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
@@ tags C21
    requires old(self).linked(),
    ensures final(self).inv(), //! C21
@@ entry
    broadcast use queue_grows, tasks_grow, task_ends, own_signal, one_ended;
@@ loop 0
    invariant self.linked(), //! C21
@@ fn ClientManager::run
@@ attr #[verifier::exec_allows_no_decreases_clause]
@@ tags C21,C22
    requires self.linked(),
@@ entry
    let ghost s0 = at(self.shutdown);
@@ exit
    assert(__task.owed(s0) == 0); //! C22
    assert(__task.heard(s0)); //! C22
    // those it waits for have their notice before the wait begins
    assert(__task.waited_at(s0, 0)); //! C22
    // no connection is left running
    assert(__self.workers.tasks().len() == 0); //! C22
@@ loop 0
    invariant __task.owed(s0) == 0, __task.heard(s0), __task.waited_at(s0, 0), //! C22
    ensures __self.workers.tasks().len() == 0, //! C22
@@ fn ClientManager::start_processing
@@ tags C21,C22
    requires self.linked(),
@@ fn ClientManager::incomming_mqtt_listener
@@ tags C22
    requires server_notice(*$2),
@@ fn ClientManager::incomming_noise_listener
@@ tags C22
    requires server_notice(*$2),
@@ end
