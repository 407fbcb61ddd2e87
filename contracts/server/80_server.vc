// The server as a whole.
@@ prelude
#[verifier::external_body] pub fn channel<T: Carried>(n: usize) -> (r: (Sender<T>, Receiver<T>)) requires n > 0 { unimplemented!() }
pub uninterp spec fn v_size<T>() -> usize;
pub broadcast axiom fn packet_info_size() ensures #[trigger] v_size::<PacketInfo>() > 0;
#[verifier::external_body] pub fn size_of<T>() -> (r: usize) ensures r == v_size::<T>() { unimplemented!() }
impl<K: Key, V> HashMap<K, V> {
    #[verifier::external_body] pub fn v_keys<'a>(&'a self) -> (r: Vec<&'a K>)
        ensures forall|k: K::KV| #[trigger] self@.contains_key(k) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).kv() == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).kv() != (#[trigger] r@[j]).kv(),
    { unimplemented!() }
}
// what is shared is the same thing to all who share it
impl Clone for TopicsTable { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl HashMap<Arc<str>, Client> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
@@ end
@@ module s_lib
impl MqttServer {
    pub open spec fn inv(&self) -> bool { self.topics.inv() && server_notice(*self.shutdown) }
}
/// the tasks have all ended
pub open spec fn all_joined(t: Seq<int>, ts: Seq<JoinHandle<()>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> t.contains((#[trigger] ts[i]).id()) }
pub open spec fn has_name(v: Seq<Arc<str>>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k }
pub open spec fn named(v: Seq<Arc<str>>, ks: Seq<&Arc<str>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == (*ks[i])@ }
@@ fn MqttServer::new
@@ tags C22
    ensures ret matches Ok(s) ==> s.inv() && s.workers@.len() == 2 + (if $0.mqtt_socketaddr is Some { 1int } else { 0 }) + (if $0.noise_socketaddr is Some { 1int } else { 0 }), //! C22
@@ entry
    broadcast use packet_info_size;
@@ let shutdown
    // a name for it
    proof { assume(server_notice(*shutdown)); }
@@ fn MqttServer::shutdown
@@ tags C22
    requires self.inv(),
@@ entry
    let ghost s0 = at(self.shutdown);
    let ghost w0 = self.workers@;
@@ exit
    // it gives one notice, then waits for every task
    assert(__task.owed(s0) == -1); //! C22
    assert(__task.waited_at(s0, -1)); //! C22
    assert(all_joined(__task.joined, w0)); //! C22
@@ loop 0
    invariant
        __task.owed(s0) == -1, __task.waited_at(s0, -1), //! C22
        __it0@ == w0, 0 <= __i0 <= w0.len(),
        forall|i: int| 0 <= i < __i0 ==> __task.joined.contains((#[trigger] w0[i]).id()), //! C22
    decreases __it0@.len() - __i0,
@@ loop-body 0
    let ghost j0 = __task.joined;
@@ loop-end 0
    proof { assert forall|i: int| 0 <= i < __i0 implies __task.joined.contains((#[trigger] w0[i]).id()) by { if i < __i0 - 1 { let k = choose|k: int| 0 <= k < j0.len() && j0[k] == w0[i].id(); assert(__task.joined[k] == w0[i].id()); } else { assert(__task.joined.last() == w0[i].id()); } } }
@@ fn MqttServer::get_topics
    ensures *ret == self.topics,
@@ fn MqttServer::clients
@@ tags C21
    ensures forall|k: Seq<char>| #[trigger] self.clients@.contains_key(k) <==> has_name(ret@, k), //! C21
        forall|i: int, j: int| 0 <= i < j < ret@.len() ==> (#[trigger] ret@[i])@ != (#[trigger] ret@[j])@, //! C21
@@ loop 0
    invariant
        __i1 <= __it1@.len(), __acc0@.len() == __i1,
        named(__acc0@, __it1@), //! C21
    decreases __it1@.len() - __i1,
@@ loop-after 0
    proof {
        assert forall|k: Seq<char>| #[trigger] self.clients@.contains_key(k) implies has_name(__acc0@, k) by {
            let i = choose|i: int| 0 <= i < __it1@.len() && (#[trigger] __it1@[i]).kv() == k;
            assert(__acc0@[i]@ == k);
        }
        assert forall|k: Seq<char>| #[trigger] has_name(__acc0@, k) implies self.clients@.contains_key(k) by {
            let i = choose|i: int| 0 <= i < __acc0@.len() && (#[trigger] __acc0@[i])@ == k;
            assert(__it1@[i].kv() == k);
        }
    }
@@ fn MqttServer::config
    ensures *ret == *self.cfg,
@@ end
