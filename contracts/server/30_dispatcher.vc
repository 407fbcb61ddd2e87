@@ module s_dispatcher
pub type Reg = Map<Seq<char>, Client>;
/// the properties of a PUBLISH the server does not handle
pub open spec fn refusing(k: Property) -> bool { k == Property::MessageExpiryInterval || k == Property::TopicAlias || k == Property::SubscriptionIdentifier }
pub open spec fn supported(v: PublishV) -> bool { v.flags & 15 == 0 && forall|k: Property| #[trigger] to_map(v.props).contains_key(k) ==> !refusing(k) }
/// what is delivered of the message `v`
pub open spec fn copy_of(v: PublishV, q: Packet) -> bool {
    q.inv() && (q matches Packet::Publish(p) && p.vv().flags == 0 && p.vv().topic == v.topic && p.vv().id is None && p.vv().payload == v.payload && Properties::same(p.vv().props, v.props))
}
/// a DISCONNECT that says implementation specific error, and nothing else
pub open spec fn is_refusal(q: Packet) -> bool {
    q.inv() && (q matches Packet::Disconnect(d) && d.vv().rc == DisconnectReasonCode::ImplementationSpecificError && d.props.pmap() == Map::<Property, Seq<PV>>::empty())
}
/// only the client `c` got something, if it is registered, and that is one of the packets `qs`
pub open spec fn told(a: Reg, b: Reg, c: Seq<char>, qs: spec_fn(Packet) -> bool) -> bool {
    b.dom() =~= a.dom() && (forall|x: Seq<char>| #[trigger] a.contains_key(x) && x != c ==> b[x] == a[x])
    && (a.contains_key(c) ==> exists|q: Packet| qs(q) && #[trigger] pushed(a[c], q, b[c]))
}
/// the packet was refused: its sender alone was told, and no subscription changed
pub open spec fn refused(o: Dispatcher, n: Dispatcher, c: Seq<char>) -> bool {
    n.topics == o.topics && n.cfg == o.cfg && n.incoming == o.incoming && told(o.clients@, n.clients@, c, |q: Packet| is_refusal(q))
}
/// the publish may not reach the client `c` for reasons of encryption
pub open spec fn barred(o: Dispatcher, encrypted: bool, c: Seq<char>) -> bool { encrypted && o.cfg.channel_permeability == Permeability::Strict && !o.clients@[c].encrypted }
/// what the message on topic `t` from the client `from` did to the client `c`: the state `a` of it became `b`
pub open spec fn reached(tt: TopicsTable, t: Seq<char>, from: Seq<char>, q: Packet, c: Seq<char>, a: Client, b: Client) -> bool {
    if !matching(tt, t, c) { b == a }
    else if c != from { pushed(a, q, b) }
    else { exists|i: SubscriptionInfo| #[trigger] one_of(tt, t, c, i) && (if i.flags.bits & 1 != 0 { b == a } else { pushed(a, q, b) }) }
}
/// delivery of the message `v` from the client `f`, to everyone whom no matter of encryption keeps from it
pub open spec fn delivers(o: Dispatcher, n: Dispatcher, f: Seq<char>, encrypted: bool, v: PublishV) -> bool {
    if !o.clients@.contains_key(f) { n == o } else {
        supported(v) ==> n.topics == o.topics && n.clients@.dom() =~= o.clients@.dom() && exists|q: Packet| #[trigger] copy_of(v, q) && forall|c: Seq<char>| #[trigger] o.clients@.contains_key(c) && !barred(o, encrypted, c)
            ==> reached(o.topics, v.topic, f, q, c, o.clients@[c], n.clients@[c])
    }
}
/// who is barred gets nothing, and only those are kept from it
pub open spec fn confines(o: Dispatcher, n: Dispatcher, f: Seq<char>, encrypted: bool, v: PublishV) -> bool {
    o.clients@.contains_key(f) && supported(v) ==> {
        &&& forall|c: Seq<char>| #[trigger] o.clients@.contains_key(c) && barred(o, encrypted, c) ==> n.clients@[c] == o.clients@[c]
        &&& forall|c: Seq<char>| #[trigger] o.clients@.contains_key(c) && !barred(o, encrypted, c) && c != f && matching(o.topics, v.topic, c) && o.clients@[c].outgoing.open()
                ==> n.clients@[c].outgoing.sent().len() > o.clients@[c].outgoing.sent().len()
    }
}
/// a packet the server does not support
pub open spec fn foreign(o: Dispatcher, f: Seq<char>, p: Packet) -> bool {
    match p {
        Packet::Publish(x) => o.clients@.contains_key(f) && !supported(x.vv()),
        Packet::Subscribe(x) => to_map(x.vv().props).contains_key(Property::SubscriptionIdentifier),
        _ => true,
    }
}
pub open spec fn survives(o: Dispatcher, n: Dispatcher, f: Seq<char>, p: Packet) -> bool {
    n.inv() && n.cfg == o.cfg && n.incoming == o.incoming && (foreign(o, f, p) ==> refused(o, n, f))
}
/// the answer to a SUBSCRIBE, and the subscriptions after it
pub open spec fn subscribes(o: Dispatcher, n: Dispatcher, f: Seq<char>, v: SubV) -> bool {
    if to_map(v.props).contains_key(Property::SubscriptionIdentifier) { refused(o, n, f) } else {
        told(o.clients@, n.clients@, f, |q: Packet| suback_of_sub(q, v))
        && forall|t: Seq<char>| #![trigger n.topics.held(t)] tfilter(t) ==> n.topics.held(t) == granted(o.topics.held(t), f, v.topics, t, v.topics.len() as int)
    }
}
pub open spec fn grantable(o: u8) -> bool { o & 3 == 0 && o & 0x30 == 0x20 }
pub open spec fn sub_info(o: u8) -> SubscriptionInfo { SubscriptionInfo { qos: QoS::QoS0, flags: SubscriptionFlags { bits: ((o & 4) >> 2) | ((o & 8) >> 2) } } }
pub open spec fn answer(o: u8) -> SubAckReasonCode { if grantable(o) { SubAckReasonCode::GrantedQoS0 } else { SubAckReasonCode::ImplementationSpecificError } }
/// who holds the filter `f` after the first `n` requests of the client
pub open spec fn granted(h: Holders, c: Seq<char>, ts: Seq<SubT>, f: Seq<char>, n: int) -> Holders decreases n {
    if n <= 0 { h } else {
        let p = granted(h, c, ts, f, n - 1);
        if ts[n - 1].0 == f && grantable(ts[n - 1].1) { p.insert(c, sub_info(ts[n - 1].1)) } else { p }
    }
}
/// one reason code per request, in order
pub open spec fn suback_of_sub(q: Packet, v: SubV) -> bool {
    q.inv() && (q matches Packet::SubAck(a) && a.vv().id == v.id && a.props.pmap() == Map::<Property, Seq<PV>>::empty() && a.vv().rcs =~= Seq::new(v.topics.len(), |i: int| answer(v.topics[i].1)))
}
pub proof fn flag_bits(f: u8, o: u8)
    ensures (f & 15 == 0) == (f & 6 == 0 && f & 9 == 0), 8u8 | 1 == 9, o & 4 == 0 || o & 4 == 4, o & 8 == 0 || o & 8 == 8,
        (0u8 | 1) | 2 == 3, 0u8 | 1 == 1, 0u8 | 2 == 2, 4u8 >> 2 == 1, 8u8 >> 2 == 2, 0u8 >> 2 == 0, 0u8 | 0 == 0, 1u8 | 0 == 1, 1u8 | 2 == 3,
        (f & 1 == 1) == (f & 1 != 0), 0u8 & !1 == 0, 0u8 & !2 == 0, 1u8 & !2 == 1, 2u8 & !1 == 2, 2u8 | 1 == 3,
{
    assert(0u8 & !1 == 0 && 0u8 & !2 == 0 && 1u8 & !2 == 1 && 2u8 & !1 == 2 && 2u8 | 1 == 3) by (bit_vector);
    assert((f & 15 == 0) == (f & 6 == 0 && f & 9 == 0)) by (bit_vector);
    assert(8u8 | 1 == 9 && (0u8 | 1) | 2 == 3 && 0u8 | 1 == 1 && 0u8 | 2 == 2 && 4u8 >> 2 == 1 && 8u8 >> 2 == 2 && 0u8 >> 2 == 0 && 0u8 | 0 == 0 && 1u8 | 0 == 1 && 1u8 | 2 == 3) by (bit_vector);
    assert((o & 4 == 0 || o & 4 == 4) && (o & 8 == 0 || o & 8 == 8)) by (bit_vector);
    assert((f & 1 == 1) == (f & 1 != 0)) by (bit_vector);
}
pub proof fn keyed_step<K: Key, V>(r: Seq<(K, V)>, i: int)
    requires 0 <= i < r.len()
    ensures forall|c: K::KV| #[trigger] keyed(r.take(i + 1), c) <==> keyed(r.take(i), c) || r[i].0.kv() == c
{
    assert forall|c: K::KV| #[trigger] keyed(r.take(i + 1), c) <==> keyed(r.take(i), c) || r[i].0.kv() == c by {
        if keyed(r.take(i), c) { let j = choose|j: int| 0 <= j < i && (#[trigger] r.take(i)[j]).0.kv() == c; assert(r.take(i + 1)[j].0.kv() == c); }
        if r[i].0.kv() == c { assert(r.take(i + 1)[i].0.kv() == c); }
        if keyed(r.take(i + 1), c) { let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] r.take(i + 1)[j]).0.kv() == c; if j < i { assert(r.take(i)[j].0.kv() == c); } }
    }
}
@@ fn Dispatcher::new
@@ tags C16
    ensures ret.topics == $0, ret.cfg == $1, ret.clients == $3, ret.incoming == $4,
        ret.shutdown == $2, //! C22
@@ members Dispatcher
    pub open spec fn inv(&self) -> bool { self.topics.inv() }
@@ fn Dispatcher::unimplemented
@@ tags C16
    ensures refused(*old(self), *final(self), $0@), ret is Err,
@@ let disconnect
    proof { disconnect->Disconnect_0.props.facts(); no_ents(disconnect->Disconnect_0.props.vv()); }
@@ tail
    proof {
        assert(old(self).clients@.contains_key($0@) ==> self.clients@[$0@].outgoing.open() == old(self).clients@[$0@].outgoing.open());
        assert(old(self).clients@.contains_key($0@) ==> exists|q: Packet| is_refusal(q) && #[trigger] pushed(old(self).clients@[$0@], q, self.clients@[$0@]));
    }
@@ fn Dispatcher::process_publish
@@ attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@@ tags C14,C16
    requires old(self).inv(), $2.inv(), Publish::fits($2.vv()),
    ensures
        delivers(*old(self), *final(self), $0@, $1, $2.vv()), //! C14
        confines(*old(self), *final(self), $0@, $1, $2.vv()), //! C15
        survives(*old(self), *final(self), $0@, Packet::Publish($2)), foreign(*old(self), $0@, Packet::Publish($2)) ==> ret is Err, //! C16
@@ entry
    let ghost es = $2.vv().props;
    let ghost t0 = $2.vv().topic;
    proof {
        flag_bits($2.flags.bits, 0); pf_bits($2.flags.bits); $2.props.facts(); map_empty(); assert(es.take(0) =~= seq![]);
        assert(es.take(es.len() as int) =~= es);
        if t0.contains('#') { let i = choose|i: int| 0 <= i < t0.len() && t0[i] == '#'; assert(wild_c(t0[i])); }
    }
@@ loop 0
    invariant __i0 <= __it0@.len(), ivals(__it0@) == es, *self == *old(self),
        response.inv(), response.flags.bits == 0, response.topic_name.vv() == t0, response.packet_identifier is None, response.payload@ == $2.vv().payload,
        response.props.pmap() == to_map(es.take(__i0 as int)),
        forall|j: int| 0 <= j < __i0 ==> !refusing((#[trigger] es[j]).0),
    decreases __it0@.len() - __i0
@@ loop-body 0
    proof {
        let i = __i0 as int;
        assert(es[i] == (*__it0@[i].0, __it0@[i].1.vv()));
        ent_in_map(es, i);
        if !multi(es[i].0) { once(es, i); }
        map_put(es.take(i), es[i]);
        assert(es.take(i).push(es[i]) =~= es.take(i + 1));
        grow(es, i, es[i].0);
        esum_msum(es.take(i));
    }
@@ loop-after 0
    proof { absent(es, Property::MessageExpiryInterval); absent(es, Property::TopicAlias); absent(es, Property::SubscriptionIdentifier); response.props.facts(); copy_fits($2.vv(), response.vv()); }
@@ loop 1
    invariant __i1 <= __it1@.len(),
        self.topics == old(self).topics, self.cfg == old(self).cfg, self.incoming == old(self).incoming, self.clients@.dom() =~= old(self).clients@.dom(),
        forall|c: Seq<char>| #[trigger] old(self).clients@.contains_key(c) && !barred(*old(self), $1, c) ==>
            (if keyed(__it1@.take(__i1 as int), c) { reached(old(self).topics, t0, $0@, resp, c, old(self).clients@[c], self.clients@[c]) } else { self.clients@[c] == old(self).clients@[c] }), //! C14
        forall|c: Seq<char>| #[trigger] old(self).clients@.contains_key(c) && barred(*old(self), $1, c) ==> self.clients@[c] == old(self).clients@[c], //! C15
    decreases __it1@.len() - __i1
@@ loop-body 1
    proof {
        let i = __i1 as int;
        keyed_step(__it1@, i);
        flag_bits(__it1@[i].1.flags.bits, 0);
        if keyed(__it1@.take(i), __it1@[i].0.kv()) { let j = choose|j: int| 0 <= j < i && (#[trigger] __it1@.take(i)[j]).0.kv() == __it1@[i].0.kv(); assert(__it1@[j].0.kv() == __it1@[i].0.kv()); }
    }
@@ loop-after 1
    proof { assert(__it1@.take(__it1@.len() as int) =~= __it1@); assert(copy_of($2.vv(), resp)); }
@@ fn Dispatcher::process_subscribe
@@ attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@@ tags C16,C17
    requires old(self).inv(), $1.inv(), Subscribe::fits($1.vv()),
    ensures
        subscribes(*old(self), *final(self), $0@, $1.vv()), //! C17
        survives(*old(self), *final(self), $0@, Packet::Subscribe($1)), foreign(*old(self), $0@, Packet::Subscribe($1)) <==> ret is Err, //! C16
@@ entry
    let ghost es = $1.vv().props;
    let ghost ts = $1.vv().topics;
    proof { $1.props.facts(); map_empty(); }
@@ tail
    proof {
        assert(old(self).clients@.contains_key($0@) ==> self.clients@[$0@].outgoing.open() == old(self).clients@[$0@].outgoing.open());
        assert(old(self).clients@.contains_key($0@) ==> exists|q: Packet| suback_of_sub(q, $1.vv()) && #[trigger] pushed(old(self).clients@[$0@], q, self.clients@[$0@]));
    }
@@ loop 0
    invariant __i0 <= __it0@.len(), ivals(__it0@) == es, *self == *old(self),
        forall|j: int| 0 <= j < __i0 ==> (#[trigger] es[j]).0 != Property::SubscriptionIdentifier,
    decreases __it0@.len() - __i0
@@ loop-body 0
    proof { assert(es[__i0 as int] == (*__it0@[__i0 as int].0, __it0@[__i0 as int].1.vv())); ent_in_map(es, __i0 as int); }
@@ loop-after 0
    proof { absent(es, Property::SubscriptionIdentifier); subs_count(ts); }
@@ loop-after 1
    proof { suback.props.facts(); no_ents(suback.props.vv()); }
@@ loop 1
    invariant __i1 <= __it1@.len(), __it1@.len() == ts.len(), self.topics.inv(), self.clients == old(self).clients, self.cfg == old(self).cfg, self.incoming == old(self).incoming,
        suback.inv(), suback.packet_identifier.vv() == $1.vv().id, suback.props.pmap() == Map::<Property, Seq<PV>>::empty(),
        suback.reason_codes@ =~= Seq::new(__i1 as nat, |i: int| answer(ts[i].1)),
        forall|f: Seq<char>| #![trigger self.topics.held(f)] tfilter(f) ==> self.topics.held(f) == granted(old(self).topics.held(f), $0@, ts, f, __i1 as int),
    decreases __it1@.len() - __i1
@@ loop-body 1
    proof { let o = ts[__i1 as int].1; flag_bits(0, o); so_bits(o); topic_ok_filter(ts[__i1 as int].0); assert(sub_ok(ts[__i1 as int])); }
@@ fn Dispatcher::process_packet
@@ tags C14,C15,C16,C17
    requires old(self).inv(), $2.carried(),
    ensures survives(*old(self), *final(self), $0@, $2), //! C16
        $2 matches Packet::Publish(p) ==> delivers(*old(self), *final(self), $0@, $1, p.vv()), //! C14
        $2 matches Packet::Publish(p) ==> confines(*old(self), *final(self), $0@, $1, p.vv()), //! C15
        $2 matches Packet::Subscribe(p) ==> subscribes(*old(self), *final(self), $0@, p.vv()), //! C17
@@ fn Dispatcher::run
@@ tags C22
    requires self.inv(), server_notice(*self.shutdown),
@@ entry
    let ghost s0 = at(self.shutdown);
@@ exit
    assert(__task.owed(s0) == 0); //! C22
    assert(__task.listened(s0)); //! C22
@@ fn Dispatcher::spawn
@@ tags C22
    requires self.inv(), server_notice(*self.shutdown),
@@ fn Dispatcher::process_forever
@@ attr #[verifier::exec_allows_no_decreases_clause]
@@ tags C16
    requires self.inv(),
    // it comes to an end only when every sender has gone
    ensures self.incoming.ends(), //! C16
@@ entry
    // the packet that has been received but not dealt with
    let ghost mut todo: Option<(Dispatcher, PacketInfo)> = None;
    let ghost inc0 = self.incoming;
@@ loop 0
    invariant_except_break
        todo is None, //! C14,C15,C16,C17
    invariant
        __self.inv(), __self.incoming.ends() == inc0.ends(),
    ensures inc0.ends(), //! C16
@@ let packetinfo
    proof { todo = Some((__self, packetinfo)); }
@@ loop-end 0
    proof {
        let (o, i) = todo.unwrap();
        assert(survives(o, __self, i.senderid@, i.packet)); //! C16
        assert(i.packet matches Packet::Publish(p) ==> delivers(o, __self, i.senderid@, i.encrypted, p.vv())); //! C14
        assert(i.packet matches Packet::Publish(p) ==> confines(o, __self, i.senderid@, i.encrypted, p.vv())); //! C15
        assert(i.packet matches Packet::Subscribe(p) ==> subscribes(o, __self, i.senderid@, p.vv())); //! C17
        todo = None;
    }
@@ end
