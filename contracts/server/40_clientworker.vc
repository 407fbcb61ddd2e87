@@ module s_clientworker
impl Connection {
    pub open spec fn inv(&self) -> bool { self matches Connection::Mqtt(c) ==> c.inv() }
    /// nothing was written, and it is the same connection
    pub open spec fn silent(o: Connection, n: Connection) -> bool {
        match (o, n) { (Connection::Mqtt(a), Connection::Mqtt(b)) => MqttClient::unread(a, b), (Connection::Noise(a), Connection::Noise(b)) => NoiseClient::unread(*a, *b), _ => false }
    }
    /// the next packet was taken
    pub open spec fn got(o: Connection, n: Connection, p: Packet) -> bool {
        match (o, n) { (Connection::Mqtt(a), Connection::Mqtt(b)) => dec_ok(a.stream(), p) && b.stream() =~= a.stream().skip(dec_len::<Packet>(a.stream())), (Connection::Noise(a), Connection::Noise(b)) => NoiseClient::got(*a, *b, p), _ => false }
    }
    pub open spec fn dry(o: Connection, n: Connection, e: ServerError) -> bool {
        match (o, n) { (Connection::Mqtt(a), Connection::Mqtt(b)) => b.stream() =~= a.stream() && b.dry(e), (Connection::Noise(a), Connection::Noise(b)) => NoiseClient::dry(*a, *b, e), _ => false }
    }
    /// the packet, and nothing else, was written
    pub open spec fn wrote(o: Connection, n: Connection, p: Packet) -> bool {
        match (o, n) {
            (Connection::Mqtt(a), Connection::Mqtt(b)) => b == (MqttClient { tcp_writer: b.tcp_writer, ..a }) && b.tcp_writer.sent() == a.tcp_writer.sent().push(Packet::enc(p.vv())),
            (Connection::Noise(a), Connection::Noise(b)) => NoiseClient::wrote(*a, *b, Packet::enc(p.vv())),
            _ => false,
        }
    }
    /// writing failed
    pub open spec fn failed(o: Connection, n: Connection, p: Packet) -> bool {
        match (o, n) {
            (Connection::Mqtt(a), Connection::Mqtt(b)) => b.tcp_writer.broken() && b == (MqttClient { tcp_writer: b.tcp_writer, ..a }),
            (Connection::Noise(a), Connection::Noise(b)) => b.stream.broken() || a.crypto.spent() || Packet::enc(p.vv()).len() > 65519,
            _ => false,
        }
    }
    /// the last packet written
    pub open spec fn said(&self, p: Packet) -> bool {
        match self {
            Connection::Mqtt(a) => a.tcp_writer.sent().len() > 0 && a.tcp_writer.sent().last() == Packet::enc(p.vv()),
            Connection::Noise(a) => a.crypto.sealed().len() > 0 && a.said() == Packet::enc(p.vv()),
        }
    }
}
@@ fn Connection::recv
@@ tags C19
    requires old(self).inv(),
    ensures Connection::silent(*old(self), *final(self)), final(self).inv(), //! C19
        ret matches Ok(p) ==> Connection::got(*old(self), *final(self), p) && p.carried(), //! C19
        ret matches Err(e) ==> Connection::dry(*old(self), *final(self), e), //! C19
@@ fn Connection::send
@@ tags C19
    requires $0.carried(), old(self).inv(),
    ensures final(self).inv(), *final(self) is Noise == *old(self) is Noise, //! C19
        ret is Ok ==> Connection::wrote(*old(self), *final(self), *$0), //! C19
        ret is Err ==> Connection::failed(*old(self), *final(self), *$0), //! C19
@@ fn Connection::is_encrypted
@@ tags C15
    ensures ret == self is Noise, //! C15
@@ module s_clientworker
/// a CONNECT the server does not serve
pub open spec fn refusable(v: ConnectV) -> bool {
    v.user is Some || v.pass is Some || v.will is Some || v.flags & 2 == 0
    || to_map(v.props).contains_key(Property::AuthenticationMethod) || to_map(v.props).contains_key(Property::AuthenticationData)
}
pub open spec fn ask32(m: PMap, k: Property, d: u32) -> u32 { if m.contains_key(k) { m[k][0]->FourBytesInt_0 } else { d } }
pub open spec fn ask16(m: PMap, k: Property, d: u16) -> u16 { if m.contains_key(k) { m[k][0]->TwoBytesInt_0 } else { d } }
pub open spec fn ask_bool(m: PMap, k: Property, d: bool) -> bool { if m.contains_key(k) { m[k][0]->Bool_0 == 1 } else { d } }
pub open spec fn min32(a: u32, b: u32) -> u32 { if a < b { a } else { b } }
/// the limits of the client, as its CONNECT asks for them
pub open spec fn limits(n: Client, max: u32, m: PMap) -> bool {
    n.session_expirary == ask32(m, Property::SessionExpiryInterval, 0)
    && n.recv_max == ask16(m, Property::ReceiveMaximum, 0xffff)
    && n.max_packet_size == min32(max, ask32(m, Property::MaximumPacketSize, max))
    && n.topic_alias_max == ask16(m, Property::TopicAliasMaximum, 0)
    && n.response_info == ask_bool(m, Property::RequestResponseInformation, false)
    && n.problem_info == ask_bool(m, Property::RequestProblemInformation, true)
}
/// what a CONNACK that admits the client says
pub open spec fn terms(n: Client, keep_alive: u16, v: ConnectV) -> PMap {
    let m = Map::<Property, Seq<PV>>::empty()
        .insert(Property::SessionExpiryInterval, seq![PV::FourBytesInt(n.session_expirary)])
        .insert(Property::ReceiveMaximum, seq![PV::TwoBytesInt(n.recv_max)])
        .insert(Property::MaximumQoS, seq![PV::Byte(0)])
        .insert(Property::TopicAliasMaximum, seq![PV::TwoBytesInt(0)])
        .insert(Property::WildcardSubscriptionAvailable, seq![PV::Bool(0)])
        .insert(Property::SubscriptionIdentifierAvailable, seq![PV::Bool(0)])
        .insert(Property::SharedSubscriptionAvailable, seq![PV::Bool(0)])
        .insert(Property::ServerKeepAlive, seq![PV::TwoBytesInt(keep_alive)]);
    if v.id.len() == 0 { m.insert(Property::AssignedClientIdentifier, seq![PV::String(n.clientid@)]) } else { m }
}
/// the CONNECT `v` was served, with the answer `q`
pub open spec fn served(n: Client, cfg: MqttServerConfig, v: ConnectV, q: Packet) -> bool {
    &&& !refusable(v)
    &&& limits(n, cfg.max_packet_size, to_map(v.props))
    &&& (v.id.len() > 0 ==> n.clientid@ == v.id)
    &&& (v.id.len() == 0 ==> n.clientid@.len() > 0)
    &&& (q matches Packet::ConnAck(c) && c.vv().flags == 0 && c.vv().rc == ConnAckReasonCode::Success && c.props.pmap() =~= terms(n, cfg.keep_alive, v))
}
/// a CONNACK that says implementation specific error, and nothing else
pub open spec fn is_unserved(q: Packet) -> bool {
    q matches Packet::ConnAck(c) && c.vv().flags == 0 && c.vv().rc == ConnAckReasonCode::ImplementationSpecificError && c.props.pmap() == Map::<Property, Seq<PV>>::empty()
}
/// the request was turned down: that was the answer, unless none could be given
pub open spec fn unserved(o: Connection, n: Connection) -> bool {
    exists|q: Packet| #![trigger Connection::wrote(o, n, q)] #![trigger Connection::failed(o, n, q)] is_unserved(q) && (Connection::wrote(o, n, q) || Connection::failed(o, n, q))
}
/// what a CONNECT comes to
pub open spec fn outcome(o: Connection, n: ClientWorker, v: ConnectV, ok: bool) -> bool {
    if refusable(v) { !ok && unserved(o, n.conn) }
    else { exists|q: Packet| #![trigger Connection::wrote(o, n.conn, q)] #![trigger Connection::failed(o, n.conn, q)] served(n.internals, *n.cfg, v, q) && (if ok { Connection::wrote(o, n.conn, q) } else { Connection::failed(o, n.conn, q) }) }
}
/// what the first packet comes to
pub open spec fn opening(o: Connection, mid: Connection, n: ClientWorker, p: Packet, r: Result<(), ServerError>) -> bool {
    Connection::silent(o, mid) && Connection::got(o, mid, p) && (match p { Packet::Connect(c) => outcome(mid, n, c.vv(), r is Ok), _ => n.conn == mid && r == Err::<(), ServerError>(ServerError::FirstPacketNotConnect) })
}
/// a CONNACK of this size fits into a frame
pub broadcast proof fn connack_fits(c: ConnAck)
    requires c.inv(), c.props.size <= 0x1000000
    ensures #[trigger] ConnAck::fits(c.vv())
{ c.props.facts(); vbi_enc_len(esum(c.vv().props) as nat); }
/// what stays the same about a client
pub open spec fn same_client(o: Client, n: Client) -> bool { n.encrypted == o.encrypted && n.shutdown == o.shutdown && n.killme == o.killme && n.outgoing == o.outgoing }
impl ClientWorker {
    pub open spec fn inv(&self) -> bool { self.conn.inv() && server_notice(*self.internals.shutdown) && self.internals.encrypted == self.conn is Noise }
    pub open spec fn fresh(&self) -> bool {
        let i = self.internals;
        self.inv() && i.session_expirary == 0 && i.recv_max == 0xffff && i.max_packet_size == self.cfg.max_packet_size && i.topic_alias_max == 0 && !i.response_info && i.problem_info
    }
    pub open spec fn kept(o: ClientWorker, n: ClientWorker) -> bool { n == (ClientWorker { conn: n.conn, internals: n.internals, ..o }) && n.inv() && same_client(o.internals, n.internals) }
    /// it is the connection of a client that has been admitted
    pub open spec fn admitted(&self) -> bool { self.inv() && exists|v: ConnectV, q: Packet| #[trigger] served(self.internals, *self.cfg, v, q) && self.conn.said(q) }
    /// one packet came in, and went on
    pub open spec fn heard(o: ClientWorker, n: ClientWorker) -> bool {
        let i = n.incoming.sent().last();
        n == (ClientWorker { conn: n.conn, incoming: n.incoming, ..o }) && n.incoming.sent() == o.incoming.sent().push(i)
        && i.senderid == o.internals.clientid && i.encrypted == (o.conn is Noise) && Connection::silent(o.conn, n.conn) && Connection::got(o.conn, n.conn, i.packet)
    }
    /// one packet went out
    pub open spec fn told(o: ClientWorker, n: ClientWorker) -> bool {
        let p = n.outgoing.taken().last();
        n == (ClientWorker { conn: n.conn, outgoing: n.outgoing, ..o }) && n.outgoing.taken() == o.outgoing.taken().push(p) && Connection::wrote(o.conn, n.conn, p)
    }
}
/// the signal to end a connection is made with its worker
impl Carried for ClientWorker { open spec fn carried(&self) -> bool { self.admitted() } open spec fn apart(&self, o: Self) -> bool { self.internals.killme != o.internals.killme } }
@@ fn ClientWorker::listen
@@ tags C19
    requires old(self).inv(),
    ensures final(self).inv(), final(self).internals == old(self).internals, //! C15,C19
        ret is Ok ==> ClientWorker::heard(*old(self), *final(self)) || ClientWorker::told(*old(self), *final(self)), //! C15,C19
@@ fn ClientWorker::listen_forever
@@ attr #[verifier::exec_allows_no_decreases_clause]
@@ tags C19
    requires old(self).inv(),
    ensures final(self).inv(), final(self).internals == old(self).internals, //! C19,C21
@@ loop 0
    invariant self.inv(), self.internals == old(self).internals,
@@ fn ClientWorker::run
@@ tags C21,C22
    requires self.inv(),
    ensures ret == self.internals, //! C21
@@ entry
    let ghost s0 = at(self.internals.shutdown);
    let ghost k0 = at(self.internals.killme);
@@ exit
    assert(k0 != s0 ==> __task.owed(s0) == 0); //! C22
    assert(__task.listened(s0)); //! C22
    assert(__task.listened(k0)); //! C21
@@ fn ClientWorker::internals
@@ tags C21
    ensures *ret == self.internals, //! C21
@@ fn ClientWorker::cfg
@@ tags C18
    ensures ret == self.cfg,
@@ fn ClientWorker::new
@@ tags C15,C18
    requires $0.inv(), server_notice(*$2),
    ensures ret.fresh(), ret.conn == $0, ret.cfg == $1, ret.internals.shutdown == $2, //! C15,C18,C22
@@ fn ClientWorker::unimplemented
@@ tags C18
    requires old(self).inv(),
    ensures ClientWorker::kept(*old(self), *final(self)), final(self).internals == old(self).internals, unserved(old(self).conn, final(self).conn), ret is Err, //! C18
@@ entry
    broadcast use connack_fits;
@@ fn ClientWorker::process_connect
@@ tags C18
@@ attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(100)]
    requires old(self).fresh(), $0.inv(),
    ensures
        ClientWorker::kept(*old(self), *final(self)), //! C18
        outcome(old(self).conn, *final(self), $0.vv(), ret is Ok), //! C18
@@ entry
    broadcast use connack_fits, arc_of_string;
    let ghost es = $0.vv().props;
    let ghost m = to_map(es);
    let ghost v0 = $0.vv();
    proof { let f = v0.flags; assert(2u8 & 2 == 2 && (f & 2 == 2 <==> f & 2 != 0)) by (bit_vector); }
    proof { $0.props.facts(); map_empty(); assert(es.take(0) =~= seq![]); assert(es.take(es.len() as int) =~= es); }
@@ loop 0
    invariant __i0 <= __it0@.len(), ivals(__it0@) == es, self.conn == old(self).conn, ClientWorker::kept(*old(self), *self),
        limits(self.internals, self.cfg.max_packet_size, to_map(es.take(__i0 as int))),
        forall|j: int| 0 <= j < __i0 ==> (#[trigger] es[j]).0 != Property::AuthenticationMethod && es[j].0 != Property::AuthenticationData,
    decreases __it0@.len() - __i0
@@ loop-body 0
    proof {
        let i = __i0 as int;
        assert(es[i] == (*__it0@[i].0, __it0@[i].1.vv()));
        ent_in_map(es, i);
        if !multi(es[i].0) { once(es, i); }
        assert(es.take(i + 1).drop_last() =~= es.take(i));
        assert(es.take(i + 1).last() == es[i]);
    }
@@ loop-after 0
    proof { absent(es, Property::AuthenticationMethod); absent(es, Property::AuthenticationData); }
@@ fn ClientWorker::connect
@@ tags C18
    requires old(self).fresh(),
    ensures ClientWorker::kept(*old(self), *final(self)), //! C18
        ret is Ok ==> final(self).admitted(), //! C18
        (exists|mid: Connection, p: Packet| #![trigger Connection::got(old(self).conn, mid, p)] opening(old(self).conn, mid, *final(self), p, ret)) || (ret matches Err(e) && Connection::silent(old(self).conn, final(self).conn) && Connection::dry(old(self).conn, final(self).conn, e)), //! C18
@@ entry
    hide(body_parse); hide(pk_enc); hide(pk_fits); hide(pk_same); hide(pk_vv);
@@ end
