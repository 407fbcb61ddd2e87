@@ module s_mqttclient
#[verifier::external_body] pub struct OwnedReadHalf { _p: u8 }
#[verifier::external_body] pub struct OwnedWriteHalf { _p: u8 }
impl TcpStream { #[verifier::external_body] pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) { unimplemented!() } }
impl OwnedReadHalf { #[verifier::external_body] pub fn take(self, limit: u64) -> (r: Take<OwnedReadHalf>) ensures r.limit() == limit { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Take<T> { _p: T }
impl<T> Take<T> {
    /// the bytes the peer has yet to send before it closes the stream
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    pub uninterp spec fn limit(&self) -> u64;
    /// reading has failed
    pub uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body] pub fn set_limit(&mut self, n: u64)
        ensures final(self).limit() == n, final(self).rest() == old(self).rest(), final(self).broken() == old(self).broken()
    { unimplemented!() }
    /// reads some bytes, as many as there happen to be; none at the limit or the end
    #[verifier::external_body] pub fn read_buf(&mut self, b: &mut BytesMut) -> (r: Result<usize, IoError>)
        ensures
            r matches Ok(n) ==> n <= old(self).limit() && n <= old(self).rest().len() && final(self).limit() == old(self).limit() - n && final(self).rest() == old(self).rest().skip(n as int)
                && final(b)@ == old(b)@ + old(self).rest().take(n as int) && (n == 0 ==> old(self).limit() == 0 || old(self).rest().len() == 0),
            r is Err ==> final(self).broken() && final(self).rest() == old(self).rest() && final(b)@ == old(b)@,
    { unimplemented!() }
}
impl OwnedWriteHalf {
    /// what has been written, write by write
    pub uninterp spec fn sent(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body] pub fn write_all_buf<B: Buf>(&mut self, b: &mut B) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).sent() == old(self).sent().push(old(b).bv()) && (*final(b)).bv().len() == 0 && final(self).broken() == old(self).broken(), r is Err ==> final(self).broken()
    { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).sent() == old(self).sent().push(b@) && final(self).broken() == old(self).broken(), r is Err ==> final(self).broken()
    { unimplemented!() }
}
impl MqttClient {
    /// what there is to decode: the bytes read and the bytes to come
    pub open spec fn stream(&self) -> Seq<u8> { self.bytes@ + self.tcp_reader.rest() }
    pub open spec fn inv(&self) -> bool { self.bytes@.len() <= self.max_packet_size }
    /// there is nothing more to be had from the stream, and why
    pub open spec fn dry(&self, e: ServerError) -> bool {
        match e {
            ServerError::MaxPacketSizeExceeded => self.stream().len() >= self.max_packet_size && frame(self.stream().take(self.max_packet_size as int)) is More,
            ServerError::Packet(_) => malformed(self.stream()),
            ServerError::Misc(_) => self.tcp_reader.rest().len() == 0 && frame(self.stream()) is More,
            ServerError::Io(_) => self.tcp_reader.broken(),
            _ => false,
        }
    }
    pub open spec fn unread(o: MqttClient, n: MqttClient) -> bool { n.tcp_writer == o.tcp_writer && n.saddr == o.saddr && n.max_packet_size == o.max_packet_size && n.inv() }
}
/// the packet is what the stream starts with
pub proof fn first_of(s: Seq<u8>, r: Seq<u8>, p: Packet)
    requires dec_ok(s, p)
    ensures dec_ok(s + r, p), dec_len::<Packet>(s + r) == dec_len::<Packet>(s), p.carried(), Packet::enc(p.vv()).len() == dec_len::<Packet>(s), 2 <= dec_len::<Packet>(s) <= s.len()
{
    hide(body_parse); hide(pk_enc); hide(pk_inv); hide(pk_fits); hide(pk_same); hide(pk_vv);
    packet_same_sym(p.vv(), Packet::parse(s).unwrap().0);
    packet_len(s);
    packet_same_len(Packet::parse(s).unwrap().0, p.vv());
    frame_prefix(s, r);
}
@@ fn MqttClient::new
@@ tags C19
    ensures ret.inv(), ret.max_packet_size == $2, ret.bytes@ == Seq::<u8>::empty(), //! C19
@@ fn MqttClient::recv
@@ tags C19
@@ attr #[verifier::loop_isolation(false)]
    requires old(self).inv(),
    ensures MqttClient::unread(*old(self), *final(self)), //! C19
        ret matches Ok(p) ==> dec_ok(old(self).stream(), p) && final(self).stream() =~= old(self).stream().skip(dec_len::<Packet>(old(self).stream())) && dec_len::<Packet>(old(self).stream()) <= old(self).max_packet_size && p.carried(), //! C19
        ret matches Err(e) ==> final(self).stream() =~= old(self).stream() && final(self).dry(e), //! C19
@@ entry
    hide(body_parse); hide(pk_enc); hide(pk_inv); hide(pk_fits); hide(pk_same); hide(pk_vv);
    let ghost o = *self;
@@ await
    assert(self.stream() =~= o.stream() && MqttClient::unread(o, *self)); //! C19
@@ loop 0
    invariant self.stream() =~= o.stream(), MqttClient::unread(o, *self),
    decreases self.tcp_reader.rest().len(),
@@ loop-body 0
    let ghost b0 = self.bytes@;
    let ghost r0 = self.tcp_reader.rest();
    proof {
        frame_prefix(b0, r0);
        assert forall|p: Packet| #[trigger] dec_ok(b0, p) implies dec_ok(b0 + r0, p) && dec_len::<Packet>(b0 + r0) == dec_len::<Packet>(b0) && p.carried() && Packet::enc(p.vv()).len() == dec_len::<Packet>(b0) && 2 <= dec_len::<Packet>(b0) <= b0.len() by { first_of(b0, r0, p); }
        assert((b0 + r0).take(b0.len() as int) =~= b0);
    }
@@ fn MqttClient::send
@@ tags C19
    requires $0.inv(), Packet::fits($0.vv()),
    ensures *final(self) == (MqttClient { tcp_writer: final(self).tcp_writer, ..*old(self) }), //! C19
        ret is Ok ==> final(self).tcp_writer.sent() == old(self).tcp_writer.sent().push(Packet::enc($0.vv())), //! C19
        ret is Err ==> final(self).tcp_writer.broken(), //! C19
@@ entry
    broadcast use group_seq;
@@ fn MqttListener::new
@@ tags C22
    ensures ret.shutdown == $2, //! C22
@@ fn MqttListener::listen
@@ tags C18,C22
    requires server_notice(*old(self).shutdown),
    ensures final(self).shutdown == old(self).shutdown,
@@ fn MqttListener::listen_forever
@@ attr #[verifier::exec_allows_no_decreases_clause]
@@ tags C22
    requires server_notice(*old(self).shutdown),
@@ loop 0
    invariant server_notice(*self.shutdown),
@@ fn MqttListener::run
@@ tags C22
    requires server_notice(*self.shutdown),
@@ entry
    let ghost s0 = at(self.shutdown);
@@ exit
    assert(__task.owed(s0) == 0); //! C22
    assert(__task.listened(s0)); //! C22
@@ fn mqttclient::connect_client
@@ tags C18,C22
    requires $0.fresh(), server_notice(*$3),
@@ members mqttclient::From<Result<(),ServerError>> for ConnectState
    open spec fn of(v: Result<(), ServerError>) -> Self { match v { Ok(_) => ConnectState::Success, Err(e) => ConnectState::Err(e) } }
@@ fn mqttclient::From<Result<(),ServerError>> for ConnectState::from
@@ fn mqttclient::_connect_client
@@ tags C18,C22
    requires $0.fresh(), server_notice(*$3),
@@ entry
    let ghost s0 = at($3);
@@ exit
    assert(__task.owed(s0) == 0); //! C22
    assert(__task.listened(s0)); //! C22
@@ end
