// Encrypted connections.
@@ prelude
#[verifier::external_body] pub struct LengthDelimitedCodec { _p: u8 }
impl LengthDelimitedCodec { #[verifier::external_body] pub fn new() -> LengthDelimitedCodec { unimplemented!() } }
/// a connection that is cut into frames
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(C)]
pub struct Framed<S, C> { _p: std::marker::PhantomData<(S, C)> }
impl<S, C> Framed<S, C> {
    /// the frames the peer has yet to send before it closes the stream
    pub uninterp spec fn rest(&self) -> Seq<Seq<u8>>;
    /// what has been sent, frame by frame
    pub uninterp spec fn sent(&self) -> Seq<Seq<u8>>;
    /// reading or writing has failed
    pub uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body] pub fn new(s: S, c: C) -> (r: Self) ensures r.sent() == Seq::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<BytesMut, IoError>>)
        ensures
            final(self).sent() == old(self).sent(),
            r is None ==> old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            r matches Some(Ok(f)) ==> old(self).rest().len() > 0 && f@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) && final(self).broken() == old(self).broken(),
            r matches Some(Err(e)) ==> final(self).broken() && final(self).rest() == old(self).rest(),
    { unimplemented!() }
    #[verifier::external_body] pub fn send(&mut self, b: Bytes) -> (r: Result<(), IoError>)
        ensures
            final(self).rest() == old(self).rest(),
            r is Ok ==> final(self).sent() == old(self).sent().push(b@) && final(self).broken() == old(self).broken(),
            r is Err ==> final(self).broken(),
    { unimplemented!() }
}
/// what a message can be written into
pub trait MsgBuf { spec fn room(&self) -> Seq<u8>; }
impl MsgBuf for Vec<u8> { open spec fn room(&self) -> Seq<u8> { self@ } }
impl MsgBuf for [u8] { open spec fn room(&self) -> Seq<u8> { self@ } }
impl<const N: usize> MsgBuf for [u8; N] { open spec fn room(&self) -> Seq<u8> { self@ } }
/// a session: what opens and what is sealed depends on all that was opened and sealed before
#[verifier::external_body] pub struct TransportState { _p: u8 }
impl TransportState {
    /// the content of the next frame to arrive, if it is authentic
    pub uninterp spec fn opens(&self, frame: Seq<u8>) -> Option<Seq<u8>>;
    /// the messages sealed, and the frames they were sealed in
    pub uninterp spec fn sealed(&self) -> Seq<(Seq<u8>, Seq<u8>)>;
    /// the session has run out of nonces
    pub uninterp spec fn spent(&self) -> bool;
    #[verifier::external_body] pub fn read_message<M: MsgBuf + ?Sized>(&mut self, f: &[u8], m: &mut M) -> (r: Result<usize, SnowError>)
        ensures
            final(self).sealed() == old(self).sealed(),
            final(m).room().len() == old(m).room().len(),
            r matches Ok(n) ==> (old(self).opens(f@) matches Some(t) && n == t.len() && n <= old(m).room().len() && n <= f@.len() && final(m).room().take(n as int) == t),
            r is Err ==> old(self).opens(f@) is None || old(m).room().len() + 16 < f@.len(),
    { unimplemented!() }
    #[verifier::external_body] pub fn write_message<M: MsgBuf + ?Sized>(&mut self, p: &[u8], m: &mut M) -> (r: Result<usize, SnowError>)
        ensures
            final(m).room().len() == old(m).room().len(),
            r matches Ok(n) ==> n == p@.len() + 16 && n <= old(m).room().len() && final(self).sealed() == old(self).sealed().push((p@, final(m).room().take(n as int))),
            r is Err ==> final(self).sealed() == old(self).sealed() && (old(self).spent() || p@.len() + 16 > 65535 || old(m).room().len() < p@.len() + 16),
    { unimplemented!() }
}
#[verifier::external_body] pub struct HandshakeState { _p: u8 }
impl HandshakeState {
    /// how many messages of the handshake went through
    pub uninterp spec fn turn(&self) -> nat;
    #[verifier::external_body] pub fn read_message<M: MsgBuf + ?Sized>(&mut self, f: &[u8], m: &mut M) -> (r: Result<usize, SnowError>)
        requires old(self).turn() % 2 == 0
        ensures r is Ok ==> final(self).turn() == old(self).turn() + 1, r is Err ==> final(self).turn() == old(self).turn(), final(m).room().len() == old(m).room().len()
    { unimplemented!() }
    #[verifier::external_body] pub fn write_message<M: MsgBuf + ?Sized>(&mut self, p: &[u8], m: &mut M) -> (r: Result<usize, SnowError>)
        requires old(self).turn() % 2 == 1
        ensures r matches Ok(n) ==> n <= old(m).room().len() && final(self).turn() == old(self).turn() + 1, r is Err ==> final(self).turn() == old(self).turn(), final(m).room().len() == old(m).room().len()
    { unimplemented!() }
    /// the three messages of XK make a session
    #[verifier::external_body] pub fn into_transport_mode(self) -> (r: Result<TransportState, SnowError>) ensures self.turn() >= 3 ==> r is Ok { unimplemented!() }
}
pub struct NoiseParams { _p: u8 }
pub trait VParse { fn v_parse(&self) -> Result<NoiseParams, SnowError>; }
impl VParse for str { #[verifier::external_body] fn v_parse(&self) -> (r: Result<NoiseParams, SnowError>) ensures self@ == "Noise_XK_25519_ChaChaPoly_BLAKE2s"@ ==> r is Ok { unimplemented!() } }
pub mod snow {
    use super::*;
    #[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct VBuilder<A> { _p: A }
    pub type Builder = VBuilder<u8>;
    impl VBuilder<u8> {
        pub uninterp spec fn keyed(&self) -> bool;
        #[verifier::external_body] pub fn new(p: NoiseParams) -> (r: Builder) { unimplemented!() }
        #[verifier::external_body] pub fn local_private_key(self, k: &[u8]) -> (r: Builder) ensures r.keyed() { unimplemented!() }
        #[verifier::external_body] pub fn build_responder(self) -> (r: Result<HandshakeState, SnowError>) ensures self.keyed() ==> r is Ok, r matches Ok(h) ==> h.turn() == 0 { unimplemented!() }
    }
}
@@ module s_noiseclient
impl NoiseClient {
    /// nothing was written, and it is the same connection
    pub open spec fn unread(o: NoiseClient, n: NoiseClient) -> bool { n.saddr == o.saddr && n.crypto.sealed() == o.crypto.sealed() && n.stream.sent() == o.stream.sent() }
    /// the content of the next frame
    pub open spec fn opened(&self) -> Option<Seq<u8>> { if self.stream.rest().len() == 0 { None } else { self.crypto.opens(self.stream.rest()[0]) } }
    pub open spec fn got(o: NoiseClient, n: NoiseClient, p: Packet) -> bool { o.opened() matches Some(t) && dec_ok(t, p) && n.stream.rest() == o.stream.rest().skip(1) }
    /// there is nothing to be had, and why
    pub open spec fn dry(o: NoiseClient, n: NoiseClient, e: ServerError) -> bool {
        match e {
            ServerError::Packet(_) => o.opened() matches Some(t) && !Packet::must(t),
            ServerError::Noise(_) => o.stream.rest().len() > 0 && o.opened() is None,
            ServerError::Misc(_) => o.stream.rest().len() == 0,
            ServerError::Io(_) => n.stream.broken(),
            _ => false,
        }
    }
    /// one message was sealed and sent
    pub open spec fn wrote(o: NoiseClient, n: NoiseClient, b: Seq<u8>) -> bool {
        n.saddr == o.saddr && n.stream.rest() == o.stream.rest() && n.stream.sent().len() > 0
        && n.crypto.sealed() == o.crypto.sealed().push((b, n.stream.sent().last())) && n.stream.sent() == o.stream.sent().push(n.stream.sent().last())
    }
    pub open spec fn said(&self) -> Seq<u8> { self.crypto.sealed().last().0 }
}
@@ fn NoiseClient::new
@@ tags C18
    ensures ret.stream == $0, ret.saddr == $1, ret.crypto == $2,
@@ fn NoiseClient::recv
@@ tags C19
    ensures NoiseClient::unread(*old(self), *final(self)), //! C19
        ret matches Ok(p) ==> NoiseClient::got(*old(self), *final(self), p) && p.carried(), //! C19
        ret matches Err(e) ==> NoiseClient::dry(*old(self), *final(self), e), //! C19
@@ entry
    hide(body_parse); hide(pk_enc); hide(pk_inv); hide(pk_fits); hide(pk_same); hide(pk_vv);
    let ghost o = *self;
    proof {
        if let Some(t) = o.opened() {
            assert forall|p: Packet| #[trigger] dec_ok(t, p) implies p.carried() by { first_of(t, seq![], p); }
        }
    }
@@ await
    assert(*self == o); //! C19
@@ fn NoiseClient::send
@@ tags C19
    requires $0.inv(), Packet::fits($0.vv()),
    ensures
        ret is Ok ==> NoiseClient::wrote(*old(self), *final(self), Packet::enc($0.vv())), //! C19
        ret is Err ==> final(self).stream.broken() || old(self).crypto.spent() || Packet::enc($0.vv()).len() > 65519, //! C19
        final(self).stream.rest() == old(self).stream.rest(), final(self).saddr == old(self).saddr, //! C19
@@ entry
    hide(body_parse); hide(pk_enc); hide(pk_inv); hide(pk_fits); hide(pk_same); hide(pk_vv);
    broadcast use group_seq;
    proof { packet_enc_bound($0.vv()); }
@@ fn NoiseListener::new
@@ tags C22
    ensures ret.shutdown == $2, //! C22
@@ fn NoiseListener::listen
@@ tags C18,C22
    requires server_notice(*old(self).shutdown),
    ensures final(self).shutdown == old(self).shutdown,
@@ fn NoiseListener::listen_forever
@@ attr #[verifier::exec_allows_no_decreases_clause]
@@ tags C22
    requires server_notice(*old(self).shutdown),
@@ loop 0
    invariant server_notice(*self.shutdown),
@@ fn NoiseListener::run
@@ tags C22
    requires server_notice(*self.shutdown),
@@ entry
    let ghost s0 = at(self.shutdown);
@@ exit
    assert(__task.owed(s0) == 0); //! C22
    assert(__task.listened(s0)); //! C22
@@ fn noiseclient::connect_client
@@ tags C18,C22
    requires server_notice(*$3),
@@ members noiseclient::From<Result<(),ServerError>> for ConnectState
    open spec fn of(v: Result<(), ServerError>) -> Self { match v { Ok(_) => ConnectState::Success, Err(e) => ConnectState::Err(e) } }
@@ fn noiseclient::From<Result<(),ServerError>> for ConnectState::from
@@ fn noiseclient::_connect_client
@@ tags C18,C22
    requires server_notice(*$3),
@@ entry
    let ghost s0 = at($3);
@@ exit
    assert(__task.owed(s0) == 0); //! C22
    assert(__task.listened(s0)); //! C22
@@ fn noiseclient::handshake
@@ tags C18
    requires old($1).turn() == 0,
    ensures ret is Ok ==> final($1).turn() == 3,
@@ end
