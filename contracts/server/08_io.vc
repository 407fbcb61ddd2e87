// Stand-ins for what the connection code takes from tokio, tokio-util, snow and uuid.
@@ prelude
/// `&x[..]` and the like
pub trait Slice {
    spec fn sl(&self) -> Seq<u8>;
    fn v_all(&self) -> (r: &[u8]) ensures r@ == self.sl();
    fn v_to(&self, n: usize) -> (r: &[u8]) requires n <= self.sl().len() ensures r@ == self.sl().take(n as int);
    fn v_from(&self, n: usize) -> (r: &[u8]) requires n <= self.sl().len() ensures r@ == self.sl().skip(n as int);
    fn v_from_to(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.sl().len() ensures r@ == self.sl().subrange(a as int, b as int);
}
impl Slice for Vec<u8> { open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_all(&self) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_from_to(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } }
impl Slice for Bytes { open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_all(&self) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_from_to(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } }
impl Slice for BytesMut { open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_all(&self) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_from_to(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } }
impl<const N: usize> Slice for [u8; N] { open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_all(&self) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_from_to(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } }

// ---------------------------------------------------------------- bytes
#[verifier::external_body]
pub struct BytesMut { _p: u8 }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn split_to(&mut self, n: usize) -> (r: BytesMut) requires n <= old(self)@.len() ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}
impl Buf for BytesMut {
    open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::prophetic]
    open spec fn pr(&self) -> Fr { Fr::Nil }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) { unimplemented!() }
}
impl BufMut for BytesMut {
    open spec fn out(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn put_u8(&mut self, b: u8) { unimplemented!() }
    #[verifier::external_body] fn put_u16(&mut self, n: u16) { unimplemented!() }
    #[verifier::external_body] fn put_u32(&mut self, n: u32) { unimplemented!() }
    #[verifier::external_body] fn put_slice(&mut self, s: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn put<B: Buf>(&mut self, b: B) { unimplemented!() }
}
impl Bytes { #[verifier::external_body] pub fn copy_from_slice(b: &[u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cursor<T> { _p: T }
impl<T> Cursor<T> { pub uninterp spec fn left(&self) -> Seq<u8>; }
impl<'a> Cursor<&'a [u8]> { #[verifier::external_body] pub fn new(b: &'a [u8]) -> (r: Self) ensures r.left() == b@ { unimplemented!() } }
impl<T> Buf for Cursor<T> {
    open spec fn bv(&self) -> Seq<u8> { self.left() }
    #[verifier::prophetic]
    open spec fn pr(&self) -> Fr { Fr::Nil }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) { unimplemented!() }
}

// ---------------------------------------------------------------- channels, tasks, time
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T: Carried> { _p: std::marker::PhantomData<T> }
impl<T: Carried> Sender<T> {
    pub uninterp spec fn sent(&self) -> Seq<T>;
    #[verifier::external_body] pub fn send(&mut self, t: T) -> (r: Result<(), SendError<T>>)
        requires t.carried()
        ensures r is Ok ==> final(self).sent() == old(self).sent().push(t), r is Err ==> final(self).sent() == old(self).sent()
    { unimplemented!() }
}
impl<T: Carried> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct UnboundedReceiver<T: Carried> { _p: std::marker::PhantomData<T> }
impl<T: Carried> UnboundedReceiver<T> {
    /// everything received so far
    pub uninterp spec fn taken(&self) -> Seq<T>;
    #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<T>)
        ensures r matches Some(t) ==> t.carried() && final(self).taken() == old(self).taken().push(t) && forall|i: int| 0 <= i < old(self).taken().len() ==> t.apart(#[trigger] old(self).taken()[i]), r is None ==> final(self).taken() == old(self).taken()
    { unimplemented!() }
}
#[verifier::external_body] pub fn unbounded_channel<T: Carried>() -> (r: (UnboundedSender<T>, UnboundedReceiver<T>)) ensures r.0.open(), r.0.sent() == Seq::<T>::empty() { unimplemented!() }
pub struct Duration { _p: u8 }
impl Duration {
    #[verifier::external_body] pub fn new(s: u64, n: u32) -> Duration { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(s: u64) -> Duration { unimplemented!() }
}
#[verifier::external_body] pub fn sleep(d: Duration) { }

// ---------------------------------------------------------------- strings
impl From<String> for Arc<str> { uninterp spec fn of(t: String) -> Self; #[verifier::external_body] fn from(t: String) -> (r: Self) { unimplemented!() } }
pub broadcast axiom fn arc_of_string(t: String) ensures (#[trigger] <Arc<str> as From<String>>::of(t))@ == t@;
pub struct Uuid { _p: u8 }
pub struct Hyphenated { _p: u8 }
impl Uuid {
    #[verifier::external_body] pub fn new_v4() -> Uuid { unimplemented!() }
    #[verifier::external_body] pub fn to_hyphenated(self) -> Hyphenated { unimplemented!() }
}
impl Hyphenated { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures str_ok(r@), r@.len() == 36 { unimplemented!() } }

// ---------------------------------------------------------------- sockets
#[verifier::external_body] pub struct TcpListener { _p: u8 }
#[verifier::external_body] pub struct TcpStream { _p: u8 }
impl TcpListener {
    #[verifier::external_body] pub fn bind(a: &SocketAddr) -> Result<TcpListener, IoError> { unimplemented!() }
    #[verifier::external_body] pub fn accept(&mut self) -> Result<(TcpStream, SocketAddr), IoError> { unimplemented!() }
}
@@ end
