// Shared vocabulary: buffers, strings, collections (the trusted base of the codec part) and the
// definitions of the wire format that the contracts refer to.
@@ prelude
#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unreachable_patterns, unused_assignments, unreachable_code, non_camel_case_types, private_interfaces, unused_must_use, unused_labels)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;

// ---------------------------------------------------------------- panics and small stand-ins
#[verifier::external_body]
pub fn v_panic<T>() -> (r: T) requires false { unimplemented!() }
pub fn v_assert(c: bool) requires c { }
#[verifier::external_body]
pub fn v_format() -> (r: String) { unimplemented!() }
pub fn v_drop<T>(x: T) { }
#[verifier::external_body]
pub fn v_arc_from(s: &str) -> (r: Arc<str>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub struct Utf8Error;
#[verifier::external_body]
pub fn v_from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r matches Ok(s) ==> encode_utf8(s@) == b@ && s@ == decode_utf8(b@)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_chars_vec(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_str_contains(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
pub fn v_elem<T: Copy>(v: &Vec<T>, i: usize) -> (r: T) requires i < v.len() ensures r == v@[i as int] { v[i] }
/// the next element of a sequence that is consumed from the front
#[verifier::external_body]
pub fn v_move<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn v_arr_slice<T, const N: usize>(a: &[T; N]) -> (r: &[T]) ensures r@ == a@ { unimplemented!() }
// the characters of a string, consumed from the front
pub struct VChars { pub s: Ghost<Seq<char>>, pub v: Vec<char>, pub i: usize }
impl VChars {
    #[verifier::inline]
    pub open spec fn wf(&self) -> bool { self.v@ == self.s@ && self.i <= self.v.len() }
    pub fn next(&mut self) -> (r: Option<char>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> final(self).i == old(self).i + 1 && r == Some(old(self).s@[old(self).i as int]),
            old(self).i >= old(self).s@.len() ==> final(self).i == old(self).i && r is None
    { if self.i < self.v.len() { let c = self.v[self.i]; self.i = self.i + 1; Some(c) } else { None } }
    pub fn peekable(self) -> (r: VChars) ensures r == self { self }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&char>)
        requires old(self).wf()
        ensures *final(self) == *old(self),
            old(self).i < old(self).s@.len() ==> r is Some && *r->0 == old(self).s@[old(self).i as int],
            old(self).i >= old(self).s@.len() ==> r is None
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_chars(s: &str) -> (r: VChars) ensures r.wf(), r.s@ == s@, r.i == 0 { unimplemented!() }
pub open spec fn is_ctrl(c: char) -> bool { c as u32 <= 0x1f || 0x7f <= c as u32 <= 0x9f }
#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref] (v: &std::sync::Arc<T, A>) -> (r: &T) ensures r == &**v;
pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification [ char::is_control ](c: char) -> (r: bool) ensures r == is_ctrl(c);

pub assume_specification<T, A: std::alloc::Allocator> [<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref] (v: &std::vec::Vec<T, A>) -> (r: &[T]) ensures r@ == v@;

// ---------------------------------------------------------------- conversions
pub trait From<T>: Sized { spec fn of(t: T) -> Self; fn from(t: T) -> (r: Self) ensures r == Self::of(t); }
pub trait Into<T>: Sized { spec fn into_ok(self, r: T) -> bool; fn into(self) -> (r: T) ensures self.into_ok(r); }
impl<T, U: From<T>> Into<U> for T { open spec fn into_ok(self, r: U) -> bool { r == U::of(self) } fn into(self) -> (r: U) { U::from(self) } }
pub trait TryInto<T>: Sized { type Error; spec fn tri(self) -> Option<T>; spec fn tri_err(self, e: Self::Error) -> bool; fn v_try_into(self) -> (r: Result<T, Self::Error>) ensures r is Ok <==> self.tri() is Some, r matches Ok(x) ==> self.tri() == Some(x), r matches Err(e) ==> self.tri_err(e); }

// ---------------------------------------------------------------- sequences of bytes
pub open spec fn be16(n: int) -> Seq<u8> { seq![(n / 256) as u8, (n % 256) as u8] }
pub open spec fn be32(n: int) -> Seq<u8> { seq![(n / 0x1000000) as u8, (n / 0x10000 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8] }
pub open spec fn ru16(s: Seq<u8>) -> int { s[0] as int * 256 + s[1] as int }
pub open spec fn ru32(s: Seq<u8>) -> int { s[0] as int * 0x1000000 + s[1] as int * 0x10000 + s[2] as int * 256 + s[3] as int }
pub open spec fn mn(a: nat, b: nat) -> nat { if a < b { a } else { b } }

pub mod lem {
    use super::*;
    pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len()
        ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
    { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    pub broadcast proof fn skip_append(s: Seq<u8>, t: Seq<u8>, a: int)
        requires 0 <= a
        ensures a <= s.len() ==> #[trigger] (s + t).skip(a) == s.skip(a) + t,
            a >= s.len() && a <= s.len() + t.len() ==> (s + t).skip(a) == t.skip(a - s.len())
    {
        if a <= s.len() { assert((s + t).skip(a) =~= s.skip(a) + t); }
        if a >= s.len() && a <= s.len() + t.len() { assert((s + t).skip(a) =~= t.skip(a - s.len())); }
    }
    pub broadcast proof fn take_skip(s: Seq<u8>, n: int, k: int)
        requires 0 <= k <= n <= s.len()
        ensures #[trigger] s.take(n).skip(k) == s.skip(k).take(n - k)
    { assert(s.take(n).skip(k) =~= s.skip(k).take(n - k)); }
    pub broadcast proof fn skip0(s: Seq<u8>)
        ensures #[trigger] s.skip(0) == s
    { assert(s.skip(0) =~= s); }
    pub broadcast group group_seq { skip_skip, skip_append, skip0 }
}
pub use lem::*;
broadcast use group_seq;

// ---------------------------------------------------------------- the `bytes` crate
pub enum Fr { Nil, Mut(Seq<u8>, Box<Fr>, Box<Fr>), Take(Seq<u8>, Box<Fr>), Chain(bool, Seq<u8>, Box<Fr>, Box<Fr>) }
/// `n` is `o` after `k` bytes have been read
#[verifier::prophetic]
pub open spec fn adv<T: Buf>(o: T, n: T, k: int) -> bool { n.bv() =~= o.bv().skip(k) && n.pr() == o.pr() && 0 <= k <= o.bv().len() }
pub open spec fn adv_(ob: Seq<u8>, op: Fr, nb: Seq<u8>, np: Fr, k: int) -> bool { nb =~= ob.skip(k) && np == op && 0 <= k <= ob.len() }
pub trait Buf: Sized {
    /// the bytes that are left
    spec fn bv(&self) -> Seq<u8>;
    /// everything reading does not change
    #[verifier::prophetic]
    spec fn pr(&self) -> Fr;
    fn remaining(&self) -> (r: usize)
        ensures r == self.bv().len();
    fn has_remaining(&self) -> (r: bool)
        ensures r == (self.bv().len() > 0);
    /// the first contiguous part: all that is known is that it is a prefix, empty only at the end
    fn chunk(&self) -> (r: &[u8])
        ensures r@.len() <= self.bv().len(), r@ == self.bv().take(r@.len() as int), self.bv().len() > 0 ==> r@.len() > 0;
    fn advance(&mut self, n: usize)
        requires (*old(self)).bv().len() >= n
        ensures adv_((*old(self)).bv(), (*old(self)).pr(), (*final(self)).bv(), (*final(self)).pr(), n as int);
    fn get_u8(&mut self) -> (r: u8)
        requires (*old(self)).bv().len() >= 1
        ensures r == (*old(self)).bv()[0], adv_((*old(self)).bv(), (*old(self)).pr(), (*final(self)).bv(), (*final(self)).pr(), 1);
    fn get_u16(&mut self) -> (r: u16)
        requires (*old(self)).bv().len() >= 2
        ensures r == ru16((*old(self)).bv()), adv_((*old(self)).bv(), (*old(self)).pr(), (*final(self)).bv(), (*final(self)).pr(), 2);
    fn get_u32(&mut self) -> (r: u32)
        requires (*old(self)).bv().len() >= 4
        ensures r == ru32((*old(self)).bv()), adv_((*old(self)).bv(), (*old(self)).pr(), (*final(self)).bv(), (*final(self)).pr(), 4);
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes)
        requires (*old(self)).bv().len() >= n
        ensures r@ == (*old(self)).bv().take(n as int), adv_((*old(self)).bv(), (*old(self)).pr(), (*final(self)).bv(), (*final(self)).pr(), n as int);
}
pub trait BufExt: Sized {
    fn take(self, limit: usize) -> (r: Take<Self>)
        ensures r.inner == self, r.limit == limit;
    fn chain<U>(self, u: U) -> (r: Chain<Self, U>) where U: Buf
        ensures r.a == self, r.b == u, r.b0@ == u.bv();
}
impl<T: Buf> BufExt for T {
    fn take(self, limit: usize) -> (r: Take<Self>) { Take { inner: self, limit } }
    #[verifier::external_body]
    fn chain<U>(self, u: U) -> (r: Chain<Self, U>) where U: Buf { unimplemented!() }
}
pub struct Chain<A, B> { pub a: A, pub b: B, pub b0: Ghost<Seq<u8>> }
pub struct Take<T> { pub inner: T, pub limit: usize }
impl<T: Buf> Buf for Take<T> {
    open spec fn bv(&self) -> Seq<u8> { self.inner.bv().take(mn(self.limit as nat, self.inner.bv().len()) as int) }
    #[verifier::prophetic]
    open spec fn pr(&self) -> Fr { Fr::Take(self.inner.bv().skip(mn(self.limit as nat, self.inner.bv().len()) as int), Box::new(self.inner.pr())) }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) { unimplemented!() }
}
impl<T: Buf, U: Buf> Buf for Chain<T, U> {
    open spec fn bv(&self) -> Seq<u8> { self.a.bv() + self.b.bv() }
    #[verifier::prophetic]
    open spec fn pr(&self) -> Fr { Fr::Chain(self.b.bv().len() <= self.b0@.len() && (self.a.bv().len() > 0 ==> self.b.bv() == self.b0@), self.b0@, Box::new(self.a.pr()), Box::new(self.b.pr())) }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) { unimplemented!() }
}
impl<T: Buf> Buf for &mut T {
    open spec fn bv(&self) -> Seq<u8> { (**self).bv() }
    #[verifier::prophetic]
    open spec fn pr(&self) -> Fr { Fr::Mut((*final(*self)).bv(), Box::new((*final(*self)).pr()), Box::new((**self).pr())) }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) { unimplemented!() }
}
impl Buf for &[u8] {
    open spec fn bv(&self) -> Seq<u8> { (**self)@ }
    #[verifier::prophetic]
    open spec fn pr(&self) -> Fr { Fr::Nil }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) ensures r@ == self.bv() { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) { unimplemented!() }
}
#[verifier::external_body]
pub struct Bytes { _p: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl Bytes {
    #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
impl std::ops::Deref for Bytes { type Target = [u8]; #[verifier::external_body] fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
impl Buf for Bytes {
    open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::prophetic]
    open spec fn pr(&self) -> Fr { Fr::Nil }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn get_u16(&mut self) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) { unimplemented!() }
}
pub trait Adapter: Sized {
    spec fn facts(&self) -> bool;
    proof fn facts_hold(&self) ensures self.facts();
}
pub proof fn buf_glue<A: Adapter>(a: A) ensures a.facts() { a.facts_hold(); }
impl<T: Buf> Adapter for Take<T> {
    open spec fn facts(&self) -> bool { self.bv() + self.inner.bv().skip(self.bv().len() as int) == self.inner.bv() && self.bv().len() == mn(self.limit as nat, self.inner.bv().len()) }
    proof fn facts_hold(&self) { assert(self.bv() + self.inner.bv().skip(self.bv().len() as int) =~= self.inner.bv()); }
}
impl<T: Buf, U: Buf> Adapter for Chain<T, U> {
    open spec fn facts(&self) -> bool { self.bv() == self.a.bv() + self.b.bv() && (self.a.bv().len() == 0 ==> self.bv() == self.b.bv()) }
    proof fn facts_hold(&self) { if self.a.bv().len() == 0 { assert(self.bv() =~= self.b.bv()); } }
}
/// a growable output: writing appends and does not fail
pub trait BufMut: Sized {
    spec fn out(&self) -> Seq<u8>;
    fn put_u8(&mut self, b: u8) ensures (*final(self)).out() == (*old(self)).out() + seq![b];
    fn put_u16(&mut self, n: u16) ensures (*final(self)).out() == (*old(self)).out() + be16(n as int);
    fn put_u32(&mut self, n: u32) ensures (*final(self)).out() == (*old(self)).out() + be32(n as int);
    fn put_slice(&mut self, s: &[u8]) ensures (*final(self)).out() == (*old(self)).out() + s@;
    fn put<B: Buf>(&mut self, b: B) ensures (*final(self)).out() == (*old(self)).out() + b.bv();
}
impl BufMut for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn put_u8(&mut self, b: u8) { unimplemented!() }
    #[verifier::external_body] fn put_u16(&mut self, n: u16) { unimplemented!() }
    #[verifier::external_body] fn put_u32(&mut self, n: u32) { unimplemented!() }
    #[verifier::external_body] fn put_slice(&mut self, s: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn put<B: Buf>(&mut self, b: B) { unimplemented!() }
}

// ---------------------------------------------------------------- collections
pub trait VIter<'a> { type E; spec fn it(&'a self) -> Seq<Self::E>; fn v_iter(&'a self) -> (r: Vec<Self::E>) ensures r@ == self.it(); }
impl<'a, T: 'a> VIter<'a> for Vec<T> {
    type E = &'a T;
    open spec fn it(&'a self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn v_iter(&'a self) -> (r: Vec<&'a T>) { unimplemented!() }
}
pub trait VInto: Sized { type E; spec fn ito(self) -> Seq<Self::E>; fn v_into(self) -> (r: Vec<Self::E>) ensures r@ == self.ito(); }
impl<T> VInto for Vec<T> {
    type E = T;
    open spec fn ito(self) -> Seq<T> { self@ }
    fn v_into(self) -> (r: Vec<T>) { self }
}
/// the length of a string is the length of its UTF-8 form (the verifier's own library is silent on it)
pub trait VLen { spec fn ln(&self) -> nat; fn v_len(&self) -> (r: usize) ensures r == self.ln(); }
impl VLen for str { open spec fn ln(&self) -> nat { encode_utf8(self@).len() } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VLen for Vec<T> { open spec fn ln(&self) -> nat { self@.len() } fn v_len(&self) -> (r: usize) { self.len() } }
impl VLen for Bytes { open spec fn ln(&self) -> nat { self@.len() } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
/// keys whose equality is equality of a mathematical value
pub trait Key { type KV; spec fn kv(&self) -> Self::KV; }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K: Key, V> { _p: std::marker::PhantomData<(K, V)> }
impl<K: Key, V> View for HashMap<K, V> { type V = Map<K::KV, V>; uninterp spec fn view(&self) -> Map<K::KV, V>; }
impl<K: Key, V> HashMap<K, V> {
    /// the order in which the entries come out: any order
    pub uninterp spec fn order(&self) -> Seq<K::KV>;
    #[verifier::external_body]
    pub proof fn order_props(&self) ensures self.order().no_duplicates(), self.order().to_set() == self@.dom() { }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::KV, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v),
            r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: Key<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kv()),
            r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: Key<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn get<'a, Q: Key<KV = K::KV> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>)
        ensures r is Some <==> self@.contains_key(k.kv()), r matches Some(v) ==> *v == self@[k.kv()]
    { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<'a, Q: Key<KV = K::KV> + ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>)
        ensures r is Some <==> old(self)@.contains_key(k.kv()),
            r matches Some(v) ==> *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)),
            r is None ==> final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>)
        ensures r@.len() == self.order().len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0.kv() == self.order()[i] && *r@[i].1 == self@[self.order()[i]]
    { unimplemented!() }
}
impl<K: Key, V: Clone> Clone for HashMap<K, V> {
    #[verifier::external_body] fn clone(&self) -> (r: Self)
        ensures r@.dom() == self@.dom(), forall|k: K::KV| #[trigger] r@.contains_key(k) ==> call_ensures(V::clone, (&self@[k],), r@[k])
    { unimplemented!() }
}

// ---------------------------------------------------------------- the wire format, per type
/// A type with a place in the MQTT wire format.  `V` is the abstract value.
pub trait Wire: Sized {
    type V;
    spec fn vv(&self) -> Self::V;
    /// the values a program can hold (data structure invariant)
    spec fn inv(&self) -> bool;
    /// the value can be written at all (lengths fit their fields)
    spec fn fits(v: Self::V) -> bool;
    /// equal as far as the format is concerned (the order of properties does not count)
    spec fn same(a: Self::V, b: Self::V) -> bool;
    /// the bytes of a value
    spec fn enc(v: Self::V) -> Seq<u8>;
    /// the value at the start of `s` and the number of bytes it takes, if there is one
    spec fn parse(s: Seq<u8>) -> Option<(Self::V, int)>;
    /// `s` has to be accepted
    spec fn must(s: Seq<u8>) -> bool;
    /// what a caller has to make sure of before a decode
    open spec fn dpre(s: Seq<u8>) -> bool { true }
}
/// the outcome of a decode of `W` from `s`
pub open spec fn dec_ok<W: Wire>(s: Seq<u8>, x: W) -> bool { W::parse(s) is Some && W::same(x.vv(), W::parse(s).unwrap().0) && x.inv() }
pub open spec fn dec_len<W: Wire>(s: Seq<u8>) -> int { W::parse(s).unwrap().1 }

// variable byte integers
pub enum PR<V> { Ok(V, int), More, Bad }
pub open spec fn vbi_enc(x: nat) -> Seq<u8> decreases x { if x < 128 { seq![x as u8] } else { seq![(x % 128 + 128) as u8] + vbi_enc(x / 128) } }
pub open spec fn vbi_len(x: nat) -> int { if x < 0x80 { 1 } else if x < 0x4000 { 2 } else if x < 0x200000 { 3 } else { 4 } }
pub open spec fn pow128(k: int) -> int { if k <= 0 { 1 } else if k == 1 { 128 } else if k == 2 { 16384 } else { 2097152 } }
/// `k` bytes have been read, with value `acc`
pub open spec fn vbi_from(s: Seq<u8>, k: int, acc: int) -> PR<int> decreases 4 - k when k < 4 {
    if s.len() <= k { PR::More } else {
        let b = s[k] as int;
        let v = acc + (b % 128) * pow128(k);
        if b < 128 { if b == 0 && k > 0 { PR::Bad } else { PR::Ok(v, k + 1) } }
        else if k == 3 { if s.len() <= 4 { PR::More } else { PR::Bad } }
        else { vbi_from(s, k + 1, v) }
    }
}
pub open spec fn vbi_parse(s: Seq<u8>) -> PR<int> { vbi_from(s, 0, 0) }
pub open spec fn vbi(s: Seq<u8>) -> Option<(int, int)> { match vbi_parse(s) { PR::Ok(v, k) => Some((v, k)), _ => None } }

// strings
pub open spec fn str_ok(c: Seq<char>) -> bool { encode_utf8(c).len() <= 65535 && forall|i: int| 0 <= i < c.len() ==> !is_ctrl(#[trigger] c[i]) }
pub open spec fn str_enc(c: Seq<char>) -> Seq<u8> { be16(encode_utf8(c).len() as int) + encode_utf8(c) }
pub open spec fn str_parse(s: Seq<u8>) -> Option<(Seq<char>, int)> {
    if s.len() < 2 || s.len() < 2 + ru16(s) { None } else {
        let b = s.skip(2).take(ru16(s));
        if !valid_utf8(b) || !str_ok(decode_utf8(b)) { None } else { Some((decode_utf8(b), 2 + ru16(s))) }
    }
}
pub open spec fn bin_enc(c: Seq<u8>) -> Seq<u8> { be16(c.len() as int) + c }
pub open spec fn bin_parse(s: Seq<u8>) -> Option<(Seq<u8>, int)> {
    if s.len() < 2 || s.len() < 2 + ru16(s) { None } else { Some((s.skip(2).take(ru16(s)), 2 + ru16(s))) }
}
@@ end
