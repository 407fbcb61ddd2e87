@@ module data
impl Wire for MqttOneBytesInt {
    type V = u8;
    open spec fn vv(&self) -> u8 { self.0 }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: u8) -> bool { true }
    open spec fn same(a: u8, b: u8) -> bool { a == b }
    open spec fn enc(v: u8) -> Seq<u8> { seq![v] }
    open spec fn parse(s: Seq<u8>) -> Option<(u8, int)> { if s.len() < 1 { None } else { Some((s[0], 1)) } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Wire for MqttTwoBytesInt {
    type V = u16;
    open spec fn vv(&self) -> u16 { self.0 }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: u16) -> bool { true }
    open spec fn same(a: u16, b: u16) -> bool { a == b }
    open spec fn enc(v: u16) -> Seq<u8> { be16(v as int) }
    open spec fn parse(s: Seq<u8>) -> Option<(u16, int)> { if s.len() < 2 { None } else { Some((ru16(s) as u16, 2)) } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Wire for MqttFourBytesInt {
    type V = u32;
    open spec fn vv(&self) -> u32 { self.0 }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: u32) -> bool { true }
    open spec fn same(a: u32, b: u32) -> bool { a == b }
    open spec fn enc(v: u32) -> Seq<u8> { be32(v as int) }
    open spec fn parse(s: Seq<u8>) -> Option<(u32, int)> { if s.len() < 4 { None } else { Some((ru32(s) as u32, 4)) } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Wire for MqttUtf8String {
    type V = Seq<char>;
    open spec fn vv(&self) -> Seq<char> { self.s@ }
    open spec fn inv(&self) -> bool { str_ok(self.s@) }
    open spec fn fits(v: Seq<char>) -> bool { true }
    open spec fn same(a: Seq<char>, b: Seq<char>) -> bool { a == b }
    open spec fn enc(v: Seq<char>) -> Seq<u8> { str_enc(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(Seq<char>, int)> { str_parse(s) }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Wire for MqttVariableBytesInt {
    type V = u32;
    open spec fn vv(&self) -> u32 { self.i }
    open spec fn inv(&self) -> bool { self.i <= 0xfffffff }
    open spec fn fits(v: u32) -> bool { true }
    open spec fn same(a: u32, b: u32) -> bool { a == b }
    open spec fn enc(v: u32) -> Seq<u8> { vbi_enc(v as nat) }
    open spec fn parse(s: Seq<u8>) -> Option<(u32, int)> { match vbi(s) { Some((v, k)) => Some((v as u32, k)), None => None } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Wire for MqttBinaryData {
    type V = Seq<u8>;
    open spec fn vv(&self) -> Seq<u8> { self.d@ }
    open spec fn inv(&self) -> bool { self.d@.len() <= 65535 }
    open spec fn fits(v: Seq<u8>) -> bool { true }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { bin_enc(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(Seq<u8>, int)> { bin_parse(s) }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Wire for MqttUtf8StringPair {
    type V = (Seq<char>, Seq<char>);
    open spec fn vv(&self) -> (Seq<char>, Seq<char>) { (self.name.s@, self.value.s@) }
    open spec fn inv(&self) -> bool { self.name.inv() && self.value.inv() }
    open spec fn fits(v: (Seq<char>, Seq<char>)) -> bool { true }
    open spec fn same(a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)) -> bool { a == b }
    open spec fn enc(v: (Seq<char>, Seq<char>)) -> Seq<u8> { str_enc(v.0) + str_enc(v.1) }
    open spec fn parse(s: Seq<u8>) -> Option<((Seq<char>, Seq<char>), int)> {
        match str_parse(s) {
            Some((a, i)) => match str_parse(s.skip(i)) { Some((b, j)) => Some(((a, b), i + j)), None => None },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}

pub proof fn vbi_from_shape(s: Seq<u8>, k: int, acc: int)
    requires 0 <= k < 4, 0 <= acc < pow128(k)
    ensures match vbi_from(s, k, acc) { PR::Ok(v, n) => k < n <= 4 && n <= s.len() && acc <= v < 0x10000000, _ => true }
    decreases 4 - k
{
    reveal_with_fuel(vbi_from, 2);
    if s.len() > k {
        let b = s[k] as int;
        assert(0 <= b % 128 < 128);
        let v = acc + (b % 128) * pow128(k);
        if k == 0 { assert(pow128(0) == 1); assert(v < 128); assert(pow128(1) == 128); }
        else if k == 1 { assert(pow128(1) == 128); assert(pow128(2) == 16384); assert(v < 16384); }
        else if k == 2 { assert(pow128(2) == 16384); assert(pow128(3) == 2097152); assert(v < 2097152); }
        else { assert(pow128(3) == 2097152); assert(v < 0x10000000); }
        if b >= 128 && k < 3 { vbi_from_shape(s, k + 1, v); }
    }
}
pub proof fn vbi_enc_len(x: nat)
    requires x <= 0xfffffff
    ensures vbi_enc(x).len() == vbi_len(x)
{
    reveal_with_fuel(vbi_enc, 5);
}

pub proof fn vbi_step(x: u32)
    requires x <= 0xfffffff
    ensures (x & 0x7f) as u8 == x % 128, x >> 7 == x / 128, (((x & 0x7f) as u8) | 0x80) == x % 128 + 128
{
    assert(x & 0x7f == x % 128) by (bit_vector);
    assert(x >> 7 == x / 128) by (bit_vector);
    let b = (x & 0x7f) as u8;
    assert(b < 128 ==> b | 0x80 == b + 128) by (bit_vector);
}
pub proof fn vbi_read(b: u32, v: u32, m: u32)
    requires b < 256
    ensures b & 127 == b % 128, (b & 0x80 == 0) == (b < 128),
        m == 0 ==> (b & 127) << m == b % 128,
        m == 7 ==> (b & 127) << m == (b % 128) * 128,
        m == 14 ==> (b & 127) << m == (b % 128) * 16384,
        m == 21 ==> (b & 127) << m == (b % 128) * 2097152,
        m == 28 ==> (b & 127) << m <= 0xf0000000,
{
    assert(b < 256 ==> b & 127 == b % 128 && ((b & 0x80 == 0) == (b < 128))) by (bit_vector);
    assert(b < 256 ==> (b & 127) << 0u32 == b % 128) by (bit_vector);
    assert(b < 256 ==> (b & 127) << 7u32 == (b % 128) * 128) by (bit_vector);
    assert(b < 256 ==> (b & 127) << 14u32 == (b % 128) * 16384) by (bit_vector);
    assert(b < 256 ==> (b & 127) << 21u32 == (b % 128) * 2097152) by (bit_vector);
    assert(b < 256 ==> (b & 127) << 28u32 <= 0xf0000000) by (bit_vector);
}

@@ fn MqttOneBytesInt::new
@@ tags C07
    ensures ret.vv() == $0,
@@ fn MqttOneBytesInt::inner
    ensures ret == self.vv(),
@@ members MqttUncheckedDeserialize for MqttOneBytesInt
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for MqttOneBytesInt::fixed_size
@@ fn MqttUncheckedDeserialize for MqttOneBytesInt::unchecked_deserialize
@@ fn MqttSerialize for MqttOneBytesInt::serialize

@@ fn MqttTwoBytesInt::new
    ensures ret.vv() == $0,
@@ fn MqttTwoBytesInt::inner
    ensures ret == self.vv(),
@@ members MqttUncheckedDeserialize for MqttTwoBytesInt
    open spec fn fsz() -> nat { 2 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for MqttTwoBytesInt::fixed_size
@@ fn MqttUncheckedDeserialize for MqttTwoBytesInt::unchecked_deserialize
@@ fn MqttSerialize for MqttTwoBytesInt::serialize

@@ fn MqttFourBytesInt::new
    ensures ret.vv() == $0,
@@ fn MqttFourBytesInt::inner
    ensures ret == self.vv(),
@@ members MqttUncheckedDeserialize for MqttFourBytesInt
    open spec fn fsz() -> nat { 4 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for MqttFourBytesInt::fixed_size
@@ fn MqttUncheckedDeserialize for MqttFourBytesInt::unchecked_deserialize
@@ fn MqttSerialize for MqttFourBytesInt::serialize

@@ fn MqttUtf8String::new
    ensures
        ret is Ok <==> str_ok($0@),
        ret matches Ok(x) ==> x.vv() == $0@,
@@ fn MqttUtf8String::unwrap
    ensures ret@ == self.vv(),
@@ fn MqttUtf8String::inner
    ensures ret@ == self.vv(),
@@ fn MqttUtf8String::verify
    ensures ret is Ok <==> str_ok($0@),
@@ loop 0
    invariant_except_break __acc0 is None,
    invariant __i0 <= __it0.len(), __it0@ == $0@, encode_utf8($0@).len() <= 65535, forall|j: int| 0 <= j < __i0 ==> !is_ctrl(#[trigger] $0@[j]),
    ensures (__acc0 is None) == str_ok($0@),
    decreases __it0.len() - __i0,
@@ fn MqttSerialize for MqttUtf8String::serialize
@@ tail
    proof { assert($0.out() =~= old($0).out() + str_enc(self.vv())); }
@@ fn MqttDeserialize for MqttUtf8String::deserialize
@@ members MqttSize for MqttUtf8String
    open spec fn mlo() -> nat { 1 }
    open spec fn mhi() -> nat { 2 }
@@ fn MqttSize for MqttUtf8String::min_size
@@ fn MqttSize for MqttUtf8String::size

@@ fn MqttVariableBytesInt::new
    ensures
        ret is Ok <==> $0 <= 0xfffffff,
        ret matches Ok(x) ==> x.vv() == $0,
@@ fn MqttVariableBytesInt::inner
    ensures ret == self.vv(),
@@ fn MqttVariableBytesInt::verify
    ensures ret is Ok <==> $0 <= 0xfffffff,
@@ fn MqttSerialize for MqttVariableBytesInt::serialize
@@ loop 0
    invariant_except_break
        x <= 0xfffffff,
        $0.out() + vbi_enc(x as nat) == old($0).out() + vbi_enc(self.i as nat),
    ensures $0.out() == old($0).out() + vbi_enc(self.i as nat),
    decreases x,
@@ loop-body 0
    proof { vbi_step(x); }
    let ghost __o = $0.out();
    let ghost __x = x;
@@ fn MqttDeserialize for MqttVariableBytesInt::deserialize
@@ tags C01
    ensures
        ret matches Ok(x) ==> vbi_parse((*old($0)).bv()) == PR::Ok(x.i as int, dec_len::<Self>((*old($0)).bv())),
        ret matches Err(e) ==> (e is InsufficientBuffer) == (vbi_parse((*old($0)).bv()) is More), //! C05
@@ entry
    let ghost __s = $0.bv();
    let ghost __p = (*$0).pr();
    let ghost mut __k: int = 0;
@@ loop 0
    invariant_except_break
        0 <= __k <= 4, multiplier == 7 * __k, 0 <= value < pow128(__k) || (__k == 4 && 0 <= value < 0x10000000),
        __k < 4 ==> vbi_parse(__s) == vbi_from(__s, __k, value as int),
        __k == 4 ==> vbi_parse(__s) == (if __s.len() <= 4 { PR::<int>::More } else { PR::<int>::Bad }),
        remaining == __s.len() - __k, $0.bv() == __s.skip(__k), (*$0).pr() == __p,
    invariant __s == (*old($0)).bv(), __p == (*old($0)).pr(),
    ensures vbi_parse(__s) == PR::Ok(value as int, __k), $0.bv() == __s.skip(__k), (*$0).pr() == __p, 0 <= __k <= __s.len(), 0 <= value < 0x10000000,
    decreases 5 - __k,
@@ loop-body 0
    proof {
        if __k < __s.len() {
            vbi_read(__s[__k] as u32, value, multiplier);
            if __k < 4 { vbi_from_shape(__s, __k, value as int); }
            reveal_with_fuel(vbi_from, 2);
        }
        __k = __k + 1;
    }
@@ members MqttSize for MqttVariableBytesInt
    open spec fn mlo() -> nat { 1 }
    open spec fn mhi() -> nat { 1 }
@@ fn MqttSize for MqttVariableBytesInt::min_size
@@ fn MqttSize for MqttVariableBytesInt::size
@@ entry
    proof { vbi_enc_len(self.i as nat); }

@@ fn MqttBinaryData::new
    ensures
        ret is Ok <==> $0.bv().len() <= 65535,
        ret matches Ok(x) ==> x.vv() == $0.bv() && x.inv(),
@@ fn MqttBinaryData::inner
    ensures ret@ == self.vv(),
@@ fn MqttBinaryData::verify
    ensures ret is Ok <==> $0@.len() <= 65535,
@@ fn MqttSerialize for MqttBinaryData::serialize
@@ tail
    proof { assert($0.out() =~= old($0).out() + bin_enc(self.vv())); }
@@ fn MqttDeserialize for MqttBinaryData::deserialize
@@ members MqttSize for MqttBinaryData
    open spec fn mlo() -> nat { 1 }
    open spec fn mhi() -> nat { 2 }
@@ fn MqttSize for MqttBinaryData::min_size
@@ fn MqttSize for MqttBinaryData::size

@@ fn MqttUtf8StringPair::new
    ensures
        ret is Ok <==> str_ok($0@) && str_ok($1@),
        ret matches Ok(x) ==> x.vv() == ($0@, $1@) && x.inv(),
@@ fn MqttUtf8StringPair::inner
    ensures ret.0@ == self.vv().0, ret.1@ == self.vv().1,
@@ fn MqttSerialize for MqttUtf8StringPair::serialize
@@ tail
    proof { assert($0.out() =~= old($0).out() + Self::enc(self.vv())); }
@@ fn MqttDeserialize for MqttUtf8StringPair::deserialize
@@ members MqttSize for MqttUtf8StringPair
    open spec fn mlo() -> nat { 2 }
    open spec fn mhi() -> nat { 4 }
@@ fn MqttSize for MqttUtf8StringPair::min_size
@@ fn MqttSize for MqttUtf8StringPair::size
@@ end
