@@ module packet
/// the value of a control packet
pub enum PkV { Connect(ConnectV), ConnAck(ConnAckV), Publish(PublishV), PubAck(AckV<PubAckReasonCode>), PubRec(AckV<PubAckReasonCode>), PubRel(AckV<PubRelReasonCode>), PubComp(AckV<PubRelReasonCode>), Subscribe(SubV), SubAck(RcsV<SubAckReasonCode>), Unsubscribe(UnsubV), UnsubAck(RcsV<UnsubAckReasonCode>), PingReq(()), PingRes(()), Disconnect(RcV<DisconnectReasonCode>), Auth(RcV<AuthReasonCode>) }
/// the frame a stream starts with: the length of its body and of its Remaining Length
pub open spec fn frame(s: Seq<u8>) -> PR<int> {
    if s.len() < 2 { PR::More } else if byte1_parse(s[0]) is None || byte1_parse(s[0]) == Some(PacketType::Reserved) { PR::Bad } else {
        match vbi_parse(s.skip(1)) {
            PR::More => PR::More,
            PR::Bad => PR::Bad,
            PR::Ok(n, h) => if s.len() < 1 + h + n { PR::More } else { PR::Ok(n, h) },
        }
    }
}
pub open spec fn body_parse(t: PacketType, b1: u8, f: Seq<u8>) -> Option<(PkV, int)> {
    match t {
        PacketType::Reserved => None,
        PacketType::Connect => match Connect::parse(f) { Some((v, k)) => Some((PkV::Connect(v), k)), None => None },
        PacketType::ConnAck => match ConnAck::parse(f) { Some((v, k)) => Some((PkV::ConnAck(v), k)), None => None },
        PacketType::Publish => match Publish::parse(seq![(b1 % 16) as u8] + f) { Some((v, k)) => Some((PkV::Publish(v), k - 1)), None => None },
        PacketType::PubAck => match PubAck::parse(f) { Some((v, k)) => Some((PkV::PubAck(v), k)), None => None },
        PacketType::PubRec => match PubRec::parse(f) { Some((v, k)) => Some((PkV::PubRec(v), k)), None => None },
        PacketType::PubRel => match PubRel::parse(f) { Some((v, k)) => Some((PkV::PubRel(v), k)), None => None },
        PacketType::PubComp => match PubComp::parse(f) { Some((v, k)) => Some((PkV::PubComp(v), k)), None => None },
        PacketType::Subscribe => match Subscribe::parse(f) { Some((v, k)) => Some((PkV::Subscribe(v), k)), None => None },
        PacketType::SubAck => match SubAck::parse(f) { Some((v, k)) => Some((PkV::SubAck(v), k)), None => None },
        PacketType::Unsubscribe => match Unsubscribe::parse(f) { Some((v, k)) => Some((PkV::Unsubscribe(v), k)), None => None },
        PacketType::UnsubAck => match UnsubAck::parse(f) { Some((v, k)) => Some((PkV::UnsubAck(v), k)), None => None },
        PacketType::PingReq => match Ping::parse(f) { Some((v, k)) => Some((PkV::PingReq(v), k)), None => None },
        PacketType::PingRes => match Ping::parse(f) { Some((v, k)) => Some((PkV::PingRes(v), k)), None => None },
        PacketType::Disconnect => match Disconnect::parse(f) { Some((v, k)) => Some((PkV::Disconnect(v), k)), None => None },
        PacketType::Auth => match Auth::parse(f) { Some((v, k)) => Some((PkV::Auth(v), k)), None => None },
    }
}
pub open spec fn body_must(t: PacketType, b1: u8, f: Seq<u8>) -> bool {
    match t {
        PacketType::Reserved => false,
        PacketType::Connect => Connect::must(f),
        PacketType::ConnAck => ConnAck::must(f),
        PacketType::Publish => Publish::must(seq![(b1 % 16) as u8] + f),
        PacketType::PubAck => PubAck::must(f),
        PacketType::PubRec => PubRec::must(f),
        PacketType::PubRel => PubRel::must(f),
        PacketType::PubComp => PubComp::must(f),
        PacketType::Subscribe => Subscribe::must(f),
        PacketType::SubAck => SubAck::must(f),
        PacketType::Unsubscribe => Unsubscribe::must(f),
        PacketType::UnsubAck => UnsubAck::must(f),
        PacketType::PingReq => Ping::must(f),
        PacketType::PingRes => Ping::must(f),
        PacketType::Disconnect => Disconnect::must(f),
        PacketType::Auth => Auth::must(f),
    }
}
pub open spec fn pk_same(a: PkV, b: PkV) -> bool {
    match (a, b) {
        (PkV::Connect(x), PkV::Connect(y)) => Connect::same(x, y),
        (PkV::ConnAck(x), PkV::ConnAck(y)) => ConnAck::same(x, y),
        (PkV::Publish(x), PkV::Publish(y)) => Publish::same(x, y),
        (PkV::PubAck(x), PkV::PubAck(y)) => PubAck::same(x, y),
        (PkV::PubRec(x), PkV::PubRec(y)) => PubRec::same(x, y),
        (PkV::PubRel(x), PkV::PubRel(y)) => PubRel::same(x, y),
        (PkV::PubComp(x), PkV::PubComp(y)) => PubComp::same(x, y),
        (PkV::Subscribe(x), PkV::Subscribe(y)) => Subscribe::same(x, y),
        (PkV::SubAck(x), PkV::SubAck(y)) => SubAck::same(x, y),
        (PkV::Unsubscribe(x), PkV::Unsubscribe(y)) => Unsubscribe::same(x, y),
        (PkV::UnsubAck(x), PkV::UnsubAck(y)) => UnsubAck::same(x, y),
        (PkV::PingReq(x), PkV::PingReq(y)) => Ping::same(x, y),
        (PkV::PingRes(x), PkV::PingRes(y)) => Ping::same(x, y),
        (PkV::Disconnect(x), PkV::Disconnect(y)) => Disconnect::same(x, y),
        (PkV::Auth(x), PkV::Auth(y)) => Auth::same(x, y),
        _ => false,
    }
}
pub open spec fn pk_vv(x: Packet) -> PkV { match x {
    Packet::Connect(p) => PkV::Connect(p.vv()),
    Packet::ConnAck(p) => PkV::ConnAck(p.vv()),
    Packet::Publish(p) => PkV::Publish(p.vv()),
    Packet::PubAck(p) => PkV::PubAck(p.vv()),
    Packet::PubRec(p) => PkV::PubRec(p.vv()),
    Packet::PubRel(p) => PkV::PubRel(p.vv()),
    Packet::PubComp(p) => PkV::PubComp(p.vv()),
    Packet::Subscribe(p) => PkV::Subscribe(p.vv()),
    Packet::SubAck(p) => PkV::SubAck(p.vv()),
    Packet::Unsubscribe(p) => PkV::Unsubscribe(p.vv()),
    Packet::UnsubAck(p) => PkV::UnsubAck(p.vv()),
    Packet::PingReq(p) => PkV::PingReq(p.vv()),
    Packet::PingRes(p) => PkV::PingRes(p.vv()),
    Packet::Disconnect(p) => PkV::Disconnect(p.vv()),
    Packet::Auth(p) => PkV::Auth(p.vv()),
} }
pub open spec fn pk_inv(x: Packet) -> bool { match x {
    Packet::Connect(p) => p.inv(),
    Packet::ConnAck(p) => p.inv(),
    Packet::Publish(p) => p.inv(),
    Packet::PubAck(p) => p.inv(),
    Packet::PubRec(p) => p.inv(),
    Packet::PubRel(p) => p.inv(),
    Packet::PubComp(p) => p.inv(),
    Packet::Subscribe(p) => p.inv(),
    Packet::SubAck(p) => p.inv(),
    Packet::Unsubscribe(p) => p.inv(),
    Packet::UnsubAck(p) => p.inv(),
    Packet::PingReq(p) => p.inv(),
    Packet::PingRes(p) => p.inv(),
    Packet::Disconnect(p) => p.inv(),
    Packet::Auth(p) => p.inv(),
} }
pub open spec fn pk_fits(v: PkV) -> bool { match v {
    PkV::Connect(x) => Connect::fits(x),
    PkV::ConnAck(x) => ConnAck::fits(x),
    PkV::Publish(x) => Publish::fits(x) && pf_ok(x.flags),
    PkV::PubAck(x) => PubAck::fits(x),
    PkV::PubRec(x) => PubRec::fits(x),
    PkV::PubRel(x) => PubRel::fits(x),
    PkV::PubComp(x) => PubComp::fits(x),
    PkV::Subscribe(x) => Subscribe::fits(x),
    PkV::SubAck(x) => SubAck::fits(x),
    PkV::Unsubscribe(x) => Unsubscribe::fits(x),
    PkV::UnsubAck(x) => UnsubAck::fits(x),
    PkV::PingReq(x) => Ping::fits(x),
    PkV::PingRes(x) => Ping::fits(x),
    PkV::Disconnect(x) => Disconnect::fits(x),
    PkV::Auth(x) => Auth::fits(x),
} }
pub open spec fn pk_enc(v: PkV) -> Seq<u8> { match v {
    PkV::Connect(x) => seq![16u8] + Connect::enc(x),
    PkV::ConnAck(x) => seq![32u8] + ConnAck::enc(x),
    PkV::Publish(x) => seq![(48 + x.flags) as u8] + Publish::enc(x),
    PkV::PubAck(x) => seq![64u8] + PubAck::enc(x),
    PkV::PubRec(x) => seq![80u8] + PubRec::enc(x),
    PkV::PubRel(x) => seq![98u8] + PubRel::enc(x),
    PkV::PubComp(x) => seq![112u8] + PubComp::enc(x),
    PkV::Subscribe(x) => seq![130u8] + Subscribe::enc(x),
    PkV::SubAck(x) => seq![144u8] + SubAck::enc(x),
    PkV::Unsubscribe(x) => seq![162u8] + Unsubscribe::enc(x),
    PkV::UnsubAck(x) => seq![176u8] + UnsubAck::enc(x),
    PkV::PingReq(x) => seq![192u8] + Ping::enc(x),
    PkV::PingRes(x) => seq![208u8] + Ping::enc(x),
    PkV::Disconnect(x) => seq![224u8] + Disconnect::enc(x),
    PkV::Auth(x) => seq![240u8] + Auth::enc(x),
} }
/// the one packet the stream starts with: only from a complete frame, only if the packet takes exactly that frame
pub open spec fn pk_parse(s: Seq<u8>) -> Option<(PkV, int)> {
    match frame(s) {
        PR::Ok(n, h) => match body_parse(byte1_parse(s[0]).unwrap(), s[0], s.skip(1).take(h + n)) {
            Some((v, k)) => if k == h + n { Some((v, 1 + h + n)) } else { None },
            None => None,
        },
        _ => None,
    }
}
impl Wire for Packet {
    type V = PkV;
    open spec fn vv(&self) -> PkV { pk_vv(*self) }
    open spec fn inv(&self) -> bool { pk_inv(*self) }
    open spec fn fits(v: PkV) -> bool { pk_fits(v) }
    open spec fn same(a: PkV, b: PkV) -> bool { pk_same(a, b) }
    open spec fn enc(v: PkV) -> Seq<u8> { pk_enc(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(PkV, int)> { pk_parse(s) }
    open spec fn must(s: Seq<u8>) -> bool { pk_parse(s) is Some }
}
pub proof fn vbi_agree_(s: Seq<u8>, t: Seq<u8>, k: int, acc: int)
    requires 0 <= k < 4, 0 <= acc < pow128(k),
        vbi_from(s, k, acc) matches PR::Ok(n, h) ==> t.len() >= h && forall|i: int| 0 <= i < h ==> s[i] == t[i]
    ensures vbi_from(s, k, acc) is Ok ==> vbi_from(t, k, acc) == vbi_from(s, k, acc)
    decreases 4 - k
{
    reveal_with_fuel(vbi_from, 2);
    vbi_from_shape(s, k, acc);
    if s.len() > k && s[k] >= 128 && k < 3 { vbi_agree_(s, t, k + 1, acc + (s[k] as int % 128) * pow128(k)); }
}
/// a Remaining Length reads the same whatever follows it
pub proof fn vbi_agree(s: Seq<u8>, t: Seq<u8>)
    requires vbi_parse(s) matches PR::Ok(n, h) ==> t.len() >= h && forall|i: int| 0 <= i < h ==> s[i] == t[i]
    ensures vbi_parse(s) is Ok ==> vbi_parse(t) == vbi_parse(s)
{ vbi_agree_(s, t, 0, 0); }
/// the bytes of a Remaining Length are determined by its value
pub proof fn vbi_canon(s: Seq<u8>)
    ensures vbi_parse(s) matches PR::Ok(n, h) ==> 1 <= h <= 4 && h <= s.len() && 0 <= n <= 0xfffffff && s.take(h) == vbi_enc(n as nat)
{
    vbi_parse_len(s);
    if let PR::Ok(n, h) = vbi_parse(s) { vbi_canon_(s, 0, 0); assert(n / 1 == n); assert(s.subrange(0, h) =~= s.take(h)); }
}
pub proof fn vbi_canon_(s: Seq<u8>, k: int, acc: int)
    requires 0 <= k < 4, 0 <= acc < pow128(k)
    ensures vbi_from(s, k, acc) matches PR::Ok(n, h) ==> k < h <= 4 && h <= s.len() && n >= acc && n % pow128(k) == acc && s.subrange(k, h) == vbi_enc((n / pow128(k)) as nat) && (k > 0 ==> n / pow128(k) > 0)
    decreases 4 - k
{
    reveal_with_fuel(vbi_from, 2);
    reveal_with_fuel(vbi_enc, 2);
    vbi_from_shape(s, k, acc);
    if s.len() > k {
        let b = s[k] as int;
        let v = acc + (b % 128) * pow128(k);
        let d = b % 128;
        assert(v < pow128(k) * 128 && v % pow128(k) == acc && v / pow128(k) == d) by {
            if k == 0 { assert(pow128(k) == 1); } else if k == 1 { assert(pow128(k) == 128); } else if k == 2 { assert(pow128(k) == 16384); } else { assert(pow128(k) == 2097152); }
        }
        if b < 128 { assert(d == b); if let PR::Ok(n, h) = vbi_from(s, k, acc) { assert(n == v && h == k + 1); assert(s.subrange(k, h) =~= seq![s[k]]); assert(vbi_enc(d as nat) =~= seq![d as u8]); } }
        else if k < 3 {
            assert(d == b - 128);
            assert(pow128(k + 1) == pow128(k) * 128);
            vbi_canon_(s, k + 1, v);
            if let PR::Ok(n, h) = vbi_from(s, k, acc) {
                assert(vbi_from(s, k, acc) == vbi_from(s, k + 1, v));
                let q = n / pow128(k);
                assert(q / 128 == n / pow128(k + 1) && q % 128 == d && n % pow128(k) == acc && q >= 128) by {
                    if k == 0 { assert(pow128(k) == 1 && pow128(k + 1) == 128); } else if k == 1 { assert(pow128(k) == 128 && pow128(k + 1) == 16384); } else { assert(pow128(k) == 16384 && pow128(k + 1) == 2097152); }
                }
                assert(s.subrange(k, h) =~= seq![s[k]] + s.subrange(k + 1, h));
                assert(vbi_enc(q as nat) == seq![(q as nat % 128 + 128) as u8] + vbi_enc(q as nat / 128));
            }
        }
    }
}
/// a body that takes exactly its frame is one the packet type has to accept
pub proof fn must_of(t: PacketType, b1: u8, f: Seq<u8>)
    requires vbi_parse(f) matches PR::Ok(n, h) && f.len() == n + h
    ensures body_parse(t, b1, f) matches Some((v, k)) && k == f.len() ==> body_must(t, b1, f)
{
    hide(connect_bparse); hide(connack_bparse); hide(publish_bparse); hide(puback_bparse); hide(pubrec_bparse); hide(pubrel_bparse); hide(pubcomp_bparse); hide(subscribe_bparse); hide(suback_bparse); hide(unsubscribe_bparse); hide(unsuback_bparse); hide(disconnect_bparse); hide(auth_bparse); hide(vbi_parse);
}
pub proof fn b1_bits(f: u8)
    ensures (1u8 << 4usize) | 0u8 == 16, (2u8 << 4usize) | 0u8 == 32, (4u8 << 4usize) | 0u8 == 64, (5u8 << 4usize) | 0u8 == 80, (6u8 << 4usize) | 2u8 == 98, (7u8 << 4usize) | 0u8 == 112, (8u8 << 4usize) | 2u8 == 130, (9u8 << 4usize) | 0u8 == 144, (10u8 << 4usize) | 2u8 == 162, (11u8 << 4usize) | 0u8 == 176, (12u8 << 4usize) | 0u8 == 192, (13u8 << 4usize) | 0u8 == 208, (14u8 << 4usize) | 0u8 == 224, (15u8 << 4usize) | 0u8 == 240,
        f < 16 ==> (3u8 << 4usize) | f == 48 + f, pf_ok(f) ==> f < 16,
{
    assert((1u8 << 4usize) | 0u8 == 16) by (bit_vector);
    assert((2u8 << 4usize) | 0u8 == 32) by (bit_vector);
    assert((4u8 << 4usize) | 0u8 == 64) by (bit_vector);
    assert((5u8 << 4usize) | 0u8 == 80) by (bit_vector);
    assert((6u8 << 4usize) | 2u8 == 98) by (bit_vector);
    assert((7u8 << 4usize) | 0u8 == 112) by (bit_vector);
    assert((8u8 << 4usize) | 2u8 == 130) by (bit_vector);
    assert((9u8 << 4usize) | 0u8 == 144) by (bit_vector);
    assert((10u8 << 4usize) | 2u8 == 162) by (bit_vector);
    assert((11u8 << 4usize) | 0u8 == 176) by (bit_vector);
    assert((12u8 << 4usize) | 0u8 == 192) by (bit_vector);
    assert((13u8 << 4usize) | 0u8 == 208) by (bit_vector);
    assert((14u8 << 4usize) | 0u8 == 224) by (bit_vector);
    assert((15u8 << 4usize) | 0u8 == 240) by (bit_vector);
    assert(f < 16 ==> (3u8 << 4usize) | f == 48 + f) by (bit_vector);
}
@@ fn Packet::to_bytes
@@ tags C03,C08
    requires self.inv(), Packet::fits(self.vv()),
    ensures (*final($0)).out() == (*old($0)).out() + Packet::enc(self.vv()),
@@ fn Packet::from_bytes
@@ tags C01
    ensures
        ret matches Ok(x) ==> dec_ok((*old($0)).bv(), x) && adv(*old($0), *final($0), dec_len::<Packet>((*old($0)).bv())), //! C02,C04,C06,C10
        ret is Err ==> !Packet::must((*old($0)).bv()), //! C02,C06,C10
        ret matches Err(e) ==> (e is InsufficientBuffer <==> frame((*old($0)).bv()) is More), //! C05
@@ fn Packet::frame_len
@@ tags C03
    requires self.inv(), Packet::fits(self.vv()),
    ensures ret == Packet::enc(self.vv()).len(),
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
@@ entry
    hide(connect_body); hide(connack_body); hide(publish_body); hide(puback_body); hide(pubrec_body); hide(pubrel_body); hide(pubcomp_body); hide(subscribe_body); hide(suback_body); hide(unsubscribe_body); hide(unsuback_body); hide(disconnect_body); hide(auth_body); hide(vbi_enc);
    proof { match self.vv() { PkV::Connect(x) => vbi_enc_len(connect_body(x).len()), PkV::ConnAck(x) => vbi_enc_len(connack_body(x).len()), PkV::Publish(x) => vbi_enc_len(publish_body(x).len()), PkV::PubAck(x) => vbi_enc_len(puback_body(x).len()), PkV::PubRec(x) => vbi_enc_len(pubrec_body(x).len()), PkV::PubRel(x) => vbi_enc_len(pubrel_body(x).len()), PkV::PubComp(x) => vbi_enc_len(pubcomp_body(x).len()), PkV::Subscribe(x) => vbi_enc_len(subscribe_body(x).len()), PkV::SubAck(x) => vbi_enc_len(suback_body(x).len()), PkV::Unsubscribe(x) => vbi_enc_len(unsubscribe_body(x).len()), PkV::UnsubAck(x) => vbi_enc_len(unsuback_body(x).len()), PkV::Disconnect(x) => vbi_enc_len(disconnect_body(x).len()), PkV::Auth(x) => vbi_enc_len(auth_body(x).len()), _ => {} } }
@@ fn MqttSerialize for Packet::serialize
@@ tags C02,C08
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
@@ entry
    hide(connect_body); hide(connack_body); hide(publish_body); hide(puback_body); hide(pubrec_body); hide(pubrel_body); hide(pubcomp_body); hide(subscribe_body); hide(suback_body); hide(unsubscribe_body); hide(unsuback_body); hide(disconnect_body); hide(auth_body); hide(vbi_enc);
    proof { b1_bits(match self.vv() { PkV::Publish(x) => x.flags, _ => 0 }); }
@@ fn MqttDeserialize for Packet::deserialize
@@ tags C01
    ensures ret matches Err(e) ==> (e is InsufficientBuffer <==> frame((*old($0)).bv()) is More), //! C05
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
@@ entry
    hide(body_parse); hide(body_must); hide(vbi_parse); hide(vbi_enc); hide(byte1_parse); hide(pk_same);
    let ghost s = $0.bv();
    let ghost h = if let PR::Ok(n, h) = vbi_parse(s.skip(1)) { h } else { 0 };
    let ghost n = if let PR::Ok(n, h) = vbi_parse(s.skip(1)) { n } else { 0 };
    let ghost f = s.skip(1).take(h + n);
    proof { if s.len() >= 1 { vbi_canon(s.skip(1)); if vbi_parse(s.skip(1)) is Ok && s.len() >= 1 + h + n { vbi_agree(s.skip(1), f); if byte1_parse(s[0]) is Some { must_of(byte1_parse(s[0]).unwrap(), s[0], f); } } } }
@@ let frame
    proof { assert(frame.bv() =~= f); }
@@ fn Packet::deserialize_frame
@@ tags C01,C06
    requires (*old($2)).bv().len() >= 1,
    ensures
        ret matches Ok(x) ==> (body_parse($0, $1, (*old($2)).bv()) matches Some((v, k)) && Packet::same(x.vv(), v) && x.inv() && adv(*old($2), *final($2), k)),
        ret is Err ==> !body_must($0, $1, (*old($2)).bv()),
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@@ entry
    hide(connect_bparse); hide(connack_bparse); hide(publish_bparse); hide(puback_bparse); hide(pubrec_bparse); hide(pubrel_bparse); hide(pubcomp_bparse); hide(subscribe_bparse); hide(suback_bparse); hide(unsubscribe_bparse); hide(unsuback_bparse); hide(disconnect_bparse); hide(auth_bparse); hide(vbi_parse);
    proof { nibbles($1); assert((seq![($1 % 16) as u8] + $2.bv()).skip(1) =~= $2.bv()); }
@@ let buf
    proof { assert(buf.bv() =~= seq![($1 % 16) as u8] + buf.b.bv()); publish_facts(buf.bv()); if let Some((v, k)) = Publish::parse(buf.bv()) { assert(1 <= k); assert(buf.bv().skip(k) =~= buf.b.bv().skip(k - 1)); } }
@@ end
