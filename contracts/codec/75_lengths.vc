// Frames: what parses takes exactly the bytes its value is written in; a frame reads the same whatever follows it.
@@ module packet
pub proof fn subs_len(b: Seq<u8>, acc: Seq<SubT>)
    ensures subs_from(b, acc) matches Some(ts) ==> subs_enc(ts).len() == subs_enc(acc).len() + b.len() && ts.len() >= acc.len() && (b.len() > 0 ==> ts.len() > 0)
    decreases b.len()
{
    if b.len() > 0 {
        subs_step(b, acc);
        sub1_len(b);
        if let Some((t, k)) = sub1_parse(b) { assert(acc.push(t).drop_last() =~= acc); subs_len(b.skip(k), acc.push(t)); }
    }
}
pub proof fn tops_len(b: Seq<u8>, acc: Seq<Seq<char>>)
    ensures tops_from(b, acc) matches Some(ts) ==> tops_enc(ts).len() == tops_enc(acc).len() + b.len() && ts.len() >= acc.len() && (b.len() > 0 ==> ts.len() > 0)
    decreases b.len()
{
    if b.len() > 0 {
        tops_step(b, acc);
        top_len(b);
        if let Some((t, k)) = topic_parse(b) { assert(acc.push(t).drop_last() =~= acc); tops_len(b.skip(k), acc.push(t)); }
    }
}
/// the length a value is written in
pub open spec fn body_len(v: PkV) -> nat { match v {
    PkV::Connect(x) => connect_body(x).len(),
    PkV::ConnAck(x) => connack_body(x).len(),
    PkV::Publish(x) => publish_body(x).len(),
    PkV::PubAck(x) => puback_body(x).len(),
    PkV::PubRec(x) => pubrec_body(x).len(),
    PkV::PubRel(x) => pubrel_body(x).len(),
    PkV::PubComp(x) => pubcomp_body(x).len(),
    PkV::Subscribe(x) => subscribe_body(x).len(),
    PkV::SubAck(x) => suback_body(x).len(),
    PkV::Unsubscribe(x) => unsubscribe_body(x).len(),
    PkV::UnsubAck(x) => unsuback_body(x).len(),
    PkV::PingReq(x) => 0,
    PkV::PingRes(x) => 0,
    PkV::Disconnect(x) => disconnect_body(x).len(),
    PkV::Auth(x) => auth_body(x).len(),
} }
pub proof fn publish_len(f: u8, b: Seq<u8>)
    requires pf_ok(f)
    ensures publish_bparse(f, b) matches Some((v, k)) ==> k == publish_body(v).len() && k == b.len() && v.flags == f && (f & 6 != 0 ==> v.id is Some) && esum(v.props) <= 0xfffffff
{
    pf_bits(f);
    str_parse_len(b);
    if let Some((t, i)) = topic_parse(b) { pparse_len(b.skip(i)); pparse_len(b.skip(i + 2)); }
}
pub proof fn subscribe_len(b: Seq<u8>)
    ensures subscribe_bparse(b) matches Some((v, k)) ==> k == subscribe_body(v).len() && v.topics.len() > 0 && k == b.len()
{
    if b.len() >= 2 { pparse_len(b.skip(2)); if let Some((es, k)) = pparse(b.skip(2)) { if 2 + k < b.len() { subs_len(b.skip(2 + k), seq![]); assert(subs_enc(seq![]).len() == 0); } } }
}
pub proof fn unsubscribe_len(b: Seq<u8>)
    ensures unsubscribe_bparse(b) matches Some((v, k)) ==> k == unsubscribe_body(v).len() && v.topics.len() > 0 && k == b.len()
{
    if b.len() >= 2 { pparse_len(b.skip(2)); if let Some((es, k)) = pparse(b.skip(2)) { if 2 + k < b.len() { tops_len(b.skip(2 + k), seq![]); assert(tops_enc(seq![]).len() == 0); } } }
}
/// one packet type at a time: the body takes the length its value is written in
pub open spec fn took(t: PacketType, b1: u8, f: Seq<u8>, n: int, h: int) -> bool { body_parse(t, b1, f) matches Some((v, k)) ==> (k == h + n ==> body_len(v) == n && Packet::fits(v)) }
#[verifier::spinoff_prover]
pub proof fn took_connect(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::Connect, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(connect_bparse); hide(connect_body);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    connect_facts(f);
}
#[verifier::spinoff_prover]
pub proof fn took_connack(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::ConnAck, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(connack_bparse); hide(connack_body);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    connack_facts(f);
}
#[verifier::spinoff_prover]
pub proof fn took_publish(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::Publish, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(publish_bparse); hide(publish_body);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    let g = seq![(b1 % 16) as u8] + f;
    assert(g.skip(1) =~= f);
    assert(g.skip(1 + h).take(n) =~= b);
    if pf_ok(g[0]) { publish_len(g[0], b); }
}
#[verifier::spinoff_prover]
pub proof fn took_subscribe(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::Subscribe, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(subscribe_bparse); hide(subscribe_body);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    subscribe_len(b);
}
#[verifier::spinoff_prover]
pub proof fn took_unsubscribe(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::Unsubscribe, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(unsubscribe_bparse); hide(unsubscribe_body);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    unsubscribe_len(b);
}
#[verifier::spinoff_prover]
pub proof fn took_suback(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::SubAck, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(pparse);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    if b.len() >= 2 { pparse_len(b.skip(2)); }
}
#[verifier::spinoff_prover]
pub proof fn took_unsuback(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::UnsubAck, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(pparse);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    if b.len() >= 2 { pparse_len(b.skip(2)); }
}
#[verifier::spinoff_prover]
pub proof fn took_puback(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::PubAck, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(pparse);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    if b.len() >= 3 { pparse_len(b.skip(3)); }
}
#[verifier::spinoff_prover]
pub proof fn took_pubrec(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::PubRec, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(pparse);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    if b.len() >= 3 { pparse_len(b.skip(3)); }
}
#[verifier::spinoff_prover]
pub proof fn took_pubrel(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::PubRel, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(pparse);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    if b.len() >= 3 { pparse_len(b.skip(3)); }
}
#[verifier::spinoff_prover]
pub proof fn took_pubcomp(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::PubComp, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(pparse);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    if b.len() >= 3 { pparse_len(b.skip(3)); }
}
#[verifier::spinoff_prover]
pub proof fn took_disconnect(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::Disconnect, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(pparse);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    if b.len() >= 1 { pparse_len(b.skip(1)); }
}
#[verifier::spinoff_prover]
pub proof fn took_auth(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::Auth, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map); hide(pparse);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    if b.len() >= 1 { pparse_len(b.skip(1)); }
}
#[verifier::spinoff_prover]
pub proof fn took_pingreq(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::PingReq, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    
}
#[verifier::spinoff_prover]
pub proof fn took_pingres(b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(PacketType::PingRes, b1, f, n, h)
{
    hide(vbi_parse); hide(all_permit); hide(to_map);
    vbi_parse_len(f);
    let b = f.skip(h).take(n);
    
}
pub proof fn body_parse_len(t: PacketType, b1: u8, f: Seq<u8>, n: int, h: int)
    requires vbi_parse(f) == PR::Ok(n, h), f.len() == n + h
    ensures took(t, b1, f, n, h)
{
    hide(body_parse); hide(vbi_parse);
    match t {
        PacketType::Connect => took_connect(b1, f, n, h), PacketType::ConnAck => took_connack(b1, f, n, h), PacketType::Publish => took_publish(b1, f, n, h), PacketType::Subscribe => took_subscribe(b1, f, n, h), PacketType::Unsubscribe => took_unsubscribe(b1, f, n, h), PacketType::SubAck => took_suback(b1, f, n, h), PacketType::UnsubAck => took_unsuback(b1, f, n, h), PacketType::PubAck => took_puback(b1, f, n, h), PacketType::PubRec => took_pubrec(b1, f, n, h), PacketType::PubRel => took_pubrel(b1, f, n, h), PacketType::PubComp => took_pubcomp(b1, f, n, h), PacketType::Disconnect => took_disconnect(b1, f, n, h), PacketType::Auth => took_auth(b1, f, n, h), PacketType::PingReq => took_pingreq(b1, f, n, h), PacketType::PingRes => took_pingres(b1, f, n, h),
        PacketType::Reserved => { reveal(body_parse); }
    }
}
pub proof fn enc_len_of(v: PkV)
    ensures Packet::enc(v).len() == 1 + vbi_enc(body_len(v)).len() + body_len(v)
{
    hide(connect_body); hide(connack_body); hide(publish_body); hide(puback_body); hide(pubrec_body); hide(pubrel_body); hide(pubcomp_body); hide(subscribe_body); hide(suback_body); hide(unsubscribe_body); hide(unsuback_body); hide(disconnect_body); hide(auth_body);
    reveal_with_fuel(vbi_enc, 2);
}
/// what a stream starts with takes exactly the bytes its value is written in, and fits into a frame
pub proof fn packet_len(s: Seq<u8>)
    ensures Packet::parse(s) matches Some((v, k)) ==> Packet::fits(v) && Packet::enc(v).len() == k && 2 <= k <= s.len()
{
    hide(body_parse); hide(vbi_enc);
    if let PR::Ok(n, h) = frame(s) {
        let f = s.skip(1).take(h + n);
        vbi_canon(s.skip(1));
        vbi_agree(s.skip(1), f);
        body_parse_len(byte1_parse(s[0]).unwrap(), s[0], f, n, h);
        if let Some((v, k)) = Packet::parse(s) { enc_len_of(v); assert(s.skip(1).take(h).len() == h); }
    }
}
/// properties in another order take the same length
pub proof fn packet_same_len(a: PkV, b: PkV)
    requires Packet::same(a, b), Packet::fits(a)
    ensures Packet::enc(a).len() == Packet::enc(b).len(), Packet::fits(b)
{
    hide(connect_body);
    enc_len_of(a); enc_len_of(b);
    match (a, b) {
        (PkV::Connect(x), PkV::Connect(y)) => connect_same_len(x, y),
        (PkV::ConnAck(x), PkV::ConnAck(y)) => same_len(x.props, y.props),
        (PkV::Publish(x), PkV::Publish(y)) => same_len(x.props, y.props),
        (PkV::PubAck(x), PkV::PubAck(y)) => same_len(x.props, y.props),
        (PkV::PubRec(x), PkV::PubRec(y)) => same_len(x.props, y.props),
        (PkV::PubRel(x), PkV::PubRel(y)) => same_len(x.props, y.props),
        (PkV::PubComp(x), PkV::PubComp(y)) => same_len(x.props, y.props),
        (PkV::Subscribe(x), PkV::Subscribe(y)) => same_len(x.props, y.props),
        (PkV::SubAck(x), PkV::SubAck(y)) => same_len(x.props, y.props),
        (PkV::Unsubscribe(x), PkV::Unsubscribe(y)) => same_len(x.props, y.props),
        (PkV::UnsubAck(x), PkV::UnsubAck(y)) => same_len(x.props, y.props),
        (PkV::Disconnect(x), PkV::Disconnect(y)) => same_len(x.props, y.props),
        (PkV::Auth(x), PkV::Auth(y)) => same_len(x.props, y.props),
        _ => { }
    }
}
pub proof fn packet_enc_bound(v: PkV)
    requires Packet::fits(v)
    ensures 2 <= Packet::enc(v).len() <= 0x10000004
{
    hide(connect_body); hide(connack_body); hide(publish_body); hide(puback_body); hide(pubrec_body); hide(pubrel_body); hide(pubcomp_body); hide(subscribe_body); hide(suback_body); hide(unsubscribe_body); hide(unsuback_body); hide(disconnect_body); hide(auth_body); hide(pk_enc);
    enc_len_of(v);
    vbi_enc_len(body_len(v));
}
pub proof fn packet_same_sym(a: PkV, b: PkV)
    requires Packet::same(a, b)
    ensures Packet::same(b, a)
{ }
/// the frame at the start of a stream is there or not whatever follows
pub proof fn vbi_more_(s: Seq<u8>, t: Seq<u8>, k: int, acc: int)
    requires 0 <= k < 4, 0 <= acc < pow128(k), s.len() <= t.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == t[i]
    ensures !(vbi_from(s, k, acc) is More) ==> vbi_from(t, k, acc) == vbi_from(s, k, acc)
    decreases 4 - k
{
    reveal_with_fuel(vbi_from, 2);
    vbi_from_shape(s, k, acc);
    if s.len() > k && s[k] >= 128 && k < 3 { assert(0 <= acc + (s[k] as int % 128) * pow128(k) < pow128(k + 1)) by { if k == 0 { assert(pow128(0) == 1 && pow128(1) == 128); } else if k == 1 { assert(pow128(1) == 128 && pow128(2) == 16384); } else { assert(pow128(2) == 16384 && pow128(3) == 2097152); } } vbi_more_(s, t, k + 1, acc + (s[k] as int % 128) * pow128(k)); }
}
pub proof fn frame_prefix(s: Seq<u8>, t: Seq<u8>)
    ensures !(frame(s) is More) ==> frame(s + t) == frame(s),
        frame(s) is Ok ==> Packet::parse(s + t) == Packet::parse(s),
        frame(s) matches PR::Ok(n, h) ==> 1 <= h <= 4 && n >= 0 && 1 + h + n <= s.len(),
{
    hide(body_parse); hide(vbi_parse);
    let u = s + t;
    if s.len() >= 2 {
        assert(u.skip(1) =~= s.skip(1) + t);
        assert(vbi_parse(s.skip(1)) is More || vbi_parse(u.skip(1)) == vbi_parse(s.skip(1))) by { reveal(vbi_parse); vbi_more_(s.skip(1), u.skip(1), 0, 0); }
        vbi_canon(s.skip(1));
        if let PR::Ok(n, h) = frame(s) { assert(u.skip(1).take(h + n) =~= s.skip(1).take(h + n)); }
    }
}
/// a complete frame at the start of a stream is complete in every prefix that holds it
pub proof fn frame_within(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), frame(s) matches PR::Ok(n, h) ==> 1 + h + n <= k
    ensures frame(s) is Ok ==> frame(s.take(k)) == frame(s) && Packet::parse(s.take(k)) == Packet::parse(s)
{
    hide(body_parse); hide(vbi_parse);
    let u = s.take(k);
    if let PR::Ok(n, h) = frame(s) {
        vbi_canon(s.skip(1));
        assert(u.skip(1) =~= s.skip(1).take(k - 1));
        vbi_agree(s.skip(1), u.skip(1));
        assert(u.skip(1).take(h + n) =~= s.skip(1).take(h + n));
    }
}
/// a stream that cannot start with a packet: whatever follows, it will not
pub open spec fn malformed(s: Seq<u8>) -> bool { !(frame(s) is More) && Packet::parse(s) is None }
pub proof fn malformed_stays(s: Seq<u8>, t: Seq<u8>) requires malformed(s) ensures malformed(s + t) { frame_prefix(s, t); if frame(s) is Ok { assert(Packet::parse(s + t) == Packet::parse(s)); } }
@@ end
