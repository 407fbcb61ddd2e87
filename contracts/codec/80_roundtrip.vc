// What is written reads back: for every value a program can hold, the bytes it is written in parse to a value with the
// same observable fields, take all of their length and no more, and have to be accepted.
@@ module roundtrip
pub proof fn rt_vbi_(x: nat, s: Seq<u8>, k: int, acc: int)
    requires 0 <= k < 4, 0 <= acc < pow128(k), x * pow128(k) + acc <= 0xfffffff, k > 0 ==> x > 0,
        s.len() >= k + vbi_enc(x).len(), s.subrange(k, k + vbi_enc(x).len()) == vbi_enc(x)
    ensures vbi_from(s, k, acc) == PR::Ok(x * pow128(k) + acc, k + vbi_enc(x).len())
    decreases 4 - k
{
    reveal_with_fuel(vbi_from, 2);
    reveal_with_fuel(vbi_enc, 2);
    let e = vbi_enc(x);
    assert(e.len() >= 1);
    assert(s.subrange(k, k + e.len())[0] == s[k]);
    if k == 0 { assert(pow128(0) == 1); assert(pow128(1) == 128); }
    else if k == 1 { assert(pow128(1) == 128); assert(pow128(2) == 16384); }
    else if k == 2 { assert(pow128(2) == 16384); assert(pow128(3) == 2097152); }
    else { assert(pow128(3) == 2097152); }
    if x >= 128 {
        let b = (x % 128 + 128) as u8;
        assert(e[0] == b);
        assert(b as int % 128 == x % 128);
        assert(k < 3) by { if k == 3 { assert(x * 2097152 >= 128 * 2097152); } }
        let v = acc + (s[k] as int % 128) * pow128(k);
        let y = x / 128;
        assert(x == y * 128 + x % 128);
        assert(s.subrange(k + 1, k + 1 + vbi_enc(y).len()) =~= vbi_enc(y)) by {
            assert(e.skip(1) =~= vbi_enc(y));
            assert forall|i: int| 0 <= i < vbi_enc(y).len() implies s.subrange(k + 1, k + 1 + vbi_enc(y).len())[i] == vbi_enc(y)[i] by { assert(s.subrange(k, k + e.len())[i + 1] == e[i + 1]); assert(e[i + 1] == e.skip(1)[i]); }
        }
        if k == 0 { assert(y * 128 + v == x + acc); } else if k == 1 { assert(y * 16384 + v == x * 128 + acc); } else { assert(y * 2097152 + v == x * 16384 + acc); }
        rt_vbi_(y, s, k + 1, v);
    }
}
/// a variable byte integer
pub proof fn rt_vbi(x: nat, t: Seq<u8>)
    requires x <= 0xfffffff
    ensures vbi_parse(vbi_enc(x) + t) == PR::Ok(x as int, vbi_enc(x).len() as int), vbi(vbi_enc(x) + t) == Some((x as int, vbi_enc(x).len() as int))
{
    let s = vbi_enc(x) + t;
    assert(s.subrange(0, vbi_enc(x).len() as int) =~= vbi_enc(x));
    rt_vbi_(x, s, 0, 0);
}
pub proof fn rt_be16(n: int, t: Seq<u8>)
    requires 0 <= n <= 65535
    ensures ru16(be16(n) + t) == n, be16(n).len() == 2, (be16(n) + t).skip(2) =~= t
{ assert((be16(n) + t)[0] == be16(n)[0]); assert((be16(n) + t)[1] == be16(n)[1]); }
pub proof fn rt_be32(n: int, t: Seq<u8>)
    requires 0 <= n <= 0xffffffff
    ensures ru32(be32(n) + t) == n, be32(n).len() == 4
{ assert forall|i: int| 0 <= i < 4 implies (be32(n) + t)[i] == be32(n)[i] by { } }
pub proof fn rt_str(c: Seq<char>, t: Seq<u8>)
    requires str_ok(c)
    ensures str_parse(str_enc(c) + t) == Some((c, str_enc(c).len() as int)), (str_enc(c) + t).skip(str_enc(c).len() as int) =~= t
{
    let u = encode_utf8(c);
    let s = str_enc(c) + t;
    rt_be16(u.len() as int, u + t);
    assert(s =~= be16(u.len() as int) + (u + t));
    assert(s.skip(2).take(u.len() as int) =~= u);
    encode_utf8_valid_utf8(c);
    encode_utf8_decode_utf8(c);
}
pub proof fn rt_topic(c: Seq<char>, t: Seq<u8>)
    requires tstr_ok(c)
    ensures topic_parse(str_enc(c) + t) == Some((c, str_enc(c).len() as int)), (str_enc(c) + t).skip(str_enc(c).len() as int) =~= t
{ rt_str(c, t); }
pub proof fn rt_bin(c: Seq<u8>, t: Seq<u8>)
    requires c.len() <= 65535
    ensures bin_parse(bin_enc(c) + t) == Some((c, bin_enc(c).len() as int)), (bin_enc(c) + t).skip(bin_enc(c).len() as int) =~= t
{
    let s = bin_enc(c) + t;
    rt_be16(c.len() as int, c + t);
    assert(s =~= be16(c.len() as int) + (c + t));
    assert(s.skip(2).take(c.len() as int) =~= c);
}
/// a property value
pub proof fn rt_pv(v: PV, t: Seq<u8>)
    requires pv_ok(v)
    ensures pv_parse(pv_kind(v), pv_enc(v) + t) == Some((v, pv_enc(v).len() as int))
{
    let s = pv_enc(v) + t;
    match v {
        PV::Bool(b) => { assert(s[0] == b); }
        PV::Byte(b) => { assert(s[0] == b); }
        PV::FourBytesInt(n) => { rt_be32(n as int, t); }
        PV::String(c) => { rt_str(c, t); }
        PV::StringPair(a, b) => {
            rt_str(a, str_enc(b) + t);
            rt_str(b, t);
            assert(s =~= str_enc(a) + (str_enc(b) + t));
        }
        PV::Data(d) => { rt_bin(d, t); }
        PV::VarInt(n) => { rt_vbi(n as nat, t); }
        PV::TwoBytesInt(n) => { rt_be16(n as int, t); }
    }
}
/// a property
pub proof fn rt_ent(e: Ent, t: Seq<u8>)
    requires ent_ok(e)
    ensures ent_parse(ent_enc(e) + t) == Some((e, ent_enc(e).len() as int)), (ent_enc(e) + t).skip(ent_enc(e).len() as int) =~= t
{
    code_of(e.0);
    let h = vbi_enc(code(e.0));
    let s = ent_enc(e) + t;
    assert(s =~= h + (pv_enc(e.1) + t));
    rt_vbi(code(e.0), pv_enc(e.1) + t);
    assert(s.skip(h.len() as int) =~= pv_enc(e.1) + t);
    rt_pv(e.1, t);
}
pub proof fn eenc_cons(es: Seq<Ent>)
    requires es.len() > 0
    ensures eenc(es) == ent_enc(es[0]) + eenc(es.skip(1))
    decreases es.len()
{
    if es.len() == 1 {
        assert(es.skip(1) =~= seq![]);
        assert(es.drop_last() =~= seq![]);
        assert(eenc(es) =~= ent_enc(es[0]) + eenc(es.skip(1)));
    } else {
        eenc_cons(es.drop_last());
        assert(es.drop_last().skip(1) =~= es.skip(1).drop_last());
        assert(es.skip(1).last() == es.last());
        assert(eenc(es) =~= ent_enc(es[0]) + eenc(es.skip(1)));
    }
}
/// a table never loses a value
pub proof fn rt_map_grows(es: Seq<Ent>, i: int, k: Property)
    requires 0 <= i <= es.len(), to_map(es.take(i)).contains_key(k)
    ensures to_map(es).contains_key(k), to_map(es)[k].len() >= to_map(es.take(i))[k].len()
    decreases es.len()
{
    if i < es.len() {
        let d = es.drop_last();
        assert(d.take(i) =~= es.take(i));
        rt_map_grows(d, i, k);
    } else { assert(es.take(i) =~= es); }
}
pub proof fn rt_map_has(es: Seq<Ent>, k: Property)
    requires to_map(es).contains_key(k)
    ensures to_map(es)[k].len() > 0
    decreases es.len()
{
    if es.len() > 0 { if es.last().0 != k { rt_map_has(es.drop_last(), k); } }
}
/// a property that may appear once appears once
pub proof fn rt_once(es: Seq<Ent>, i: int)
    requires map_ok(to_map(es)), 0 <= i < es.len()
    ensures !multi(es[i].0) ==> !to_map(es.take(i)).contains_key(es[i].0)
{
    let k = es[i].0;
    if !multi(k) && to_map(es.take(i)).contains_key(k) {
        rt_map_has(es.take(i), k);
        let n = es.take(i + 1);
        assert(n.drop_last() =~= es.take(i));
        assert(n.last() == es[i]);
        assert(to_map(n)[k].len() >= 2);
        rt_map_grows(es, i + 1, k);
        assert(to_map(es)[k].len() == 1);
    }
}
pub proof fn rt_ents(es: Seq<Ent>, i: int)
    requires map_ok(to_map(es)), ients_ok(es), 0 <= i <= es.len()
    ensures efrom(eenc(es.skip(i)), es.take(i)) == Some(es)
    decreases es.len() - i
{
    let b = eenc(es.skip(i));
    if i == es.len() {
        assert(es.skip(i) =~= seq![]);
        assert(es.take(i) =~= es);
    } else {
        let r = es.skip(i);
        eenc_cons(r);
        assert(r[0] == es[i]);
        assert(r.skip(1) =~= es.skip(i + 1));
        rt_ent(es[i], eenc(es.skip(i + 1)));
        ent_len_bound(es[i]);
        rt_once(es, i);
        assert(b.skip(ent_enc(es[i]).len() as int) =~= eenc(es.skip(i + 1)));
        assert(es.take(i).push(es[i]) =~= es.take(i + 1));
        efrom_step(b, es.take(i));
        rt_ents(es, i + 1);
    }
}
/// a property list
pub proof fn rt_props(es: Seq<Ent>, t: Seq<u8>)
    requires map_ok(to_map(es)), ients_ok(es), esum(es) <= 0xfffffff
    ensures pparse(Properties::enc(es) + t) == Some((es, Properties::enc(es).len() as int)), (Properties::enc(es) + t).skip(Properties::enc(es).len() as int) =~= t
{
    esum_pos(es);
    eenc_len(es);
    let h = vbi_enc(esum(es) as nat);
    let s = Properties::enc(es) + t;
    assert(s =~= h + (eenc(es) + t));
    rt_vbi(esum(es) as nat, eenc(es) + t);
    assert(s.skip(h.len() as int).take(esum(es)) =~= eenc(es));
    assert(es.skip(0) =~= es);
    assert(es.take(0) =~= seq![]);
    rt_ents(es, 0);
}
/// a Remaining Length and the bytes it announces
pub proof fn rt_frame(body: Seq<u8>, t: Seq<u8>)
    requires body.len() <= 0xfffffff
    ensures
        vbi_parse(vbi_enc(body.len()) + body + t) == PR::Ok(body.len() as int, vbi_enc(body.len()).len() as int),
        (vbi_enc(body.len()) + body + t).skip(vbi_enc(body.len()).len() as int).take(body.len() as int) =~= body,
        1 <= vbi_enc(body.len()).len() <= 4,
{
    assert(vbi_enc(body.len()) + body + t =~= vbi_enc(body.len()) + (body + t));
    rt_vbi(body.len(), body + t);
    vbi_enc_len(body.len());
}
/// PubAck
#[verifier::spinoff_prover]
pub proof fn rt_puback(v: AckV<PubAckReasonCode>, t: Seq<u8>)
    requires puback_ok(v), PubAck::fits(v)
    ensures PubAck::parse(PubAck::enc(v) + t) == Some((v, PubAck::enc(v).len() as int)), PubAck::must(PubAck::enc(v) + t), vbi(PubAck::enc(v) + t) == Some((puback_body(v).len() as int, vbi_enc(puback_body(v).len()).len() as int)),
{
    let b = puback_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    puback_rt(v.rc);
    rt_props(v.props, seq![]);
    assert(p + seq![] =~= p);
    rt_be16(v.id as int, seq![puback_code(v.rc)] + p);
    assert(b =~= be16(v.id as int) + (seq![puback_code(v.rc)] + p));
    assert(b[2] == puback_code(v.rc));
    assert(b.skip(3) =~= p);
    assert(puback_bparse(b) == Some((v, b.len() as int)));
}
/// PubRec
#[verifier::spinoff_prover]
pub proof fn rt_pubrec(v: AckV<PubAckReasonCode>, t: Seq<u8>)
    requires pubrec_ok(v), PubRec::fits(v)
    ensures PubRec::parse(PubRec::enc(v) + t) == Some((v, PubRec::enc(v).len() as int)), PubRec::must(PubRec::enc(v) + t), vbi(PubRec::enc(v) + t) == Some((pubrec_body(v).len() as int, vbi_enc(pubrec_body(v).len()).len() as int)),
{
    let b = pubrec_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    puback_rt(v.rc);
    rt_props(v.props, seq![]);
    assert(p + seq![] =~= p);
    rt_be16(v.id as int, seq![puback_code(v.rc)] + p);
    assert(b =~= be16(v.id as int) + (seq![puback_code(v.rc)] + p));
    assert(b[2] == puback_code(v.rc));
    assert(b.skip(3) =~= p);
    assert(pubrec_bparse(b) == Some((v, b.len() as int)));
}
/// PubRel
#[verifier::spinoff_prover]
pub proof fn rt_pubrel(v: AckV<PubRelReasonCode>, t: Seq<u8>)
    requires pubrel_ok(v), PubRel::fits(v)
    ensures PubRel::parse(PubRel::enc(v) + t) == Some((v, PubRel::enc(v).len() as int)), PubRel::must(PubRel::enc(v) + t), vbi(PubRel::enc(v) + t) == Some((pubrel_body(v).len() as int, vbi_enc(pubrel_body(v).len()).len() as int)),
{
    let b = pubrel_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    pubrel_rt(v.rc);
    rt_props(v.props, seq![]);
    assert(p + seq![] =~= p);
    rt_be16(v.id as int, seq![pubrel_code(v.rc)] + p);
    assert(b =~= be16(v.id as int) + (seq![pubrel_code(v.rc)] + p));
    assert(b[2] == pubrel_code(v.rc));
    assert(b.skip(3) =~= p);
    assert(pubrel_bparse(b) == Some((v, b.len() as int)));
}
/// PubComp
#[verifier::spinoff_prover]
pub proof fn rt_pubcomp(v: AckV<PubRelReasonCode>, t: Seq<u8>)
    requires pubcomp_ok(v), PubComp::fits(v)
    ensures PubComp::parse(PubComp::enc(v) + t) == Some((v, PubComp::enc(v).len() as int)), PubComp::must(PubComp::enc(v) + t), vbi(PubComp::enc(v) + t) == Some((pubcomp_body(v).len() as int, vbi_enc(pubcomp_body(v).len()).len() as int)),
{
    let b = pubcomp_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    pubrel_rt(v.rc);
    rt_props(v.props, seq![]);
    assert(p + seq![] =~= p);
    rt_be16(v.id as int, seq![pubrel_code(v.rc)] + p);
    assert(b =~= be16(v.id as int) + (seq![pubrel_code(v.rc)] + p));
    assert(b[2] == pubrel_code(v.rc));
    assert(b.skip(3) =~= p);
    assert(pubcomp_bparse(b) == Some((v, b.len() as int)));
}
/// Auth
#[verifier::spinoff_prover]
pub proof fn rt_auth(v: RcV<AuthReasonCode>, t: Seq<u8>)
    requires auth_ok(v), Auth::fits(v)
    ensures Auth::parse(Auth::enc(v) + t) == Some((v, Auth::enc(v).len() as int)), Auth::must(Auth::enc(v) + t), vbi(Auth::enc(v) + t) == Some((auth_body(v).len() as int, vbi_enc(auth_body(v).len()).len() as int)),
{
    let b = auth_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    auth_rt(v.rc);
    rt_props(v.props, seq![]);
    assert(p + seq![] =~= p);
    assert(b[0] == auth_code(v.rc));
    assert(b.skip(1) =~= p);
    assert(auth_bparse(b) == Some((v, b.len() as int)));
}
/// Disconnect
#[verifier::spinoff_prover]
pub proof fn rt_disconnect(v: RcV<DisconnectReasonCode>, t: Seq<u8>)
    requires disconnect_ok(v), Disconnect::fits(v)
    ensures Disconnect::parse(Disconnect::enc(v) + t) == Some((v, Disconnect::enc(v).len() as int)), Disconnect::must(Disconnect::enc(v) + t), vbi(Disconnect::enc(v) + t) == Some((disconnect_body(v).len() as int, vbi_enc(disconnect_body(v).len()).len() as int)),
{
    let b = disconnect_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    disconnect_rt(v.rc);
    rt_props(v.props, seq![]);
    assert(p + seq![] =~= p);
    assert(b[0] == disconnect_code(v.rc));
    assert(b.skip(1) =~= p);
    assert(disconnect_bparse(b) == Some((v, b.len() as int)));
}
/// ConnAck
#[verifier::spinoff_prover]
pub proof fn rt_connack(v: ConnAckV, t: Seq<u8>)
    requires connack_ok(v), ConnAck::fits(v)
    ensures ConnAck::parse(ConnAck::enc(v) + t) == Some((v, ConnAck::enc(v).len() as int)), ConnAck::must(ConnAck::enc(v) + t), vbi(ConnAck::enc(v) + t) == Some((connack_body(v).len() as int, vbi_enc(connack_body(v).len()).len() as int)),
{
    let b = connack_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    connack_rt(v.rc);
    rt_props(v.props, seq![]);
    assert(p + seq![] =~= p);
    assert(b[0] == v.flags && b[1] == connack_code(v.rc));
    assert(b.skip(2) =~= p);
    assert(connack_bparse(b) == Some((v, b.len() as int)));
}
/// SubAck
#[verifier::spinoff_prover]
pub proof fn rt_suback(v: RcsV<SubAckReasonCode>, t: Seq<u8>)
    requires suback_ok(v), SubAck::fits(v)
    ensures SubAck::parse(SubAck::enc(v) + t) == Some((v, SubAck::enc(v).len() as int)), SubAck::must(SubAck::enc(v) + t), vbi(SubAck::enc(v) + t) == Some((suback_body(v).len() as int, vbi_enc(suback_body(v).len()).len() as int)),
{
    let b = suback_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    let r = suback_rcs_enc(v.rcs);
    rt_be16(v.id as int, p + r);
    assert(b =~= be16(v.id as int) + (p + r));
    rt_props(v.props, r);
    assert(b.skip(2) =~= p + r);
    assert(b.skip(2 + p.len() as int) =~= r);
    assert forall|i: int| 0 <= i < r.len() implies suback_of(#[trigger] r[i]) == Some(v.rcs[i]) by { suback_rt(v.rcs[i]); }
    assert(suback_rcs(r) =~= v.rcs);
    assert(suback_bparse(b) == Some((v, b.len() as int)));
}
/// UnsubAck
#[verifier::spinoff_prover]
pub proof fn rt_unsuback(v: RcsV<UnsubAckReasonCode>, t: Seq<u8>)
    requires unsuback_ok(v), UnsubAck::fits(v)
    ensures UnsubAck::parse(UnsubAck::enc(v) + t) == Some((v, UnsubAck::enc(v).len() as int)), UnsubAck::must(UnsubAck::enc(v) + t), vbi(UnsubAck::enc(v) + t) == Some((unsuback_body(v).len() as int, vbi_enc(unsuback_body(v).len()).len() as int)),
{
    let b = unsuback_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    let r = unsuback_rcs_enc(v.rcs);
    rt_be16(v.id as int, p + r);
    assert(b =~= be16(v.id as int) + (p + r));
    rt_props(v.props, r);
    assert(b.skip(2) =~= p + r);
    assert(b.skip(2 + p.len() as int) =~= r);
    assert forall|i: int| 0 <= i < r.len() implies unsuback_of(#[trigger] r[i]) == Some(v.rcs[i]) by { unsuback_rt(v.rcs[i]); }
    assert(unsuback_rcs(r) =~= v.rcs);
    assert(unsuback_bparse(b) == Some((v, b.len() as int)));
}
pub proof fn rt_sub1(c: SubT, t: Seq<u8>)
    requires sub_ok(c)
    ensures sub1_parse(sub1_enc(c) + t) == Some((c, sub1_enc(c).len() as int)), (sub1_enc(c) + t).skip(sub1_enc(c).len() as int) =~= t
{
    rt_topic(c.0, seq![c.1] + t);
    assert(sub1_enc(c) + t =~= str_enc(c.0) + (seq![c.1] + t));
    assert((sub1_enc(c) + t)[str_enc(c.0).len() as int] == c.1);
}
pub proof fn subs_cons(ts: Seq<SubT>)
    requires ts.len() > 0
    ensures subs_enc(ts) == sub1_enc(ts[0]) + subs_enc(ts.skip(1))
    decreases ts.len()
{
    if ts.len() == 1 {
        assert(ts.skip(1) =~= seq![]);
        assert(ts.drop_last() =~= seq![]);
    } else {
        subs_cons(ts.drop_last());
        assert(ts.drop_last().skip(1) =~= ts.skip(1).drop_last());
        assert(ts.skip(1).last() == ts.last());
    }
    assert(subs_enc(ts) =~= sub1_enc(ts[0]) + subs_enc(ts.skip(1)));
}
pub proof fn rt_subs(ts: Seq<SubT>, i: int)
    requires subs_ok(ts), 0 <= i <= ts.len()
    ensures subs_from(subs_enc(ts.skip(i)), ts.take(i)) == Some(ts)
    decreases ts.len() - i
{
    let b = subs_enc(ts.skip(i));
    if i == ts.len() {
        assert(ts.skip(i) =~= seq![]);
        assert(ts.take(i) =~= ts);
    } else {
        let r = ts.skip(i);
        subs_cons(r);
        assert(r[0] == ts[i]);
        assert(r.skip(1) =~= ts.skip(i + 1));
        rt_sub1(ts[i], subs_enc(ts.skip(i + 1)));
        assert(b.skip(sub1_enc(ts[i]).len() as int) =~= subs_enc(ts.skip(i + 1)));
        assert(ts.take(i).push(ts[i]) =~= ts.take(i + 1));
        subs_step(b, ts.take(i));
        rt_subs(ts, i + 1);
    }
}
/// Subscribe
#[verifier::spinoff_prover]
pub proof fn rt_subscribe(v: SubV, t: Seq<u8>)
    requires subscribe_ok(v), Subscribe::fits(v)
    ensures Subscribe::parse(Subscribe::enc(v) + t) == Some((v, Subscribe::enc(v).len() as int)), Subscribe::must(Subscribe::enc(v) + t), vbi(Subscribe::enc(v) + t) == Some((subscribe_body(v).len() as int, vbi_enc(subscribe_body(v).len()).len() as int)),
{
    let b = subscribe_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    let r = subs_enc(v.topics);
    rt_be16(v.id as int, p + r);
    assert(b =~= be16(v.id as int) + (p + r));
    rt_props(v.props, r);
    assert(b.skip(2) =~= p + r);
    assert(b.skip(2 + p.len() as int) =~= r);
    assert(v.topics.skip(0) =~= v.topics);
    assert(v.topics.take(0) =~= seq![]);
    rt_subs(v.topics, 0);
    subs_cons(v.topics);
    assert(subscribe_bparse(b) == Some((v, b.len() as int)));
}
pub proof fn tops_cons(ts: Seq<Seq<char>>)
    requires ts.len() > 0
    ensures tops_enc(ts) == str_enc(ts[0]) + tops_enc(ts.skip(1))
    decreases ts.len()
{
    if ts.len() == 1 {
        assert(ts.skip(1) =~= seq![]);
        assert(ts.drop_last() =~= seq![]);
    } else {
        tops_cons(ts.drop_last());
        assert(ts.drop_last().skip(1) =~= ts.skip(1).drop_last());
        assert(ts.skip(1).last() == ts.last());
    }
    assert(tops_enc(ts) =~= str_enc(ts[0]) + tops_enc(ts.skip(1)));
}
pub proof fn rt_tops(ts: Seq<Seq<char>>, i: int)
    requires tops_ok(ts), 0 <= i <= ts.len()
    ensures tops_from(tops_enc(ts.skip(i)), ts.take(i)) == Some(ts)
    decreases ts.len() - i
{
    let b = tops_enc(ts.skip(i));
    if i == ts.len() {
        assert(ts.skip(i) =~= seq![]);
        assert(ts.take(i) =~= ts);
    } else {
        let r = ts.skip(i);
        tops_cons(r);
        assert(r[0] == ts[i]);
        assert(r.skip(1) =~= ts.skip(i + 1));
        rt_topic(ts[i], tops_enc(ts.skip(i + 1)));
        assert(b.skip(str_enc(ts[i]).len() as int) =~= tops_enc(ts.skip(i + 1)));
        assert(ts.take(i).push(ts[i]) =~= ts.take(i + 1));
        tops_step(b, ts.take(i));
        rt_tops(ts, i + 1);
    }
}
/// Unsubscribe
#[verifier::spinoff_prover]
pub proof fn rt_unsubscribe(v: UnsubV, t: Seq<u8>)
    requires unsubscribe_ok(v), Unsubscribe::fits(v)
    ensures Unsubscribe::parse(Unsubscribe::enc(v) + t) == Some((v, Unsubscribe::enc(v).len() as int)), Unsubscribe::must(Unsubscribe::enc(v) + t), vbi(Unsubscribe::enc(v) + t) == Some((unsubscribe_body(v).len() as int, vbi_enc(unsubscribe_body(v).len()).len() as int)),
{
    let b = unsubscribe_body(v);
    rt_frame(b, t);
    let p = Properties::enc(v.props);
    let r = tops_enc(v.topics);
    rt_be16(v.id as int, p + r);
    assert(b =~= be16(v.id as int) + (p + r));
    rt_props(v.props, r);
    assert(b.skip(2) =~= p + r);
    assert(b.skip(2 + p.len() as int) =~= r);
    assert(v.topics.skip(0) =~= v.topics);
    assert(v.topics.take(0) =~= seq![]);
    rt_tops(v.topics, 0);
    tops_cons(v.topics);
    assert(unsubscribe_bparse(b) == Some((v, b.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rt_publish_body(v: PublishV)
    requires publish_ok(v)
    ensures publish_bparse(v.flags, publish_body(v)) == Some((v, publish_body(v).len() as int))
{
    let b = publish_body(v);
    let p = Properties::enc(v.props);
    let a = str_enc(v.topic);
    let o = oid_enc(v.id);
    rt_topic(v.topic, o + (p + v.payload));
    assert(b =~= a + (o + (p + v.payload)));
    assert(b.skip(a.len() as int) =~= o + (p + v.payload));
    if let Some(i) = v.id { rt_be16(i as int, p + v.payload); }
    assert(b.skip(a.len() as int + o.len() as int) =~= p + v.payload);
    rt_props(v.props, v.payload);
    assert(b.skip(a.len() as int + o.len() as int + p.len() as int) =~= v.payload);
}
/// Publish
pub proof fn rt_publish(v: PublishV, t: Seq<u8>)
    requires publish_ok(v), Publish::fits(v)
    ensures ({ let s = seq![v.flags] + (Publish::enc(v) + t);
        Publish::parse(s) == Some((v, 1 + Publish::enc(v).len() as int)) && Publish::must(s) && vbi(Publish::enc(v) + t) == Some((publish_body(v).len() as int, vbi_enc(publish_body(v).len()).len() as int)) }),
{
    hide(publish_bparse); hide(publish_body); hide(vbi_enc); hide(vbi_parse); hide(str_ok); hide(topic_ok);
    let b = publish_body(v);
    let s = seq![v.flags] + (Publish::enc(v) + t);
    let h = vbi_enc(b.len()).len() as int;
    rt_frame(b, t);
    rt_publish_body(v);
    assert(s.skip(1) =~= Publish::enc(v) + t);
    assert(s[0] == v.flags);
    assert(s.skip(1 + h).take(b.len() as int) =~= b);
}
pub proof fn rt_will(v: WillV, t: Seq<u8>)
    requires will_ok(v)
    ensures will_parse(will_enc(v) + t) == Some((v, will_enc(v).len() as int)), (will_enc(v) + t).skip(will_enc(v).len() as int) =~= t
{
    let p = Properties::enc(v.props);
    let s = will_enc(v) + t;
    let r = str_enc(v.topic) + (bin_enc(v.payload) + t);
    assert(s =~= p + r);
    rt_props(v.props, r);
    rt_str(v.topic, bin_enc(v.payload) + t);
    rt_bin(v.payload, t);
    assert(s.skip(p.len() as int) =~= r);
    assert(s.skip(p.len() as int + str_enc(v.topic).len() as int) =~= bin_enc(v.payload) + t);
}
pub proof fn rt_owill(on: bool, v: Option<WillV>, t: Seq<u8>)
    requires v matches Some(w) ==> will_ok(w), on <==> v is Some
    ensures owill_parse(on, owill_enc(v) + t) == Some((v, owill_enc(v).len() as int)), (owill_enc(v) + t).skip(owill_enc(v).len() as int) =~= t
{ hide(will_parse); hide(will_enc); if let Some(w) = v { rt_will(w, t); } }
pub proof fn rt_ostr(on: bool, v: Option<Seq<char>>, t: Seq<u8>)
    requires v matches Some(w) ==> str_ok(w), on <==> v is Some
    ensures ostr_parse(on, ostr_enc(v) + t) == Some((v, ostr_enc(v).len() as int)), (ostr_enc(v) + t).skip(ostr_enc(v).len() as int) =~= t
{ hide(str_parse); hide(str_enc); if let Some(w) = v { rt_str(w, t); } }
pub proof fn rt_obin(on: bool, v: Option<Seq<u8>>, t: Seq<u8>)
    requires v matches Some(w) ==> w.len() <= 65535, on <==> v is Some
    ensures obin_parse(on, obin_enc(v) + t) == Some((v, obin_enc(v).len() as int)), (obin_enc(v) + t).skip(obin_enc(v).len() as int) =~= t
{ hide(bin_parse); hide(bin_enc); if let Some(w) = v { rt_bin(w, t); } }
#[verifier::spinoff_prover]
pub proof fn rt_connect_tail(v: ConnectV)
    requires connect_ok(v)
    ensures ({ let b = str_enc(v.id) + (owill_enc(v.will) + (ostr_enc(v.user) + obin_enc(v.pass)));
        connect_tail(v.flags, v.ka, v.props, b) == Some((v, b.len() as int)) }),
{
    hide(str_parse); hide(str_enc); hide(owill_parse); hide(ostr_parse); hide(obin_parse); hide(owill_enc); hide(ostr_enc); hide(obin_enc); hide(props_ok); hide(will_ok); hide(str_ok); hide(cf_ok);
    let e: Seq<u8> = seq![];
    let c3 = obin_enc(v.pass);
    let c2 = ostr_enc(v.user) + c3;
    let c1 = owill_enc(v.will) + c2;
    let b = str_enc(v.id) + c1;
    let i = str_enc(v.id).len() as int;
    let j = owill_enc(v.will).len() as int;
    let k = ostr_enc(v.user).len() as int;
    rt_str(v.id, c1);
    rt_owill(v.flags & 4 != 0, v.will, c2);
    rt_ostr(v.flags & 0x80 != 0, v.user, c3);
    rt_obin(v.flags & 0x40 != 0, v.pass, e);
    assert(c3 + e =~= c3);
    assert(b.skip(i) =~= c1);
    assert(b.skip(i + j) =~= c2);
    assert(b.skip(i + j + k) =~= c3);
}
#[verifier::spinoff_prover]
pub proof fn rt_connect_body(v: ConnectV)
    requires connect_ok(v)
    ensures connect_bparse(connect_body(v)) == Some((v, connect_body(v).len() as int))
{
    hide(connect_tail); hide(str_parse); hide(str_enc); hide(pparse); hide(owill_enc); hide(ostr_enc); hide(obin_enc); hide(str_ok); hide(will_ok); hide(eenc); hide(esum); hide(vbi_enc); hide(be16); hide(ru16);
    let b = connect_body(v);
    let p = Properties::enc(v.props);
    let tl = str_enc(v.id) + (owill_enc(v.will) + (ostr_enc(v.user) + obin_enc(v.pass)));
    let m = str_enc(mqtt_name());
    mqtt_bytes();
    let r = seq![5u8, v.flags] + be16(v.ka as int) + (p + tl);
    assert(b =~= m + r);
    rt_str(mqtt_name(), r);
    let h = m.len() as int;
    assert(b[h] == 5 && b[h + 1] == v.flags);
    rt_be16(v.ka as int, p + tl);
    let q = be16(v.ka as int);
    assert(q.len() == 2);
    assert(b.skip(h + 2) =~= be16(v.ka as int) + (p + tl));
    assert(b.skip(h + 4) =~= p + tl);
    rt_props(v.props, tl);
    assert(b.skip(h + 4 + p.len() as int) =~= tl);
    rt_connect_tail(v);
}
/// Connect
pub proof fn rt_connect(v: ConnectV, t: Seq<u8>)
    requires connect_ok(v), Connect::fits(v)
    ensures Connect::parse(Connect::enc(v) + t) == Some((v, Connect::enc(v).len() as int)), Connect::must(Connect::enc(v) + t), vbi(Connect::enc(v) + t) == Some((connect_body(v).len() as int, vbi_enc(connect_body(v).len()).len() as int)),
{
    hide(connect_bparse);
    rt_frame(connect_body(v), t);
    rt_connect_body(v);
}
/// what every packet a program can hold satisfies
pub open spec fn pk_ok(v: PkV) -> bool { match v {
    PkV::Connect(x) => connect_ok(x),
    PkV::ConnAck(x) => connack_ok(x),
    PkV::Publish(x) => publish_ok(x),
    PkV::PubAck(x) => puback_ok(x),
    PkV::PubRec(x) => pubrec_ok(x),
    PkV::PubRel(x) => pubrel_ok(x),
    PkV::PubComp(x) => pubcomp_ok(x),
    PkV::Subscribe(x) => subscribe_ok(x),
    PkV::SubAck(x) => suback_ok(x),
    PkV::Unsubscribe(x) => unsubscribe_ok(x),
    PkV::UnsubAck(x) => unsuback_ok(x),
    PkV::PingReq(x) => true,
    PkV::PingRes(x) => true,
    PkV::Disconnect(x) => disconnect_ok(x),
    PkV::Auth(x) => auth_ok(x),
} }
pub proof fn ok_props(x: Properties, o: PropOwner)
    requires x.inv(), x.valid_for(o), eenc(x.vv()).len() <= 0xfffffff
    ensures props_ok(x.vv(), o)
{
    x.facts();
    x.props.order_props();
    let d = x.props.order();
    assert forall|k: Property| d.contains(k) implies x.pmap().contains_key(k) by { assert(d.to_set().contains(k)); }
    ents_ok(d, x.pmap());
}
pub proof fn ok_connect(x: Connect)
    requires x.inv(), Connect::fits(x.vv())
    ensures connect_ok(x.vv())
{
    ok_props(x.props, PropOwner::CONNECT);
    if let Some(wi) = x.will_info { ok_props(wi.props, PropOwner::WILL); }
}
pub proof fn ok_connack(x: ConnAck)
    requires x.inv(), ConnAck::fits(x.vv())
    ensures connack_ok(x.vv())
{
    ok_props(x.props, PropOwner::CONNACK);
}
pub proof fn ok_publish(x: Publish)
    requires x.inv(), Publish::fits(x.vv())
    ensures publish_ok(x.vv())
{
    ok_props(x.props, PropOwner::PUBLISH);
}
pub proof fn ok_puback(x: PubAck)
    requires x.inv(), PubAck::fits(x.vv())
    ensures puback_ok(x.vv())
{
    ok_props(x.props, PropOwner::PUBACK);
}
pub proof fn ok_pubrec(x: PubRec)
    requires x.inv(), PubRec::fits(x.vv())
    ensures pubrec_ok(x.vv())
{
    ok_props(x.props, PropOwner::PUBREC);
}
pub proof fn ok_pubrel(x: PubRel)
    requires x.inv(), PubRel::fits(x.vv())
    ensures pubrel_ok(x.vv())
{
    ok_props(x.props, PropOwner::PUBREL);
}
pub proof fn ok_pubcomp(x: PubComp)
    requires x.inv(), PubComp::fits(x.vv())
    ensures pubcomp_ok(x.vv())
{
    ok_props(x.props, PropOwner::PUBCOMP);
}
pub proof fn ok_subscribe(x: Subscribe)
    requires x.inv(), Subscribe::fits(x.vv())
    ensures subscribe_ok(x.vv())
{
    ok_props(x.props, PropOwner::SUBSCRIBE);
}
pub proof fn ok_suback(x: SubAck)
    requires x.inv(), SubAck::fits(x.vv())
    ensures suback_ok(x.vv())
{
    ok_props(x.props, PropOwner::SUBACK);
}
pub proof fn ok_unsubscribe(x: Unsubscribe)
    requires x.inv(), Unsubscribe::fits(x.vv())
    ensures unsubscribe_ok(x.vv())
{
    ok_props(x.props, PropOwner::UNSUBSCRIBE);
}
pub proof fn ok_unsuback(x: UnsubAck)
    requires x.inv(), UnsubAck::fits(x.vv())
    ensures unsuback_ok(x.vv())
{
    ok_props(x.props, PropOwner::UNSUBACK);
}
pub proof fn ok_disconnect(x: Disconnect)
    requires x.inv(), Disconnect::fits(x.vv())
    ensures disconnect_ok(x.vv())
{
    ok_props(x.props, PropOwner::DISCONNECT);
}
pub proof fn ok_auth(x: Auth)
    requires x.inv(), Auth::fits(x.vv())
    ensures auth_ok(x.vv())
{
    ok_props(x.props, PropOwner::AUTH);
}
pub proof fn pk_inv_ok(x: Packet)
    requires x.inv(), Packet::fits(x.vv())
    ensures pk_ok(x.vv())
{
    match x {
        Packet::Connect(p) => { ok_connect(p); }
        Packet::ConnAck(p) => { ok_connack(p); }
        Packet::Publish(p) => { ok_publish(p); }
        Packet::PubAck(p) => { ok_puback(p); }
        Packet::PubRec(p) => { ok_pubrec(p); }
        Packet::PubRel(p) => { ok_pubrel(p); }
        Packet::PubComp(p) => { ok_pubcomp(p); }
        Packet::Subscribe(p) => { ok_subscribe(p); }
        Packet::SubAck(p) => { ok_suback(p); }
        Packet::Unsubscribe(p) => { ok_unsubscribe(p); }
        Packet::UnsubAck(p) => { ok_unsuback(p); }
        Packet::Disconnect(p) => { ok_disconnect(p); }
        Packet::Auth(p) => { ok_auth(p); }
        _ => { }
    }
}
/// a complete frame in front of `t`
pub proof fn rt_stream(b1: u8, f: Seq<u8>, t: Seq<u8>, n: int, h: int)
    requires byte1_parse(b1) is Some, byte1_parse(b1) != Some(PacketType::Reserved), vbi(f + t) == Some((n, h)), f.len() == h + n, 1 <= h, 0 <= n
    ensures ({ let s = seq![b1] + f + t; frame(s) == PR::Ok(n, h) && s[0] == b1 && s.skip(1).take(h + n) == f })
{
    hide(vbi_parse); hide(byte1_parse);
    let s = seq![b1] + f + t;
    assert(s.skip(1) =~= f + t);
    assert(s.skip(1).take(h + n) =~= f);
}
pub proof fn rt_byte1(f: u8)
    ensures byte1_parse(16) == Some(PacketType::Connect), byte1_parse(32) == Some(PacketType::ConnAck), byte1_parse(64) == Some(PacketType::PubAck), byte1_parse(80) == Some(PacketType::PubRec), byte1_parse(98) == Some(PacketType::PubRel), byte1_parse(112) == Some(PacketType::PubComp), byte1_parse(130) == Some(PacketType::Subscribe), byte1_parse(144) == Some(PacketType::SubAck), byte1_parse(162) == Some(PacketType::Unsubscribe), byte1_parse(176) == Some(PacketType::UnsubAck), byte1_parse(192) == Some(PacketType::PingReq), byte1_parse(208) == Some(PacketType::PingRes), byte1_parse(224) == Some(PacketType::Disconnect), byte1_parse(240) == Some(PacketType::Auth), f < 16 ==> byte1_parse((48 + f) as u8) == Some(PacketType::Publish) && (48 + f) as u8 % 16 == f,
{
    nibbles(16);
    nibbles(32);
    nibbles(64);
    nibbles(80);
    nibbles(98);
    nibbles(112);
    nibbles(130);
    nibbles(144);
    nibbles(162);
    nibbles(176);
    nibbles(192);
    nibbles(208);
    nibbles(224);
    nibbles(240);
    if f < 16 { nibbles((48 + f) as u8); }
}
#[verifier::spinoff_prover]
pub proof fn rtp_connect(v: ConnectV, t: Seq<u8>)
    requires connect_ok(v), Connect::fits(v)
    ensures pk_parse(pk_enc(PkV::Connect(v)) + t) == Some((PkV::Connect(v), pk_enc(PkV::Connect(v)).len() as int))
{
    hide(connect_bparse); hide(vbi_parse); hide(vbi_enc); hide(connect_body); hide(byte1_parse); hide(frame); hide(connect_ok);
    rt_connect(v, t);
    rt_connect(v, seq![]);
    let f = Connect::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(connect_body(v).len());
    rt_byte1(0);
    rt_stream(16, f, t, connect_body(v).len() as int, vbi_enc(connect_body(v).len()).len() as int);
    assert(body_parse(PacketType::Connect, 16, f) == Some((PkV::Connect(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_connack(v: ConnAckV, t: Seq<u8>)
    requires connack_ok(v), ConnAck::fits(v)
    ensures pk_parse(pk_enc(PkV::ConnAck(v)) + t) == Some((PkV::ConnAck(v), pk_enc(PkV::ConnAck(v)).len() as int))
{
    hide(connack_bparse); hide(vbi_parse); hide(vbi_enc); hide(connack_body); hide(byte1_parse); hide(frame); hide(connack_ok);
    rt_connack(v, t);
    rt_connack(v, seq![]);
    let f = ConnAck::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(connack_body(v).len());
    rt_byte1(0);
    rt_stream(32, f, t, connack_body(v).len() as int, vbi_enc(connack_body(v).len()).len() as int);
    assert(body_parse(PacketType::ConnAck, 32, f) == Some((PkV::ConnAck(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_publish(v: PublishV, t: Seq<u8>)
    requires publish_ok(v), Publish::fits(v)
    ensures pk_parse(pk_enc(PkV::Publish(v)) + t) == Some((PkV::Publish(v), pk_enc(PkV::Publish(v)).len() as int))
{
    hide(publish_bparse); hide(vbi_parse); hide(vbi_enc); hide(publish_body); hide(byte1_parse); hide(frame); hide(publish_ok);
    assert(v.flags < 16) by { reveal(publish_ok); }
    rt_publish(v, t);
    rt_publish(v, seq![]);
    let f = Publish::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(publish_body(v).len());
    rt_byte1(v.flags);
    rt_stream((48 + v.flags) as u8, f, t, publish_body(v).len() as int, vbi_enc(publish_body(v).len()).len() as int);
    assert(body_parse(PacketType::Publish, (48 + v.flags) as u8, f) == Some((PkV::Publish(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_puback(v: AckV<PubAckReasonCode>, t: Seq<u8>)
    requires puback_ok(v), PubAck::fits(v)
    ensures pk_parse(pk_enc(PkV::PubAck(v)) + t) == Some((PkV::PubAck(v), pk_enc(PkV::PubAck(v)).len() as int))
{
    hide(puback_bparse); hide(vbi_parse); hide(vbi_enc); hide(puback_body); hide(byte1_parse); hide(frame); hide(puback_ok);
    rt_puback(v, t);
    rt_puback(v, seq![]);
    let f = PubAck::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(puback_body(v).len());
    rt_byte1(0);
    rt_stream(64, f, t, puback_body(v).len() as int, vbi_enc(puback_body(v).len()).len() as int);
    assert(body_parse(PacketType::PubAck, 64, f) == Some((PkV::PubAck(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_pubrec(v: AckV<PubAckReasonCode>, t: Seq<u8>)
    requires pubrec_ok(v), PubRec::fits(v)
    ensures pk_parse(pk_enc(PkV::PubRec(v)) + t) == Some((PkV::PubRec(v), pk_enc(PkV::PubRec(v)).len() as int))
{
    hide(pubrec_bparse); hide(vbi_parse); hide(vbi_enc); hide(pubrec_body); hide(byte1_parse); hide(frame); hide(pubrec_ok);
    rt_pubrec(v, t);
    rt_pubrec(v, seq![]);
    let f = PubRec::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(pubrec_body(v).len());
    rt_byte1(0);
    rt_stream(80, f, t, pubrec_body(v).len() as int, vbi_enc(pubrec_body(v).len()).len() as int);
    assert(body_parse(PacketType::PubRec, 80, f) == Some((PkV::PubRec(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_pubrel(v: AckV<PubRelReasonCode>, t: Seq<u8>)
    requires pubrel_ok(v), PubRel::fits(v)
    ensures pk_parse(pk_enc(PkV::PubRel(v)) + t) == Some((PkV::PubRel(v), pk_enc(PkV::PubRel(v)).len() as int))
{
    hide(pubrel_bparse); hide(vbi_parse); hide(vbi_enc); hide(pubrel_body); hide(byte1_parse); hide(frame); hide(pubrel_ok);
    rt_pubrel(v, t);
    rt_pubrel(v, seq![]);
    let f = PubRel::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(pubrel_body(v).len());
    rt_byte1(0);
    rt_stream(98, f, t, pubrel_body(v).len() as int, vbi_enc(pubrel_body(v).len()).len() as int);
    assert(body_parse(PacketType::PubRel, 98, f) == Some((PkV::PubRel(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_pubcomp(v: AckV<PubRelReasonCode>, t: Seq<u8>)
    requires pubcomp_ok(v), PubComp::fits(v)
    ensures pk_parse(pk_enc(PkV::PubComp(v)) + t) == Some((PkV::PubComp(v), pk_enc(PkV::PubComp(v)).len() as int))
{
    hide(pubcomp_bparse); hide(vbi_parse); hide(vbi_enc); hide(pubcomp_body); hide(byte1_parse); hide(frame); hide(pubcomp_ok);
    rt_pubcomp(v, t);
    rt_pubcomp(v, seq![]);
    let f = PubComp::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(pubcomp_body(v).len());
    rt_byte1(0);
    rt_stream(112, f, t, pubcomp_body(v).len() as int, vbi_enc(pubcomp_body(v).len()).len() as int);
    assert(body_parse(PacketType::PubComp, 112, f) == Some((PkV::PubComp(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_subscribe(v: SubV, t: Seq<u8>)
    requires subscribe_ok(v), Subscribe::fits(v)
    ensures pk_parse(pk_enc(PkV::Subscribe(v)) + t) == Some((PkV::Subscribe(v), pk_enc(PkV::Subscribe(v)).len() as int))
{
    hide(subscribe_bparse); hide(vbi_parse); hide(vbi_enc); hide(subscribe_body); hide(byte1_parse); hide(frame); hide(subscribe_ok);
    rt_subscribe(v, t);
    rt_subscribe(v, seq![]);
    let f = Subscribe::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(subscribe_body(v).len());
    rt_byte1(0);
    rt_stream(130, f, t, subscribe_body(v).len() as int, vbi_enc(subscribe_body(v).len()).len() as int);
    assert(body_parse(PacketType::Subscribe, 130, f) == Some((PkV::Subscribe(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_suback(v: RcsV<SubAckReasonCode>, t: Seq<u8>)
    requires suback_ok(v), SubAck::fits(v)
    ensures pk_parse(pk_enc(PkV::SubAck(v)) + t) == Some((PkV::SubAck(v), pk_enc(PkV::SubAck(v)).len() as int))
{
    hide(suback_bparse); hide(vbi_parse); hide(vbi_enc); hide(suback_body); hide(byte1_parse); hide(frame); hide(suback_ok);
    rt_suback(v, t);
    rt_suback(v, seq![]);
    let f = SubAck::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(suback_body(v).len());
    rt_byte1(0);
    rt_stream(144, f, t, suback_body(v).len() as int, vbi_enc(suback_body(v).len()).len() as int);
    assert(body_parse(PacketType::SubAck, 144, f) == Some((PkV::SubAck(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_unsubscribe(v: UnsubV, t: Seq<u8>)
    requires unsubscribe_ok(v), Unsubscribe::fits(v)
    ensures pk_parse(pk_enc(PkV::Unsubscribe(v)) + t) == Some((PkV::Unsubscribe(v), pk_enc(PkV::Unsubscribe(v)).len() as int))
{
    hide(unsubscribe_bparse); hide(vbi_parse); hide(vbi_enc); hide(unsubscribe_body); hide(byte1_parse); hide(frame); hide(unsubscribe_ok);
    rt_unsubscribe(v, t);
    rt_unsubscribe(v, seq![]);
    let f = Unsubscribe::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(unsubscribe_body(v).len());
    rt_byte1(0);
    rt_stream(162, f, t, unsubscribe_body(v).len() as int, vbi_enc(unsubscribe_body(v).len()).len() as int);
    assert(body_parse(PacketType::Unsubscribe, 162, f) == Some((PkV::Unsubscribe(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_unsuback(v: RcsV<UnsubAckReasonCode>, t: Seq<u8>)
    requires unsuback_ok(v), UnsubAck::fits(v)
    ensures pk_parse(pk_enc(PkV::UnsubAck(v)) + t) == Some((PkV::UnsubAck(v), pk_enc(PkV::UnsubAck(v)).len() as int))
{
    hide(unsuback_bparse); hide(vbi_parse); hide(vbi_enc); hide(unsuback_body); hide(byte1_parse); hide(frame); hide(unsuback_ok);
    rt_unsuback(v, t);
    rt_unsuback(v, seq![]);
    let f = UnsubAck::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(unsuback_body(v).len());
    rt_byte1(0);
    rt_stream(176, f, t, unsuback_body(v).len() as int, vbi_enc(unsuback_body(v).len()).len() as int);
    assert(body_parse(PacketType::UnsubAck, 176, f) == Some((PkV::UnsubAck(v), f.len() as int)));
}
pub proof fn rtp_pingreq(t: Seq<u8>)
    ensures pk_parse(pk_enc(PkV::PingReq(())) + t) == Some((PkV::PingReq(()), pk_enc(PkV::PingReq(())).len() as int))
{
    let f = seq![0u8];
    reveal_with_fuel(vbi_enc, 1);
    rt_vbi(0, t);
    rt_byte1(0);
    rt_stream(192, f, t, 0, 1);
    assert(f[0] == 0);
    assert(body_parse(PacketType::PingReq, 192, f) == Some((PkV::PingReq(()), 1int)));
}
pub proof fn rtp_pingres(t: Seq<u8>)
    ensures pk_parse(pk_enc(PkV::PingRes(())) + t) == Some((PkV::PingRes(()), pk_enc(PkV::PingRes(())).len() as int))
{
    let f = seq![0u8];
    reveal_with_fuel(vbi_enc, 1);
    rt_vbi(0, t);
    rt_byte1(0);
    rt_stream(208, f, t, 0, 1);
    assert(f[0] == 0);
    assert(body_parse(PacketType::PingRes, 208, f) == Some((PkV::PingRes(()), 1int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_disconnect(v: RcV<DisconnectReasonCode>, t: Seq<u8>)
    requires disconnect_ok(v), Disconnect::fits(v)
    ensures pk_parse(pk_enc(PkV::Disconnect(v)) + t) == Some((PkV::Disconnect(v), pk_enc(PkV::Disconnect(v)).len() as int))
{
    hide(disconnect_bparse); hide(vbi_parse); hide(vbi_enc); hide(disconnect_body); hide(byte1_parse); hide(frame); hide(disconnect_ok);
    rt_disconnect(v, t);
    rt_disconnect(v, seq![]);
    let f = Disconnect::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(disconnect_body(v).len());
    rt_byte1(0);
    rt_stream(224, f, t, disconnect_body(v).len() as int, vbi_enc(disconnect_body(v).len()).len() as int);
    assert(body_parse(PacketType::Disconnect, 224, f) == Some((PkV::Disconnect(v), f.len() as int)));
}
#[verifier::spinoff_prover]
pub proof fn rtp_auth(v: RcV<AuthReasonCode>, t: Seq<u8>)
    requires auth_ok(v), Auth::fits(v)
    ensures pk_parse(pk_enc(PkV::Auth(v)) + t) == Some((PkV::Auth(v), pk_enc(PkV::Auth(v)).len() as int))
{
    hide(auth_bparse); hide(vbi_parse); hide(vbi_enc); hide(auth_body); hide(byte1_parse); hide(frame); hide(auth_ok);
    rt_auth(v, t);
    rt_auth(v, seq![]);
    let f = Auth::enc(v);
    assert(f + seq![] =~= f);
    vbi_enc_len(auth_body(v).len());
    rt_byte1(0);
    rt_stream(240, f, t, auth_body(v).len() as int, vbi_enc(auth_body(v).len()).len() as int);
    assert(body_parse(PacketType::Auth, 240, f) == Some((PkV::Auth(v), f.len() as int)));
}
/// Every packet a program can hold and write reads back, whatever follows it in the stream.
#[verifier::spinoff_prover]
pub proof fn round_trip(x: Packet, t: Seq<u8>)
    requires x.inv(), Packet::fits(x.vv())
    ensures Packet::parse(Packet::enc(x.vv()) + t) == Some((x.vv(), Packet::enc(x.vv()).len() as int)), Packet::must(Packet::enc(x.vv()) + t)
{
    hide(pk_parse); hide(pk_enc);
    pk_inv_ok(x);
    match x.vv() {
        PkV::Connect(v) => { rtp_connect(v, t); }
        PkV::ConnAck(v) => { rtp_connack(v, t); }
        PkV::Publish(v) => { rtp_publish(v, t); }
        PkV::PubAck(v) => { rtp_puback(v, t); }
        PkV::PubRec(v) => { rtp_pubrec(v, t); }
        PkV::PubRel(v) => { rtp_pubrel(v, t); }
        PkV::PubComp(v) => { rtp_pubcomp(v, t); }
        PkV::Subscribe(v) => { rtp_subscribe(v, t); }
        PkV::SubAck(v) => { rtp_suback(v, t); }
        PkV::Unsubscribe(v) => { rtp_unsubscribe(v, t); }
        PkV::UnsubAck(v) => { rtp_unsuback(v, t); }
        PkV::PingReq(v) => { rtp_pingreq(t); }
        PkV::PingRes(v) => { rtp_pingres(t); }
        PkV::Disconnect(v) => { rtp_disconnect(v, t); }
        PkV::Auth(v) => { rtp_auth(v, t); }
    }
}
/// Decoding (by the contract of `Packet::from_bytes`) what a packet was written as gives the packet.
pub proof fn decoded_is_written(x: Packet, y: Packet, t: Seq<u8>)
    requires x.inv(), Packet::fits(x.vv()), dec_ok(Packet::enc(x.vv()) + t, y)
    ensures Packet::same(y.vv(), x.vv()), y.inv(), dec_len::<Packet>(Packet::enc(x.vv()) + t) == Packet::enc(x.vv()).len()
{ hide(pk_parse); hide(pk_enc); hide(pk_same); round_trip(x, t); }
@@ end
