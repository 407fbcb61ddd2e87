#!/usr/bin/env python3
# generates contracts/codec/70_packet.vc (one arm per control packet)
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'codec')
K = [('Connect','Connect','ConnectV',1,0),('ConnAck','ConnAck','ConnAckV',2,0),('Publish','Publish','PublishV',3,None),
     ('PubAck','PubAck','AckV<PubAckReasonCode>',4,0),('PubRec','PubRec','AckV<PubAckReasonCode>',5,0),('PubRel','PubRel','AckV<PubRelReasonCode>',6,2),('PubComp','PubComp','AckV<PubRelReasonCode>',7,0),
     ('Subscribe','Subscribe','SubV',8,2),('SubAck','SubAck','RcsV<SubAckReasonCode>',9,0),('Unsubscribe','Unsubscribe','UnsubV',10,2),('UnsubAck','UnsubAck','RcsV<UnsubAckReasonCode>',11,0),
     ('PingReq','Ping','()',12,0),('PingRes','Ping','()',13,0),('Disconnect','Disconnect','RcV<DisconnectReasonCode>',14,0),('Auth','Auth','RcV<AuthReasonCode>',15,0)]
o = ['@@ module packet']
o.append('/// the value of a control packet')
o.append('pub enum PkV { ' + ', '.join(f'{n}({v})' for n,_,v,_,_ in K) + ' }')
def arms(f): return '\n'.join('        ' + f(*k) for k in K)
o.append('''/// the frame a stream starts with: the length of its body and of its Remaining Length
pub open spec fn frame(s: Seq<u8>) -> PR<int> {
    if s.len() < 2 { PR::More } else if byte1_parse(s[0]) is None || byte1_parse(s[0]) == Some(PacketType::Reserved) { PR::Bad } else {
        match vbi_parse(s.skip(1)) {
            PR::More => PR::More,
            PR::Bad => PR::Bad,
            PR::Ok(n, h) => if s.len() < 1 + h + n { PR::More } else { PR::Ok(n, h) },
        }
    }
}
pub open spec fn body_parse(t: PacketType, b1: u8, f: Seq<u8>) -> Option<(PkV, int)> {
    match t {
        PacketType::Reserved => None,''')
def bp(n,t,v,c,f):
    if n=='Publish': return 'PacketType::Publish => match Publish::parse(seq![(b1 % 16) as u8] + f) { Some((v, k)) => Some((PkV::Publish(v), k - 1)), None => None },'
    return f'PacketType::{n} => match {t}::parse(f) {{ Some((v, k)) => Some((PkV::{n}(v), k)), None => None }},'
o.append(arms(bp)); o.append('    }\n}')
o.append('''pub open spec fn body_must(t: PacketType, b1: u8, f: Seq<u8>) -> bool {
    match t {
        PacketType::Reserved => false,''')
o.append(arms(lambda n,t,v,c,f: 'PacketType::Publish => Publish::must(seq![(b1 % 16) as u8] + f),' if n=='Publish' else f'PacketType::{n} => {t}::must(f),')); o.append('    }\n}')
o.append('pub open spec fn pk_same(a: PkV, b: PkV) -> bool {\n    match (a, b) {')
o.append(arms(lambda n,t,v,c,f: f'(PkV::{n}(x), PkV::{n}(y)) => {t}::same(x, y),')); o.append('        _ => false,\n    }\n}')
N = ['connect','connack','publish','puback','pubrec','pubrel','pubcomp','subscribe','suback','unsubscribe','unsuback','disconnect','auth']
HE = '    ' + ' '.join(f'hide({p}_body);' for p in N) + ' hide(vbi_enc);\n'
HD = '    ' + ' '.join(f'hide({p}_bparse);' for p in N) + ' hide(vbi_parse);\n'
o.append('''impl Wire for Packet {
    type V = PkV;
    open spec fn vv(&self) -> PkV { match *self {''')
o.append(arms(lambda n,t,v,c,f: f'Packet::{n}(p) => PkV::{n}(p.vv()),')); o.append('    } }')
o.append('    open spec fn inv(&self) -> bool { match *self {')
o.append(arms(lambda n,t,v,c,f: f'Packet::{n}(p) => p.inv(),')); o.append('    } }')
o.append('    open spec fn fits(v: PkV) -> bool { match v {')
o.append(arms(lambda n,t,v,c,f: f'PkV::{n}(x) => {t}::fits(x),' if n!='Publish' else 'PkV::Publish(x) => Publish::fits(x) && pf_ok(x.flags),')); o.append('    } }')
o.append('    open spec fn same(a: PkV, b: PkV) -> bool { pk_same(a, b) }')
o.append('    open spec fn enc(v: PkV) -> Seq<u8> { match v {')
o.append(arms(lambda n,t,v,c,f: f'PkV::{n}(x) => seq![{c*16+f}u8] + {t}::enc(x),' if f is not None else f'PkV::{n}(x) => seq![(48 + x.flags) as u8] + {t}::enc(x),')); o.append('    } }')
o.append('''    /// the one packet the stream starts with: only from a complete frame, only if the packet takes exactly that frame
    open spec fn parse(s: Seq<u8>) -> Option<(PkV, int)> {
        match frame(s) {
            PR::Ok(n, h) => match body_parse(byte1_parse(s[0]).unwrap(), s[0], s.skip(1).take(h + n)) {
                Some((v, k)) => if k == h + n { Some((v, 1 + h + n)) } else { None },
                None => None,
            },
            _ => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
pub proof fn vbi_agree_(s: Seq<u8>, t: Seq<u8>, k: int, acc: int)
    requires 0 <= k < 4, 0 <= acc < pow128(k),
        vbi_from(s, k, acc) matches PR::Ok(n, h) ==> t.len() >= h && forall|i: int| 0 <= i < h ==> s[i] == t[i]
    ensures vbi_from(s, k, acc) is Ok ==> vbi_from(t, k, acc) == vbi_from(s, k, acc)
    decreases 4 - k
{
    reveal_with_fuel(vbi_from, 2);
    vbi_from_shape(s, k, acc);
    if s.len() > k && s[k] >= 128 && k < 3 { vbi_agree_(s, t, k + 1, acc + (s[k] as int % 128) * pow128(k)); }
}
/// a Remaining Length reads the same whatever follows it
pub proof fn vbi_agree(s: Seq<u8>, t: Seq<u8>)
    requires vbi_parse(s) matches PR::Ok(n, h) ==> t.len() >= h && forall|i: int| 0 <= i < h ==> s[i] == t[i]
    ensures vbi_parse(s) is Ok ==> vbi_parse(t) == vbi_parse(s)
{ vbi_agree_(s, t, 0, 0); }
/// the bytes of a Remaining Length are determined by its value
pub proof fn vbi_canon(s: Seq<u8>)
    ensures vbi_parse(s) matches PR::Ok(n, h) ==> 1 <= h <= 4 && h <= s.len() && 0 <= n <= 0xfffffff && s.take(h) == vbi_enc(n as nat)
{
    vbi_parse_len(s);
    if let PR::Ok(n, h) = vbi_parse(s) { vbi_canon_(s, 0, 0); assert(n / 1 == n); assert(s.subrange(0, h) =~= s.take(h)); }
}
pub proof fn vbi_canon_(s: Seq<u8>, k: int, acc: int)
    requires 0 <= k < 4, 0 <= acc < pow128(k)
    ensures vbi_from(s, k, acc) matches PR::Ok(n, h) ==> k < h <= 4 && h <= s.len() && n >= acc && n % pow128(k) == acc && s.subrange(k, h) == vbi_enc((n / pow128(k)) as nat) && (k > 0 ==> n / pow128(k) > 0)
    decreases 4 - k
{
    reveal_with_fuel(vbi_from, 2);
    reveal_with_fuel(vbi_enc, 2);
    vbi_from_shape(s, k, acc);
    if s.len() > k {
        let b = s[k] as int;
        let v = acc + (b % 128) * pow128(k);
        let d = b % 128;
        assert(v < pow128(k) * 128 && v % pow128(k) == acc && v / pow128(k) == d) by {
            if k == 0 { assert(pow128(k) == 1); } else if k == 1 { assert(pow128(k) == 128); } else if k == 2 { assert(pow128(k) == 16384); } else { assert(pow128(k) == 2097152); }
        }
        if b < 128 { assert(d == b); if let PR::Ok(n, h) = vbi_from(s, k, acc) { assert(n == v && h == k + 1); assert(s.subrange(k, h) =~= seq![s[k]]); assert(vbi_enc(d as nat) =~= seq![d as u8]); } }
        else if k < 3 {
            assert(d == b - 128);
            assert(pow128(k + 1) == pow128(k) * 128);
            vbi_canon_(s, k + 1, v);
            if let PR::Ok(n, h) = vbi_from(s, k, acc) {
                assert(vbi_from(s, k, acc) == vbi_from(s, k + 1, v));
                let q = n / pow128(k);
                assert(q / 128 == n / pow128(k + 1) && q % 128 == d && n % pow128(k) == acc && q >= 128) by {
                    if k == 0 { assert(pow128(k) == 1 && pow128(k + 1) == 128); } else if k == 1 { assert(pow128(k) == 128 && pow128(k + 1) == 16384); } else { assert(pow128(k) == 16384 && pow128(k + 1) == 2097152); }
                }
                assert(s.subrange(k, h) =~= seq![s[k]] + s.subrange(k + 1, h));
                assert(vbi_enc(q as nat) == seq![(q as nat % 128 + 128) as u8] + vbi_enc(q as nat / 128));
            }
        }
    }
}
/// a body that takes exactly its frame is one the packet type has to accept
pub proof fn must_of(t: PacketType, b1: u8, f: Seq<u8>)
    requires vbi_parse(f) matches PR::Ok(n, h) && f.len() == n + h
    ensures body_parse(t, b1, f) matches Some((v, k)) && k == f.len() ==> body_must(t, b1, f)
{
''' + HD + '''}
pub proof fn b1_bits(f: u8)
    ensures ''' + ', '.join(f'({c}u8 << 4usize) | {f}u8 == {c*16+f}' for n,t,v,c,f in K if f is not None) + ''',
        f < 16 ==> (3u8 << 4usize) | f == 48 + f, pf_ok(f) ==> f < 16,
{
''' + '\n'.join(f'    assert(({c}u8 << 4usize) | {f}u8 == {c*16+f}) by (bit_vector);' for n,t,v,c,f in K if f is not None) + '''
    assert(f < 16 ==> (3u8 << 4usize) | f == 48 + f) by (bit_vector);
}
@@ fn Packet::to_bytes
@@ tags C03,C08
    requires self.inv(), Packet::fits(self.vv()),
    ensures (*final($0)).out() == (*old($0)).out() + Packet::enc(self.vv()),
@@ fn Packet::from_bytes
@@ tags C01
    ensures
        ret matches Ok(x) ==> dec_ok((*old($0)).bv(), x) && adv(*old($0), *final($0), dec_len::<Packet>((*old($0)).bv())), //! C02,C04,C06,C10
        ret is Err ==> !Packet::must((*old($0)).bv()), //! C02,C06,C10
        ret matches Err(e) ==> (e is InsufficientBuffer <==> frame((*old($0)).bv()) is More), //! C05
@@ fn Packet::frame_len
@@ tags C03
    requires self.inv(), Packet::fits(self.vv()),
    ensures ret == Packet::enc(self.vv()).len(),
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
@@ entry
''' + HE + '''    proof { match self.vv() { ''' + ' '.join(f'PkV::{n}(x) => vbi_enc_len({t.lower()}_body(x).len()),' for n,t,v,c,f in K if t != 'Ping') + ''' _ => {} } }
@@ fn MqttSerialize for Packet::serialize
@@ tags C02,C08
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
@@ entry
''' + HE + '''    proof { b1_bits(match self.vv() { PkV::Publish(x) => x.flags, _ => 0 }); }
@@ fn MqttDeserialize for Packet::deserialize
@@ tags C01
    ensures ret matches Err(e) ==> (e is InsufficientBuffer <==> frame((*old($0)).bv()) is More), //! C05
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
@@ entry
    hide(body_parse); hide(body_must); hide(vbi_parse); hide(vbi_enc); hide(byte1_parse); hide(pk_same);
    let ghost s = $0.bv();
    let ghost h = if let PR::Ok(n, h) = vbi_parse(s.skip(1)) { h } else { 0 };
    let ghost n = if let PR::Ok(n, h) = vbi_parse(s.skip(1)) { n } else { 0 };
    let ghost f = s.skip(1).take(h + n);
    proof { if s.len() >= 1 { vbi_canon(s.skip(1)); if vbi_parse(s.skip(1)) is Ok && s.len() >= 1 + h + n { vbi_agree(s.skip(1), f); if byte1_parse(s[0]) is Some { must_of(byte1_parse(s[0]).unwrap(), s[0], f); } } } }
@@ let frame
    proof { assert(frame.bv() =~= f); }
@@ fn Packet::deserialize_frame
@@ tags C01,C06
    requires (*old($2)).bv().len() >= 1,
    ensures
        ret matches Ok(x) ==> (body_parse($0, $1, (*old($2)).bv()) matches Some((v, k)) && Packet::same(x.vv(), v) && x.inv() && adv(*old($2), *final($2), k)),
        ret is Err ==> !body_must($0, $1, (*old($2)).bv()),
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@@ entry
''' + HD + '''    proof { nibbles($1); assert((seq![($1 % 16) as u8] + $2.bv()).skip(1) =~= $2.bv()); }
@@ let buf
    proof { assert(buf.bv() =~= seq![($1 % 16) as u8] + buf.b.bv()); publish_facts(buf.bv()); if let Some((v, k)) = Publish::parse(buf.bv()) { assert(1 <= k); assert(buf.bv().skip(k) =~= buf.b.bv().skip(k - 1)); } }
@@ end''')
open(os.path.join(D, '70_packet.vc'), 'w').write('\n'.join(o) + '\n')
