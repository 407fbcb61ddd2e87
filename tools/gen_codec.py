#!/usr/bin/env python3
"""Writes contracts/codec/45_reason.vc and 50_acks.vc: the contracts of the reason codes and of the packets
that differ only in names.  The tables below are MQTT 5.0 table 2-6 and the per packet tables of chapter 3."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'codec')
R = {
 'ConnAck': dict(Success=0, UnspecifiedError=0x80, MalformedPacket=0x81, ProtocolError=0x82, ImplementationSpecificError=0x83, UnsupportedProtocolVersion=0x84, ClientIdentifierNotValid=0x85, BadUserNameOrPassword=0x86, NotAuthorized=0x87, ServerUnavailable=0x88, ServerBusy=0x89, Banned=0x8a, BadAuthenicationMethod=0x8c, TopicNameInvalid=0x90, PacketTooLarge=0x95, QuotaExceeded=0x97, PayloadFormatInvalid=0x99, RetainNotSupported=0x9a, QoSNotSupported=0x9b, UseAnotherServer=0x9c, ServerMoved=0x9d, ConnectionRateExceeded=0x9f),
 'PubAck': dict(Success=0, NoMatchingSubscribers=0x10, UnspecifiedError=0x80, ImplementationSpecificError=0x83, NotAuthorized=0x87, TopicNameInvalid=0x90, PacketIdentifierInUse=0x91, QuotaExceeded=0x97, PayloadFormatInvalid=0x99),
 'PubRel': dict(Success=0, PacketIdentifierNotFound=0x92),
 'UnsubAck': dict(Success=0, NoSubscriptionExisted=0x11, UnspecifiedError=0x80, ImplementationSpecificError=0x83, NotAuthorized=0x87, TopicFilterInvalid=0x8f, PacketIdentifierInUse=0x91),
 'Auth': dict(Success=0, ContinueAuthentication=0x18, ReAuthenticate=0x19),
 'Disconnect': dict(NormalDisconnection=0, DisconnectWithWillMessage=4, UnspecifiedError=0x80, MalformedPacket=0x81, ProtocolError=0x82, ImplementationSpecificError=0x83, NotAuthorized=0x87, ServerBusy=0x89, ServerShuttingDown=0x8b, BadAuthenicationMethod=0x8c, KeepAliveTimeout=0x8d, SessionTakenOver=0x8e, TopicFilterInvalid=0x8f, TopicNameInvalid=0x90, ReceiveMaximumExceeded=0x93, TopicAliasInvalid=0x94, PacketTooLarge=0x95, MessageRateTooHigh=0x96, QuotaExceeded=0x97, AdministrativeAction=0x98, PayloadFormatInvalid=0x99, RetainNotSupported=0x9a, QoSNotSupported=0x9b, UseAnotherServer=0x9c, ServerMoved=0x9d, SharedSubscriptionsNotSupported=0x9e, ConnectionRateExceeded=0x9f, MaximumConnectTime=0xa0, SubscriptionIdentifiersNotSupported=0xa1, WildcardSubscriptionsNotSupported=0xa2),
 'SubAck': dict(GrantedQoS0=0, GrantedQoS1=1, GrantedQoS2=2, UnspecifiedError=0x80, ImplementationSpecificError=0x83, NotAuthorized=0x87, TopicFilterInvalid=0x8f, PacketIdentifierInUse=0x91, QuotaExceeded=0x97, SharedSubscriptionsNotSupported=0x9e, SubscriptionIdentifiersNotSupported=0xa1, WildcardSubscriptionsNotSupported=0xa2),
}
o = ['@@ module reason']
for n, t in R.items():
    T = n + 'ReasonCode'
    l = n.lower()
    o.append(f'pub open spec fn {l}_code(r: {T}) -> u8 {{ match r {{ ' + ' '.join(f'{T}::{k} => {v:#x},' for k, v in t.items()) + ' } }')
    o.append(f'pub open spec fn {l}_of(c: u8) -> Option<{T}> {{ ' + ' else '.join(f'if c == {v:#x} {{ Some({T}::{k}) }}' for k, v in t.items()) + ' else { None } }')
    o.append(f'pub proof fn {l}_rt(r: {T}) ensures {l}_of({l}_code(r)) == Some(r) {{ }}')
    o.append(f'''impl Wire for {T} {{
    type V = {T};
    open spec fn vv(&self) -> {T} {{ *self }}
    open spec fn inv(&self) -> bool {{ true }}
    open spec fn fits(v: {T}) -> bool {{ true }}
    open spec fn same(a: {T}, b: {T}) -> bool {{ a == b }}
    open spec fn enc(v: {T}) -> Seq<u8> {{ seq![{l}_code(v)] }}
    open spec fn parse(s: Seq<u8>) -> Option<({T}, int)> {{ if s.len() < 1 {{ None }} else {{ match {l}_of(s[0]) {{ Some(r) => Some((r, 1)), None => None }} }} }}
    open spec fn must(s: Seq<u8>) -> bool {{ Self::parse(s) is Some }}
}}''')
for n in R:
    T = n + 'ReasonCode'
    o.append(f'''@@ members MqttUncheckedDeserialize for {T}
    open spec fn fsz() -> nat {{ 1 }}
    proof fn fsz_enc(&self) {{ }}
    proof fn fsz_short(s: Seq<u8>) {{ }}
@@ fn MqttUncheckedDeserialize for {T}::fixed_size
@@ tags C01
@@ fn MqttUncheckedDeserialize for {T}::unchecked_deserialize
@@ tags C02,C06
@@ fn MqttSerialize for {T}::serialize
@@ tags C02,C08''')
o.append('@@ end')
open(os.path.join(D, '45_reason.vc'), 'w').write('\n'.join(o) + '\n')

# ---- packets
def common(P, owner, V, body, mn, upd, news, getters, pos=''):
    """contracts every packet shares; `upd` maps setters"""
    return ''

def wire(P, V, bparse, benc, inv, vv, same, okv, mn, extra_fits='true'):
    p = P.lower()
    return f'''pub open spec fn {p}_body(v: {V}) -> Seq<u8> {{ {benc} }}
pub open spec fn {p}_bparse(b: Seq<u8>) -> Option<({V}, int)> {{ {bparse} }}
/// what every value a program can hold satisfies
pub open spec fn {p}_ok(v: {V}) -> bool {{ {okv} }}
impl Wire for {P} {{
    type V = {V};
    open spec fn vv(&self) -> {V} {{ {vv} }}
    open spec fn inv(&self) -> bool {{ {inv} }}
    open spec fn fits(v: {V}) -> bool {{ {p}_body(v).len() <= 0xfffffff && {extra_fits} }}
    open spec fn same(a: {V}, b: {V}) -> bool {{ {same} }}
    open spec fn enc(v: {V}) -> Seq<u8> {{ vbi_enc({p}_body(v).len()) + {p}_body(v) }}
    open spec fn parse(s: Seq<u8>) -> Option<({V}, int)> {{
        match vbi(s) {{
            Some((n, h)) => if s.len() < h + n {{ None }} else {{ match {p}_bparse(s.skip(h).take(n)) {{ Some((v, k)) => Some((v, h + k)), None => None }} }},
            None => None,
        }}
    }}
    open spec fn must(s: Seq<u8>) -> bool {{ Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }}
}}'''

PROPS_FNS = '''@@ fn {P}::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::{O}) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == ({P} {{ props: final(self).props, ..*old(self) }}),
@@ tail
    proof {{ broadcast use group_owner; }}
@@ fn {P}::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn {P}::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn {P}::build
@@ tags C07
    ensures ret == Packet::{P}(self),
'''
SER = '''@@ fn {P}::partial_size
@@ tags C03
    requires self.inv(), {P}::fits(self.vv()),
    ensures ret == {p}_body(self.vv()).len(),
@@ entry
    proof {{ self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }}
@@ fn MqttSerialize for {P}::serialize
@@ tags C02,C03,C08
@@ entry
    proof {{ self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }}
    let ghost o0 = $0.out();
@@ tail
    proof {{ assert($0.out() =~= o0 + Self::enc(self.vv())); }}
@@ fn MqttDeserialize for {P}::deserialize
@@ tags C01,C02,C04,C06
@@ entry
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) {{ h }} else {{ 0 }};
    let ghost n = if let Some((n, h)) = vbi(s0) {{ n }} else {{ 0 }};
    proof {{ {p}_facts(s0); }}
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof {{ assert(bb =~= s0.skip(h).take(n)); }}
//DE
@@ members MqttSize for {P}
    open spec fn mlo() -> nat {{ {mn} }}
    open spec fn mhi() -> nat {{ {mn} }}
@@ fn MqttSize for {P}::min_size
@@ tags C01
@@ fn MqttSize for {P}::size
@@ tags C03
@@ entry
    proof {{ vbi_enc_len({p}_body(self.vv()).len()); }}
'''
out = []
# PUBACK, PUBREC, PUBREL, PUBCOMP
for P, T in (('PubAck', 'PubAck'), ('PubRec', 'PubAck'), ('PubRel', 'PubRel'), ('PubComp', 'PubRel')):
    p, O, RC, l = P.lower(), P.upper(), T + 'ReasonCode', T.lower()
    V = f'AckV<{RC}>'
    out.append(f'@@ module {p}')
    if P == 'PubAck':
        out.append('pub struct AckV<R> { pub id: u16, pub rc: R, pub props: Seq<Ent> }')
    out.append(wire(P, V,
        f'''if b.len() < 3 {{ None }} else {{ match {l}_of(b[2]) {{
        Some(rc) => match pparse(b.skip(3)) {{ Some((es, k)) => if !all_permit(to_map(es), PropOwner::{O}) {{ None }} else {{ Some((AckV {{ id: ru16(b) as u16, rc, props: es }}, 3 + k)) }}, None => None }},
        None => None,
    }} }}''',
        f'be16(v.id as int) + seq![{l}_code(v.rc)] + Properties::enc(v.props)',
        f'self.props.inv() && self.props.valid_for(PropOwner::{O})',
        'AckV { id: self.packet_identifier.vv(), rc: self.reason_code, props: self.props.vv() }',
        'a.id == b.id && a.rc == b.rc && Properties::same(a.props, b.props)',
        f'props_ok(v.props, PropOwner::{O})', 5))
    out.append(f'''pub proof fn {p}_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && ({p}_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 4 <= k),
{{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) {{ pparse_len(s.skip(h).take(n).skip(3)); }}
}}''')
    out.append(f'''@@ fn {P}::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.reason_code == {RC}::Success, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn {P}::identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn {P}::reason_code
@@ tags C07
    ensures ret == self.vv().rc,
@@ fn {P}::set_reason_code
@@ tags C07
    ensures *final(self) == ({P} {{ reason_code: $0, ..*old(self) }}),
''' + PROPS_FNS.format(P=P, O=O) + SER.format(P=P, p=p, mn=5).replace('//DE\n', f'@@ let reason_code\n    proof {{ assert({l}_of(bb[2]) == Some(reason_code)); assert(buf.bv() == bb.skip(3)); }}\n'))
# AUTH, DISCONNECT
for P in ('Auth', 'Disconnect'):
    p, O, RC = P.lower(), P.upper(), P + 'ReasonCode'
    V = f'RcV<{RC}>'
    out.append(f'@@ module {p}')
    if P == 'Auth':
        out.append('pub struct RcV<R> { pub rc: R, pub props: Seq<Ent> }')
    out.append(wire(P, V,
        f'''if b.len() < 1 {{ None }} else {{ match {p}_of(b[0]) {{
        Some(rc) => match pparse(b.skip(1)) {{ Some((es, k)) => if !all_permit(to_map(es), PropOwner::{O}) {{ None }} else {{ Some((RcV {{ rc, props: es }}, 1 + k)) }}, None => None }},
        None => None,
    }} }}''',
        f'seq![{p}_code(v.rc)] + Properties::enc(v.props)',
        f'self.props.inv() && self.props.valid_for(PropOwner::{O})',
        'RcV { rc: self.reason_code, props: self.props.vv() }',
        'a.rc == b.rc && Properties::same(a.props, b.props)',
        f'props_ok(v.props, PropOwner::{O})', 3))
    out.append(f'''pub proof fn {p}_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && ({p}_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 2 <= k),
{{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) {{ pparse_len(s.skip(h).take(n).skip(1)); }}
}}''')
    out.append(f'''@@ fn {P}::new
@@ tags C07
    ensures ret.inv(), ret.reason_code == $0, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn {P}::reason_code
@@ tags C07
    ensures ret == self.vv().rc,
''' + PROPS_FNS.format(P=P, O=O) + SER.format(P=P, p=p, mn=3).replace('//DE\n', ''))
# SUBACK, UNSUBACK
for P in ('SubAck', 'UnsubAck'):
    p, O, RC = P.lower(), P.upper(), P + 'ReasonCode'
    V = f'RcsV<{RC}>'
    out.append(f'@@ module {p}')
    if P == 'SubAck':
        out.append('pub struct RcsV<R> { pub id: u16, pub props: Seq<Ent>, pub rcs: Seq<R> }')
    out.append(f'''pub open spec fn {p}_rcs_enc(r: Seq<{RC}>) -> Seq<u8> {{ Seq::new(r.len(), |i: int| {p}_code(r[i])) }}
pub open spec fn {p}_rcs_ok(b: Seq<u8>) -> bool {{ forall|i: int| 0 <= i < b.len() ==> {p}_of(#[trigger] b[i]) is Some }}
pub open spec fn {p}_rcs(b: Seq<u8>) -> Seq<{RC}> {{ Seq::new(b.len(), |i: int| {p}_of(b[i]).unwrap()) }}''')
    out.append(wire(P, V,
        f'''if b.len() < 2 {{ None }} else {{ match pparse(b.skip(2)) {{
        Some((es, k)) => if !all_permit(to_map(es), PropOwner::{O}) || 2 + k >= b.len() || !{p}_rcs_ok(b.skip(2 + k)) {{ None }} else {{
            Some((RcsV {{ id: ru16(b) as u16, props: es, rcs: {p}_rcs(b.skip(2 + k)) }}, b.len() as int))
        }},
        None => None,
    }} }}''',
        f'be16(v.id as int) + Properties::enc(v.props) + {p}_rcs_enc(v.rcs)',
        f'self.props.inv() && self.props.valid_for(PropOwner::{O})',
        'RcsV { id: self.packet_identifier.vv(), props: self.props.vv(), rcs: self.reason_codes@ }',
        'a.id == b.id && a.rcs == b.rcs && Properties::same(a.props, b.props)',
        f'props_ok(v.props, PropOwner::{O})', 5, 'v.rcs.len() > 0'))
    out.append(f'''pub proof fn {p}_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && n <= 0xfffffff && ({p}_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 4 <= k),
{{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) {{ pparse_len(s.skip(h).take(n).skip(2)); }}
}}''')
    out.append(f'''@@ fn {P}::new
@@ tags C07
    ensures ret.inv(), ret.packet_identifier.vv() == $0, ret.reason_codes@.len() == 0, ret.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn {P}::identifier
@@ tags C07
    ensures ret == self.vv().id,
@@ fn {P}::reason_codes
@@ tags C07
    ensures ret@ == self.vv().rcs,
@@ fn {P}::add_reason_code
@@ tags C07,C17
    ensures final(self).reason_codes@ == old(self).reason_codes@.push($0), *final(self) == ({P} {{ reason_codes: final(self).reason_codes, ..*old(self) }}),
''' + PROPS_FNS.format(P=P, O=O) + SER.format(P=P, p=p, mn=5).replace('''@@ fn MqttSerialize for''', '''@@ loop 0
    invariant self.inv(), {P}::fits(self.vv()), __it1@ == self.reason_codes.it(), __i1 <= __it1@.len(), __acc0 == __i1,
    decreases __it1@.len() - __i1
@@ fn MqttSerialize for'''.format(P=P)).replace('''@@ tail
    proof {{ assert('''.format(), f'''@@ loop 0
    invariant __it0@ == self.reason_codes.it(), __i0 <= __it0@.len(),
        (*$0).out() =~= o0 + vbi_enc({p}_body(self.vv()).len()) + be16(self.vv().id as int) + Properties::enc(self.vv().props) + {p}_rcs_enc(self.vv().rcs).take(__i0 as int),
    decreases __it0@.len() - __i0
@@ loop-body 0
    proof {{ let r = {p}_rcs_enc(self.vv().rcs); assert(r.take(__i0 + 1) =~= r.take(__i0 as int).push(r[__i0 as int])); }}
@@ tail
    proof {{ assert({p}_rcs_enc(self.vv().rcs).take(self.vv().rcs.len() as int) =~= {p}_rcs_enc(self.vv().rcs)); assert(''').replace('//DE\n', f'''@@ let props
    let ghost c0 = bb.len() - buf.bv().len();
    proof {{ pparse_len(bb.skip(2)); }}
@@ loop 0
    invariant
        buf.pr() == fr, c0 <= bb.len(), buf.bv() == bb.skip(c0 + reason_codes@.len()), c0 + reason_codes@.len() <= bb.len(),
        forall|i: int| 0 <= i < reason_codes@.len() ==> {p}_of(bb[c0 + i]) == Some(#[trigger] reason_codes@[i]),
    decreases buf.bv().len()
@@ loop-body 0
    proof {{ let i = reason_codes@.len() as int; assert(bb.skip(c0)[i] == bb[c0 + i]); assert(buf.bv()[0] == bb[c0 + i]); }}
@@ loop-after 0
    proof {{
        assert(bb.skip(c0).len() == reason_codes@.len());
        assert forall|i: int| 0 <= i < bb.skip(c0).len() implies {p}_of(#[trigger] bb.skip(c0)[i]) == Some(reason_codes@[i]) by {{ }}
        assert({p}_rcs(bb.skip(c0)) =~= reason_codes@);
    }}
''').replace(f'@@ fn MqttDeserialize for {P}::deserialize\n', f'@@ fn MqttDeserialize for {P}::deserialize\n@@ attr #[verifier::loop_isolation(false)]\n'))
out.append('@@ end')
open(os.path.join(D, '50_acks.vc'), 'w').write('\n'.join(out) + '\n')

