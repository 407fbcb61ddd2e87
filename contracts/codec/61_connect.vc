@@ module connect
pub struct WillV { pub props: Seq<Ent>, pub topic: Seq<char>, pub payload: Seq<u8> }
pub struct ConnectV { pub flags: u8, pub ka: u16, pub props: Seq<Ent>, pub id: Seq<char>, pub will: Option<WillV>, pub user: Option<Seq<char>>, pub pass: Option<Seq<u8>> }
/// bit 0 is reserved, there is no QoS 3, and without a will there is no will QoS and no will retain
pub open spec fn cf_ok(f: u8) -> bool { f & 1 == 0 && f & 0x18 != 0x18 && (f & 0x38 != 0 ==> f & 4 != 0) }
pub open spec fn cf_qos(f: u8) -> Option<QoS> { if f & 0x18 == 0 { Some(QoS::QoS0) } else if f & 0x18 == 8 { Some(QoS::QoS1) } else if f & 0x18 == 0x10 { Some(QoS::QoS2) } else { None } }
pub open spec fn cf_of(q: QoS) -> u8 { match q { QoS::QoS0 => 0, QoS::QoS1 => 8, QoS::QoS2 => 0x10 } }
pub open spec fn mqtt_name() -> Seq<char> { seq!['M', 'Q', 'T', 'T'] }
pub open spec fn will_enc(v: WillV) -> Seq<u8> { Properties::enc(v.props) + str_enc(v.topic) + bin_enc(v.payload) }
pub open spec fn will_parse(b: Seq<u8>) -> Option<(WillV, int)> {
    match pparse(b) {
        Some((es, k)) => if !all_permit(to_map(es), PropOwner::WILL) { None } else { match str_parse(b.skip(k)) {
            Some((t, i)) => match bin_parse(b.skip(k + i)) { Some((p, j)) => Some((WillV { props: es, topic: t, payload: p }, k + i + j)), None => None },
            None => None,
        } },
        None => None,
    }
}
pub open spec fn will_same(a: WillV, b: WillV) -> bool { Properties::same(a.props, b.props) && a.topic == b.topic && a.payload == b.payload }
pub open spec fn will_ok(v: WillV) -> bool { props_ok(v.props, PropOwner::WILL) && str_ok(v.topic) && v.payload.len() <= 65535 }
pub open spec fn owill_enc(v: Option<WillV>) -> Seq<u8> { match v { Some(w) => will_enc(w), None => seq![] } }
pub open spec fn ostr_enc(v: Option<Seq<char>>) -> Seq<u8> { match v { Some(w) => str_enc(w), None => seq![] } }
pub open spec fn obin_enc(v: Option<Seq<u8>>) -> Seq<u8> { match v { Some(w) => bin_enc(w), None => seq![] } }
pub open spec fn owill_parse(on: bool, b: Seq<u8>) -> Option<(Option<WillV>, int)> { if on { match will_parse(b) { Some((w, k)) => Some((Some(w), k)), None => None } } else { Some((None, 0)) } }
pub open spec fn ostr_parse(on: bool, b: Seq<u8>) -> Option<(Option<Seq<char>>, int)> { if on { match str_parse(b) { Some((w, k)) => Some((Some(w), k)), None => None } } else { Some((None, 0)) } }
pub open spec fn obin_parse(on: bool, b: Seq<u8>) -> Option<(Option<Seq<u8>>, int)> { if on { match bin_parse(b) { Some((w, k)) => Some((Some(w), k)), None => None } } else { Some((None, 0)) } }
pub open spec fn connect_head(v: ConnectV) -> Seq<u8> { str_enc(mqtt_name()) + seq![5u8, v.flags] + be16(v.ka as int) }
pub open spec fn connect_body(v: ConnectV) -> Seq<u8> {
    connect_head(v) + Properties::enc(v.props) + str_enc(v.id) + owill_enc(v.will) + ostr_enc(v.user) + obin_enc(v.pass)
}
/// what follows the properties
pub open spec fn connect_tail(f: u8, ka: u16, es: Seq<Ent>, b: Seq<u8>) -> Option<(ConnectV, int)> {
    match str_parse(b) {
        Some((id, i)) => match owill_parse(f & 4 != 0, b.skip(i)) {
            Some((will, j)) => match ostr_parse(f & 0x80 != 0, b.skip(i + j)) {
                Some((user, k)) => match obin_parse(f & 0x40 != 0, b.skip(i + j + k)) {
                    Some((pass, l)) => Some((ConnectV { flags: f, ka, props: es, id, will, user, pass }, i + j + k + l)),
                    None => None,
                },
                None => None,
            },
            None => None,
        },
        None => None,
    }
}
pub open spec fn connect_bparse(b: Seq<u8>) -> Option<(ConnectV, int)> {
    match str_parse(b) {
        Some((nm, h)) => if nm != mqtt_name() || b.len() < h + 4 || b[h] != 5 || !cf_ok(b[h + 1]) { None } else { match pparse(b.skip(h + 4)) {
            Some((es, k)) => if !all_permit(to_map(es), PropOwner::CONNECT) { None } else {
                match connect_tail(b[h + 1], ru16(b.skip(h + 2)) as u16, es, b.skip(h + 4 + k)) { Some((v, j)) => Some((v, h + 4 + k + j)), None => None }
            },
            None => None,
        } },
        None => None,
    }
}
pub open spec fn owill_same(a: Option<WillV>, b: Option<WillV>) -> bool { match (a, b) { (Some(x), Some(y)) => will_same(x, y), (None, None) => true, _ => false } }
pub open spec fn connect_ok(v: ConnectV) -> bool {
    cf_ok(v.flags) && props_ok(v.props, PropOwner::CONNECT) && str_ok(v.id) && (v.will matches Some(w) ==> will_ok(w)) && (v.user matches Some(w) ==> str_ok(w)) && (v.pass matches Some(w) ==> w.len() <= 65535)
        && (v.flags & 4 != 0 <==> v.will is Some) && (v.flags & 0x80 != 0 <==> v.user is Some) && (v.flags & 0x40 != 0 <==> v.pass is Some)
}
impl Wire for ConnectFlags {
    type V = u8;
    open spec fn vv(&self) -> u8 { self.bits }
    open spec fn inv(&self) -> bool { cf_ok(self.bits) }
    open spec fn fits(v: u8) -> bool { true }
    open spec fn same(a: u8, b: u8) -> bool { a == b }
    open spec fn enc(v: u8) -> Seq<u8> { seq![v] }
    open spec fn parse(s: Seq<u8>) -> Option<(u8, int)> { if s.len() < 1 || !cf_ok(s[0]) { None } else { Some((s[0], 1)) } }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Wire for Will {
    type V = WillV;
    open spec fn vv(&self) -> WillV { WillV { props: self.props.vv(), topic: self.topic.vv(), payload: self.payload.vv() } }
    open spec fn inv(&self) -> bool { self.props.inv() && self.props.valid_for(PropOwner::WILL) && self.topic.inv() && self.payload.inv() }
    open spec fn fits(v: WillV) -> bool { Properties::fits(v.props) }
    open spec fn same(a: WillV, b: WillV) -> bool { will_same(a, b) }
    open spec fn enc(v: WillV) -> Seq<u8> { will_enc(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(WillV, int)> { will_parse(s) }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some }
}
impl Connect {
    pub open spec fn flags_inv(&self) -> bool {
        &&& cf_ok(self.flags.bits)
        &&& (self.flags.bits & 4 != 0 <==> self.will_info is Some)
        &&& (self.flags.bits & 0x80 != 0 <==> self.username is Some)
        &&& (self.flags.bits & 0x40 != 0 <==> self.password is Some)
    }
}
impl Wire for Connect {
    type V = ConnectV;
    open spec fn vv(&self) -> ConnectV {
        ConnectV { flags: self.flags.bits, ka: self.keep_alive.vv(), props: self.props.vv(), id: self.clientid.vv(),
            will: match self.will_info { Some(w) => Some(w.vv()), None => None },
            user: match self.username { Some(w) => Some(w.vv()), None => None },
            pass: match self.password { Some(w) => Some(w.vv()), None => None } }
    }
    open spec fn inv(&self) -> bool {
        &&& self.flags_inv()
        &&& self.props.inv() && self.props.valid_for(PropOwner::CONNECT) && self.clientid.inv()
        &&& (self.will_info matches Some(w) ==> w.inv())
        &&& (self.username matches Some(w) ==> w.inv())
        &&& (self.password matches Some(w) ==> w.inv())
    }
    open spec fn fits(v: ConnectV) -> bool { connect_body(v).len() <= 0xfffffff }
    open spec fn same(a: ConnectV, b: ConnectV) -> bool {
        a.flags == b.flags && a.ka == b.ka && Properties::same(a.props, b.props) && a.id == b.id && owill_same(a.will, b.will) && a.user == b.user && a.pass == b.pass
    }
    open spec fn enc(v: ConnectV) -> Seq<u8> { vbi_enc(connect_body(v).len()) + connect_body(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(ConnectV, int)> {
        match vbi(s) {
            Some((n, h)) => if s.len() < h + n { None } else { match connect_bparse(s.skip(h).take(n)) { Some((v, k)) => Some((v, h + k)), None => None } },
            None => None,
        }
    }
    open spec fn must(s: Seq<u8>) -> bool { Self::parse(s) is Some && Self::parse(s).unwrap().1 == vbi(s).unwrap().0 + vbi(s).unwrap().1 }
}
/// what the operations on flags come to
pub proof fn cf_bits(f: u8)
    ensures 8u8 | 0x10 == 0x18, 0x18u8 | 0x20 == 0x38, (f & !0xfeu8 == 0) == (f & 1 == 0), 0u8 & 0xfe == 0,
        f & 0x18 == 0 || f & 0x18 == 8 || f & 0x18 == 0x10 || f & 0x18 == 0x18,
        (f & 4 == 4) == (f & 4 != 0), (f & 0x80 == 0x80) == (f & 0x80 != 0), (f & 0x40 == 0x40) == (f & 0x40 != 0),
        cf_ok(0), (0u8 & 4) == 0, (0u8 & 0x80) == 0, (0u8 & 0x40) == 0,
{
    assert(8u8 | 0x10 == 0x18) by (bit_vector);
    assert(0x18u8 | 0x20 == 0x38) by (bit_vector);
    assert((f & !0xfeu8 == 0) == (f & 1 == 0)) by (bit_vector);
    assert(f & 0x18 == 0 || f & 0x18 == 8 || f & 0x18 == 0x10 || f & 0x18 == 0x18) by (bit_vector);
    assert((f & 4 == 4) == (f & 4 != 0)) by (bit_vector);
    assert((f & 0x80 == 0x80) == (f & 0x80 != 0)) by (bit_vector);
    assert((f & 0x40 == 0x40) == (f & 0x40 != 0)) by (bit_vector);
    assert(0u8 & 0xfe == 0 && 0u8 & 1 == 0 && 0u8 & 0x18 == 0 && 0u8 & 0x38 == 0 && 0u8 & 4 == 0 && 0u8 & 0x80 == 0 && 0u8 & 0x40 == 0) by (bit_vector);
}
pub proof fn cf_set(f: u8, m: u8)
    requires f & 1 == 0, f & 0x18 != 0x18, f & 0x38 != 0 ==> f & 4 != 0, m == 2 || m == 4 || m == 0x40 || m == 0x80 || (m == 0x20 && f & 4 != 0)
    ensures cf_ok(f | m), ((f | m) & 4 != 0) == (f & 4 != 0 || m == 4), ((f | m) & 0x80 != 0) == (f & 0x80 != 0 || m == 0x80), ((f | m) & 0x40 != 0) == (f & 0x40 != 0 || m == 0x40),
{
    assert((f & 1 == 0 && f & 0x18 != 0x18 && (f & 0x38 != 0 ==> f & 4 != 0) && (m == 2 || m == 4 || m == 0x40 || m == 0x80 || (m == 0x20 && f & 4 != 0))) ==>
        ((f | m) & 1 == 0 && (f | m) & 0x18 != 0x18 && ((f | m) & 0x38 != 0 ==> (f | m) & 4 != 0)
        && ((f | m) & 4 != 0) == (f & 4 != 0 || m == 4) && ((f | m) & 0x80 != 0) == (f & 0x80 != 0 || m == 0x80) && ((f | m) & 0x40 != 0) == (f & 0x40 != 0 || m == 0x40))) by (bit_vector);
}
pub proof fn cf_setqos(f: u8, q: u8)
    requires f & 1 == 0, f & 4 != 0, q == 0 || q == 8 || q == 0x10
    ensures cf_ok((f & !0x18u8) | q), ((f & !0x18u8) | q) & 0x18 == q, ((f & !0x18u8) | q) & !0x18u8 == f & !0x18u8,
        (((f & !0x18u8) | q) & 4 != 0) == (f & 4 != 0), (((f & !0x18u8) | q) & 0x80 != 0) == (f & 0x80 != 0), (((f & !0x18u8) | q) & 0x40 != 0) == (f & 0x40 != 0),
{
    assert((f & 1 == 0 && f & 4 != 0 && (q == 0 || q == 8 || q == 0x10)) ==> {
        let g = (f & !0x18u8) | q;
        g & 1 == 0 && g & 0x18 != 0x18 && (g & 0x38 != 0 ==> g & 4 != 0) && g & 0x18 == q && g & !0x18u8 == f & !0x18u8
        && (g & 4 != 0) == (f & 4 != 0) && (g & 0x80 != 0) == (f & 0x80 != 0) && (g & 0x40 != 0) == (f & 0x40 != 0) }) by (bit_vector);
}
pub proof fn mqtt_bytes()
    ensures "MQTT"@ == mqtt_name(), encode_utf8(mqtt_name()).len() == 4, str_enc(mqtt_name()).len() == 6, str_ok(mqtt_name())
{
    reveal_strlit("MQTT");
    assert("MQTT"@ =~= mqtt_name());
    is_ascii_chars_encode_utf8(mqtt_name());
}
pub proof fn will_len(b: Seq<u8>)
    ensures will_parse(b) matches Some((v, k)) ==> k == will_enc(v).len() && 1 <= k <= b.len() && esum(v.props) <= 0xfffffff
{
    pparse_len(b);
    if let Some((es, k)) = pparse(b) { str_parse_len(b.skip(k)); }
}
pub proof fn tail_len(f: u8, ka: u16, es: Seq<Ent>, b: Seq<u8>)
    ensures connect_tail(f, ka, es, b) matches Some((v, n)) ==> 2 <= n <= b.len() && n == str_enc(v.id).len() + owill_enc(v.will).len() + ostr_enc(v.user).len() + obin_enc(v.pass).len()
{
    str_parse_len(b);
    if let Some((id, i)) = str_parse(b) {
        will_len(b.skip(i));
        if let Some((will, j)) = owill_parse(f & 4 != 0, b.skip(i)) { str_parse_len(b.skip(i + j)); }
    }
}
/// the parse of a body, step by step
pub proof fn cparse_head(b: Seq<u8>)
    ensures connect_bparse(b) matches Some((v, n)) ==> str_parse(b) == Some((mqtt_name(), 6int)) && b.len() >= 10 && b[6] == 5 && cf_ok(b[7])
            && (pparse(b.skip(10)) matches Some((es, k)) && all_permit(to_map(es), PropOwner::CONNECT)
                && (connect_tail(b[7], ru16(b.skip(8)) as u16, es, b.skip(10 + k)) matches Some((v2, j)) && v2 == v && n == 10 + k + j)),
        str_parse(b) is Some && str_parse(b).unwrap().0 == mqtt_name() ==> str_parse(b).unwrap().1 == 6,
        str_parse(b) is Some && str_parse(b).unwrap().0 == mqtt_name() && b.len() >= 10 && b[6] == 5 && cf_ok(b[7])
            && pparse(b.skip(10)) is Some && all_permit(to_map(pparse(b.skip(10)).unwrap().0), PropOwner::CONNECT)
            && connect_tail(b[7], ru16(b.skip(8)) as u16, pparse(b.skip(10)).unwrap().0, b.skip(10 + pparse(b.skip(10)).unwrap().1)) is Some
            ==> connect_bparse(b) == (match connect_tail(b[7], ru16(b.skip(8)) as u16, pparse(b.skip(10)).unwrap().0, b.skip(10 + pparse(b.skip(10)).unwrap().1)) {
                Some((v, j)) => Some((v, 10 + pparse(b.skip(10)).unwrap().1 + j)), None => None }),
{
    mqtt_bytes();
    str_parse_len(b);
}
/// the tail parses exactly when each part does
pub proof fn tail_cut(f: u8, ka: u16, es: Seq<Ent>, b: Seq<u8>)
    ensures ({
        let i = str_parse(b).unwrap().1;
        let j = owill_parse(f & 4 != 0, b.skip(i)).unwrap().1;
        let k = ostr_parse(f & 0x80 != 0, b.skip(i + j)).unwrap().1;
        let l = obin_parse(f & 0x40 != 0, b.skip(i + j + k)).unwrap().1;
        &&& (connect_tail(f, ka, es, b) is Some <==> str_parse(b) is Some && owill_parse(f & 4 != 0, b.skip(i)) is Some && ostr_parse(f & 0x80 != 0, b.skip(i + j)) is Some && obin_parse(f & 0x40 != 0, b.skip(i + j + k)) is Some)
        &&& connect_tail(f, ka, es, b) is Some ==> connect_tail(f, ka, es, b).unwrap() == (ConnectV { flags: f, ka, props: es, id: str_parse(b).unwrap().0, will: owill_parse(f & 4 != 0, b.skip(i)).unwrap().0,
            user: ostr_parse(f & 0x80 != 0, b.skip(i + j)).unwrap().0, pass: obin_parse(f & 0x40 != 0, b.skip(i + j + k)).unwrap().0 }, i + j + k + l)
    })
{ }
pub proof fn bin_parse_len(b: Seq<u8>)
    ensures bin_parse(b) matches Some((v, k)) ==> 2 <= k <= b.len() && k == bin_enc(v).len()
{ }
pub proof fn connect_facts(s: Seq<u8>)
    ensures vbi(s) matches Some((n, h)) ==> 1 <= h <= 4 && 0 <= n <= 0xfffffff && (connect_bparse(s.skip(h).take(n)) matches Some((v, k)) ==> 13 <= k <= s.skip(h).take(n).len() && k == connect_body(v).len()),
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) {
        let b = s.skip(h).take(n);
        str_parse_len(b);
        mqtt_bytes();
        if let Some((nm, h)) = str_parse(b) { if b.len() >= h + 4 {
            pparse_len(b.skip(h + 4));
            if let Some((es, k)) = pparse(b.skip(h + 4)) { tail_len(b[h + 1], ru16(b.skip(h + 2)) as u16, es, b.skip(h + 4 + k)); }
        } }
    }
}
pub proof fn connect_same_len(a: ConnectV, b: ConnectV)
    requires Connect::same(a, b)
    ensures connect_body(a).len() == connect_body(b).len()
{
    same_len(a.props, b.props);
    if let (Some(x), Some(y)) = (a.will, b.will) { same_len(x.props, y.props); }
}
@@ fn MqttSerialize for ConnectFlags::serialize
@@ members MqttUncheckedDeserialize for ConnectFlags
    open spec fn fsz() -> nat { 1 }
    proof fn fsz_enc(&self) { }
    proof fn fsz_short(s: Seq<u8>) { }
@@ fn MqttUncheckedDeserialize for ConnectFlags::unchecked_deserialize
@@ tags C01,C06
@@ entry
    proof { cf_bits($0.bv()[0]); }
@@ fn MqttUncheckedDeserialize for ConnectFlags::fixed_size
@@ members From<QoS> for ConnectFlags
    open spec fn of(q: QoS) -> ConnectFlags { ConnectFlags { bits: cf_of(q) } }
@@ fn From<QoS> for ConnectFlags::from
@@ tags C07
@@ entry
    proof { cf_bits(0); }
@@ members TryInto<QoS> for ConnectFlags
    open spec fn tri_err(self, e: DataParseError) -> bool { !(e is InsufficientBuffer) }
    open spec fn tri(self) -> Option<QoS> { cf_qos(self.bits) }
@@ fn TryInto<QoS> for ConnectFlags::try_into
@@ tags C01,C06
@@ entry
    proof { cf_bits(self.bits); }
@@ fn Will::new
@@ tags C07
    ensures ret is Ok <==> str_ok($0@) && $1.bv().len() <= 65535,
        ret matches Ok(w) ==> w.inv() && w.topic.vv() == $0@ && w.payload.vv() == $1.bv() && w.props.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ fn Will::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::WILL) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (Will { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn Will::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn Will::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn Will::topic
@@ tags C07
    ensures ret@ == self.vv().topic,
@@ fn Will::set_topic
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), ret is Ok <==> str_ok($0@),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).topic.vv() == $0@ && *final(self) == (Will { topic: final(self).topic, ..*old(self) }),
@@ fn Will::payload
@@ tags C07
    ensures *final(self) == *old(self), ret@ == old(self).vv().payload,
@@ fn Will::set_payload
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), ret is Ok <==> $0.bv().len() <= 65535,
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).payload.vv() == $0.bv() && *final(self) == (Will { payload: final(self).payload, ..*old(self) }),
@@ fn MqttSerialize for Will::serialize
@@ tags C02,C08
@@ tail
    proof { assert($0.out() =~= old($0).out() + Self::enc(self.vv())); }
@@ fn MqttDeserialize for Will::deserialize
@@ tags C01,C02,C06
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
@@ entry
    hide(vbi_parse); hide(pparse); hide(to_map); hide(esum); hide(vbi_enc); hide(str_parse); hide(str_enc); hide(bin_parse); hide(bin_enc); hide(all_permit); hide(map_ok); hide(ents); hide(str_ok); hide(eenc);
    let ghost s0 = (*$0).bv();
    proof { will_len(s0); pparse_len(s0); }
@@ let props
    let ghost k = pparse(s0).unwrap().1;
    let ghost rest = s0.skip(k);
    proof {
        assert(buf.bv() =~= rest);
        str_parse_len(rest);
        if let Some((t, i)) = str_parse(rest) { assert(rest.skip(i) =~= s0.skip(k + i)); bin_parse_len(rest.skip(i)); }
    }
@@ members MqttSize for Will
    open spec fn mlo() -> nat { 3 }
    open spec fn mhi() -> nat { 5 }
@@ fn MqttSize for Will::min_size
@@ fn MqttSize for Will::size
@@ tags C03
@@ entry
    proof { self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat); }

@@ fn Connect::new
@@ tags C07
    ensures ret is Ok <==> str_ok($0@),
        ret matches Ok(c) ==> c.inv() && c.flags.bits == 0 && c.keep_alive.vv() == 0 && c.props.pmap() == Map::<Property, Seq<PV>>::empty() && c.clientid.vv() == $0@ && c.will_info is None && c.username is None && c.password is None,
@@ entry
    proof { cf_bits(0); }
@@ fn Connect::set_will_retain
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), ret is Ok <==> old(self).will_info is Some,
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> *final(self) == (Connect { flags: ConnectFlags { bits: old(self).flags.bits | 0x20 }, ..*old(self) }),
@@ entry
    proof { cf_bits(self.flags.bits); if self.flags.bits & 4 != 0 { cf_set(self.flags.bits, 0x20); } }
@@ fn Connect::set_clean_start
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), *final(self) == (Connect { flags: ConnectFlags { bits: old(self).flags.bits | 2 }, ..*old(self) }),
@@ entry
    proof { cf_bits(self.flags.bits); cf_set(self.flags.bits, 2); }
@@ fn Connect::clientid
@@ tags C07
    ensures ret@ == self.vv().id,
@@ fn Connect::flags
@@ tags C07
    ensures ret == self.flags,
@@ fn Connect::username
@@ tags C07
    ensures ret is Some <==> self.vv().user is Some, ret matches Some(u) ==> u@ == self.vv().user.unwrap(),
@@ fn Connect::set_username
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), ret is Ok <==> str_ok($0@),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).vv().user == Some($0@) && *final(self) == (Connect { flags: ConnectFlags { bits: old(self).flags.bits | 0x80 }, username: final(self).username, ..*old(self) }),
@@ entry
    proof { cf_bits(self.flags.bits); cf_set(self.flags.bits, 0x80); }
@@ fn Connect::password
@@ tags C07
    ensures ret is Some <==> self.vv().pass is Some, ret matches Some(u) ==> u@ == self.vv().pass.unwrap(),
@@ fn Connect::set_password
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), ret is Ok <==> $0.bv().len() <= 65535,
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).vv().pass == Some($0.bv()) && *final(self) == (Connect { flags: ConnectFlags { bits: old(self).flags.bits | 0x40 }, password: final(self).password, ..*old(self) }),
@@ entry
    proof { cf_bits(self.flags.bits); cf_set(self.flags.bits, 0x40); }
@@ fn Connect::keep_alive
@@ tags C07
    ensures ret == self.vv().ka,
@@ fn Connect::set_keep_alive
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), final(self).keep_alive.vv() == $0, *final(self) == (Connect { keep_alive: final(self).keep_alive, ..*old(self) }),
@@ fn Connect::will
@@ tags C07
    ensures ret is Some <==> self.will_info is Some, ret matches Some(w) ==> *w == self.will_info.unwrap(),
@@ fn Connect::set_will
@@ tags C07
    requires old(self).inv(), $0.inv(),
    ensures final(self).inv(), *final(self) == (Connect { flags: ConnectFlags { bits: old(self).flags.bits | 4 }, will_info: Some($0), ..*old(self) }),
@@ entry
    proof { cf_bits(self.flags.bits); cf_set(self.flags.bits, 4); }
@@ fn Connect::set_will_qos
@@ tags C07
    requires old(self).inv(),
    ensures final(self).inv(), ret is Ok <==> old(self).will_info is Some,
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).flags.bits & 0x18 == cf_of($0) && final(self).flags.bits & !0x18u8 == old(self).flags.bits & !0x18u8 && *final(self) == (Connect { flags: final(self).flags, ..*old(self) }),
@@ entry
    proof { cf_bits(self.flags.bits); if self.flags.bits & 4 != 0 { cf_setqos(self.flags.bits, cf_of($0)); } }
@@ fn Connect::add_prop
@@ tags C07,C11
    requires old(self).inv(), $1.inv(), old(self).props.size <= 0xffffffff,
    ensures
        final(self).inv(),
        ret is Ok <==> permits($0, PropOwner::CONNECT) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).props.pmap() == m_put(old(self).props.pmap(), $0, $1.vv()) && *final(self) == (Connect { props: final(self).props, ..*old(self) }),
@@ tail
    proof { broadcast use group_owner; }
@@ fn Connect::get_prop
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.props.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.props.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.props.pmap()[$0][i],
@@ fn Connect::props_iter
@@ tags C11
    ensures ivals(ret@) == self.vv().props,
@@ fn Connect::build
@@ tags C07
    ensures ret == Packet::Connect(self),
@@ fn Connect::partial_size
@@ tags C03
    requires self.inv(), Connect::fits(self.vv()),
    ensures ret == connect_body(self.vv()).len(),
@@ entry
    proof {
        mqtt_bytes(); self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat);
        if self.will_info is Some {
            let w = self.will_info.unwrap();
            w.props.facts();
            assert(owill_enc(self.vv().will).len() <= connect_body(self.vv()).len());
            assert(Properties::enc(w.vv().props).len() >= esum(w.vv().props));
        }
    }
@@ fn MqttSerialize for Connect::serialize
@@ tags C02,C03,C08
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@@ entry
    hide(vbi_enc); hide(to_map); hide(esum); hide(str_ok); hide(str_enc); hide(bin_enc); hide(eenc); hide(ents); hide(map_ok); hide(encode_utf8);
    let ghost o0 = $0.out();
    proof {
        mqtt_bytes(); self.props.facts(); vbi_enc_len(esum(self.vv().props) as nat);
        if self.will_info is Some {
            let w = self.will_info.unwrap();
            w.props.facts();
            assert(owill_enc(self.vv().will).len() <= connect_body(self.vv()).len());
            assert(Properties::enc(w.vv().props).len() >= esum(w.vv().props));
        }
    }
@@ tail
    proof { assert($0.out() =~= o0 + Self::enc(self.vv())); }
@@ fn MqttDeserialize for Connect::deserialize
@@ tags C01,C02,C04,C06
@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@@ entry
    hide(vbi_parse); hide(pparse); hide(to_map); hide(esum); hide(vbi_enc); hide(str_parse); hide(str_enc); hide(bin_parse); hide(bin_enc); hide(all_permit); hide(map_ok); hide(ents); hide(str_ok); hide(eenc); hide(will_parse); hide(will_enc); hide(mqtt_name); hide(encode_utf8); hide(connect_bparse); hide(connect_body); hide(connect_tail);
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    proof { connect_facts(s0); mqtt_bytes(); }
@@ let buf
    let ghost bb = buf.bv();
    proof { assert(bb =~= s0.skip(h).take(n)); str_parse_len(bb); cparse_head(bb); }
@@ let protocol_name
    proof { assert(buf.bv() == bb.skip(str_parse(bb).unwrap().1)); }
@@ let protocol_version
    proof { assert(str_parse(bb).unwrap().1 == 6); assert(bb.skip(6)[0] == bb[6]); assert(buf.bv() =~= bb.skip(7)); }
@@ let flags
    proof { assert(bb.skip(7)[0] == bb[7]); assert(buf.bv() =~= bb.skip(8)); assert(flags.bits == bb[7] && cf_ok(bb[7])); cf_bits(flags.bits); }
@@ let keep_alive
    proof { assert(buf.bv() =~= bb.skip(10)); assert(keep_alive.vv() == ru16(bb.skip(8)) as u16); pparse_len(bb.skip(10)); }
@@ let props
    let ghost es = pparse(bb.skip(10)).unwrap().0;
    let ghost k = pparse(bb.skip(10)).unwrap().1;
    let ghost tl = bb.skip(10 + k);
    proof { assert(buf.bv() =~= tl); tail_cut(flags.bits, keep_alive.vv(), es, tl); tail_len(flags.bits, keep_alive.vv(), es, tl); str_parse_len(tl); }
@@ let clientid
    let ghost i = str_parse(tl).unwrap().1;
    proof { assert(buf.bv() =~= tl.skip(i)); will_len(tl.skip(i)); }
@@ let will_info
    let ghost j = owill_parse(flags.bits & 4 != 0, tl.skip(i)).unwrap().1;
    proof { assert(buf.bv() =~= tl.skip(i + j)); str_parse_len(tl.skip(i + j)); }
@@ let username
    let ghost m = ostr_parse(flags.bits & 0x80 != 0, tl.skip(i + j)).unwrap().1;
    proof { assert(buf.bv() =~= tl.skip(i + j + m)); }
@@ let password
    proof { assert(obin_parse(flags.bits & 0x40 != 0, tl.skip(i + j + m)) is Some); }
@@ let packet
    proof {
        assert(connect_bparse(bb) is Some);
        assert(Connect::same(packet.vv(), connect_bparse(bb).unwrap().0));
        connect_same_len(packet.vv(), connect_bparse(bb).unwrap().0);
    }
@@ members MqttSize for Connect
    open spec fn mlo() -> nat { 13 }
    open spec fn mhi() -> nat { 14 }
@@ fn MqttSize for Connect::min_size
@@ tags C01
@@ entry
    proof { mqtt_bytes(); }
@@ fn MqttSize for Connect::size
@@ tags C03
@@ entry
    proof { vbi_enc_len(connect_body(self.vv()).len()); }
@@ end
