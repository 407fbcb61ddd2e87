@@ module props
// ---- entries and tables
pub open spec fn pv_enc(v: PV) -> Seq<u8> {
    match v {
        PV::Bool(b) => seq![b],
        PV::Byte(b) => seq![b],
        PV::FourBytesInt(n) => be32(n as int),
        PV::String(s) => str_enc(s),
        PV::StringPair(a, b) => str_enc(a) + str_enc(b),
        PV::Data(d) => bin_enc(d),
        PV::VarInt(n) => vbi_enc(n as nat),
        PV::TwoBytesInt(n) => be16(n as int),
    }
}
pub open spec fn pv_ok(v: PV) -> bool {
    match v {
        PV::String(s) => str_ok(s),
        PV::StringPair(a, b) => str_ok(a) && str_ok(b),
        PV::Data(d) => d.len() <= 65535,
        PV::VarInt(n) => n <= 0xfffffff,
        _ => true,
    }
}
pub open spec fn pv_kind(v: PV) -> MqttPropValueType {
    match v {
        PV::Bool(_) => MqttPropValueType::Bool,
        PV::Byte(_) => MqttPropValueType::Byte,
        PV::FourBytesInt(_) => MqttPropValueType::FourBytesInt,
        PV::String(_) => MqttPropValueType::String,
        PV::StringPair(_, _) => MqttPropValueType::StringPair,
        PV::Data(_) => MqttPropValueType::Data,
        PV::VarInt(_) => MqttPropValueType::VarInt,
        PV::TwoBytesInt(_) => MqttPropValueType::TwoBytesInt,
    }
}
pub open spec fn pv_parse(t: MqttPropValueType, s: Seq<u8>) -> Option<(PV, int)> {
    match t {
        MqttPropValueType::Bool => if s.len() < 1 { None } else { Some((PV::Bool(s[0]), 1)) },
        MqttPropValueType::Byte => if s.len() < 1 { None } else { Some((PV::Byte(s[0]), 1)) },
        MqttPropValueType::FourBytesInt => if s.len() < 4 { None } else { Some((PV::FourBytesInt(ru32(s) as u32), 4)) },
        MqttPropValueType::String => match str_parse(s) { Some((c, k)) => Some((PV::String(c), k)), None => None },
        MqttPropValueType::StringPair => match MqttUtf8StringPair::parse(s) { Some((c, k)) => Some((PV::StringPair(c.0, c.1), k)), None => None },
        MqttPropValueType::Data => match bin_parse(s) { Some((c, k)) => Some((PV::Data(c), k)), None => None },
        MqttPropValueType::VarInt => match vbi(s) { Some((c, k)) => Some((PV::VarInt(c as u32), k)), None => None },
        MqttPropValueType::TwoBytesInt => if s.len() < 2 { None } else { Some((PV::TwoBytesInt(ru16(s) as u16), 2)) },
    }
}
pub open spec fn pid_parse(s: Seq<u8>) -> Option<(Property, int)> {
    match vbi(s) { Some((c, k)) => match of_code(c as nat) { Some(p) => Some((p, k)), None => None }, None => None }
}
pub open spec fn ent_enc(e: Ent) -> Seq<u8> { vbi_enc(code(e.0)) + pv_enc(e.1) }
pub open spec fn ent_parse(s: Seq<u8>) -> Option<(Ent, int)> {
    match pid_parse(s) {
        Some((p, k)) => match pv_parse(kind(p), s.skip(k)) { Some((v, j)) => Some(((p, v), k + j)), None => None },
        None => None,
    }
}
pub open spec fn ent_ok(e: Ent) -> bool { pv_ok(e.1) && pv_kind(e.1) == kind(e.0) }
pub open spec fn eenc(es: Seq<Ent>) -> Seq<u8> decreases es.len() { if es.len() == 0 { seq![] } else { eenc(es.drop_last()) + ent_enc(es.last()) } }
pub open spec fn esum(es: Seq<Ent>) -> int decreases es.len() { if es.len() == 0 { 0 } else { esum(es.drop_last()) + ent_enc(es.last()).len() } }
pub open spec fn old_vals(m: PMap, k: Property) -> Seq<PV> { if m.contains_key(k) { m[k] } else { seq![] } }
pub open spec fn m_push(m: PMap, k: Property, v: PV) -> PMap { m.insert(k, old_vals(m, k).push(v)) }
/// what a table holds after `v` is added under `k`
pub open spec fn m_put(m: PMap, k: Property, v: PV) -> PMap { if multi(k) { m_push(m, k, v) } else { m.insert(k, seq![v]) } }
pub open spec fn to_map(es: Seq<Ent>) -> PMap decreases es.len() { if es.len() == 0 { Map::empty() } else { m_push(to_map(es.drop_last()), es.last().0, es.last().1) } }
pub open spec fn one(k: Property, vs: Seq<PV>) -> Seq<Ent> { Seq::new(vs.len(), |i: int| (k, vs[i])) }
pub open spec fn ents(order: Seq<Property>, m: PMap) -> Seq<Ent> decreases order.len() {
    if order.len() == 0 { seq![] } else { ents(order.drop_last(), m) + one(order.last(), m[order.last()]) }
}
pub open spec fn klen(k: Property, vs: Seq<PV>) -> int { esum(one(k, vs)) }
pub open spec fn csum(m: PMap, n: nat) -> int decreases n {
    if n == 0 { 0 } else {
        csum(m, (n - 1) as nat) + (match of_code((n - 1) as nat) { Some(p) => if m.contains_key(p) { klen(p, m[p]) } else { 0 }, None => 0 })
    }
}
/// the bytes the entries of a table take, whatever their order
pub open spec fn msum(m: PMap) -> int { csum(m, 0x2b) }
/// the entries that make up all of `b`, after those of `acc`
pub open spec fn efrom(b: Seq<u8>, acc: Seq<Ent>) -> Option<Seq<Ent>> decreases b.len() {
    if b.len() == 0 { Some(acc) } else {
        match ent_parse(b) {
            Some((e, k)) => if k <= 0 || k > b.len() || (!multi(e.0) && to_map(acc).contains_key(e.0)) { None } else { efrom(b.skip(k), acc.push(e)) },
            None => None,
        }
    }
}
pub open spec fn pparse(s: Seq<u8>) -> Option<(Seq<Ent>, int)> {
    match vbi(s) {
        Some((n, h)) => if s.len() < h + n { None } else { match efrom(s.skip(h).take(n), seq![]) { Some(es) => Some((es, h + n)), None => None } },
        None => None,
    }
}
/// all entries are allowed in packet `o`
pub open spec fn all_permit(m: PMap, o: PropOwner) -> bool { forall|k: Property| #[trigger] m.contains_key(k) ==> permits(k, o) }
pub open spec fn map_ok(m: PMap) -> bool {
    forall|k: Property| #[trigger] m.contains_key(k) ==> m[k].len() > 0 && (!multi(k) ==> m[k].len() == 1)
        && (forall|i: int| 0 <= i < m[k].len() ==> ent_ok((k, #[trigger] m[k][i])))
}

// ---- lemmas
pub proof fn code_of(p: Property) ensures of_code(code(p)) == Some(p), code(p) < 0x2b { }
pub proof fn of_code_code(c: nat) ensures of_code(c) matches Some(p) ==> code(p) == c { }
pub proof fn csum_insert(m: PMap, k: Property, vs: Seq<PV>, n: nat)
    ensures csum(m.insert(k, vs), n) == csum(m.remove(k), n) + (if code(k) < n { klen(k, vs) } else { 0 })
    decreases n
{
    if n > 0 {
        csum_insert(m, k, vs, (n - 1) as nat);
        code_of(k);
        of_code_code((n - 1) as nat);
    }
}
pub proof fn csum_empty(n: nat) ensures csum(Map::empty(), n) == 0 decreases n { if n > 0 { csum_empty((n - 1) as nat); } }
pub proof fn msum_insert(m: PMap, k: Property, vs: Seq<PV>)
    ensures msum(m.insert(k, vs)) == msum(m) - (if m.contains_key(k) { klen(k, m[k]) } else { 0 }) + klen(k, vs)
{
    code_of(k);
    csum_insert(m, k, vs, 0x2b);
    if m.contains_key(k) {
        csum_insert(m, k, m[k], 0x2b);
        assert(m.insert(k, m[k]) =~= m);
    } else {
        assert(m.remove(k) =~= m);
    }
}
pub proof fn klen_push(k: Property, vs: Seq<PV>, v: PV)
    ensures klen(k, vs.push(v)) == klen(k, vs) + ent_enc((k, v)).len(), klen(k, seq![]) == 0
{
    assert(one(k, vs.push(v)).drop_last() =~= one(k, vs));
    assert(one(k, seq![]) =~= seq![]);
}
pub proof fn klen_one(k: Property, v: PV) ensures klen(k, seq![v]) == ent_enc((k, v)).len() {
    klen_push(k, seq![], v);
    assert(seq![].push(v) =~= seq![v]);
}
pub proof fn msum_push(m: PMap, k: Property, v: PV)
    ensures msum(m_push(m, k, v)) == msum(m) + ent_enc((k, v)).len()
{
    msum_insert(m, k, old_vals(m, k).push(v));
    klen_push(k, old_vals(m, k), v);
}
pub proof fn esum_msum(es: Seq<Ent>)
    ensures esum(es) == msum(to_map(es))
    decreases es.len()
{
    if es.len() == 0 { csum_empty(0x2b); } else {
        esum_msum(es.drop_last());
        msum_push(to_map(es.drop_last()), es.last().0, es.last().1);
    }
}
pub proof fn to_map_add(es: Seq<Ent>, k: Property, vs: Seq<PV>)
    ensures to_map(es + one(k, vs)) == (if vs.len() == 0 { to_map(es) } else { to_map(es).insert(k, old_vals(to_map(es), k) + vs) })
    decreases vs.len()
{
    if vs.len() == 0 {
        assert(es + one(k, vs) =~= es);
    } else {
        let a = es + one(k, vs);
        to_map_add(es, k, vs.drop_last());
        assert(a.drop_last() =~= es + one(k, vs.drop_last()));
        assert(a.last() == (k, vs.last()));
        assert(old_vals(to_map(es), k) + vs =~= (old_vals(to_map(es), k) + vs.drop_last()).push(vs.last()));
        if vs.len() == 1 { assert(old_vals(to_map(es), k) + vs.drop_last() =~= old_vals(to_map(es), k)); }
        assert(to_map(a) =~= to_map(es).insert(k, old_vals(to_map(es), k) + vs));
    }
}
pub proof fn ents_map(order: Seq<Property>, m: PMap)
    requires order.no_duplicates(), forall|k: Property| order.contains(k) ==> m.contains_key(k) && m[k].len() > 0
    ensures forall|k: Property| #[trigger] to_map(ents(order, m)).contains_key(k) <==> order.contains(k),
        forall|k: Property| order.contains(k) ==> #[trigger] to_map(ents(order, m))[k] == m[k]
    decreases order.len()
{
    if order.len() > 0 {
        let d = order.drop_last();
        let l = order.last();
        assert forall|k: Property| d.contains(k) implies m.contains_key(k) && m[k].len() > 0 by { assert(order.contains(k)); }
        ents_map(d, m);
        assert(order.contains(l));
        assert(!d.contains(l)) by { if d.contains(l) { let i = choose|i: int| 0 <= i < d.len() && d[i] == l; assert(order[i] == order[order.len() - 1]); } }
        to_map_add(ents(d, m), l, m[l]);
        assert(old_vals(to_map(ents(d, m)), l) + m[l] =~= m[l]);
        assert forall|k: Property| order.contains(k) <==> d.contains(k) || k == l by {
            if order.contains(k) { let i = choose|i: int| 0 <= i < order.len() && order[i] == k; if i < d.len() { assert(d[i] == k); } }
            if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(order[i] == k); }
        }
    }
}
pub proof fn eenc_len(es: Seq<Ent>) ensures eenc(es).len() == esum(es) decreases es.len() { if es.len() > 0 { eenc_len(es.drop_last()); } }
pub proof fn esum_pos(es: Seq<Ent>) ensures esum(es) >= 0 decreases es.len() { if es.len() > 0 { esum_pos(es.drop_last()); } }
pub proof fn csum_pos(m: PMap, n: nat) ensures csum(m, n) >= 0 decreases n {
    if n > 0 { csum_pos(m, (n - 1) as nat); match of_code((n - 1) as nat) { Some(p) => if m.contains_key(p) { esum_pos(one(p, m[p])); }, None => { } } }
}
/// what a parsed variable byte integer takes is what its encoding takes
pub proof fn vbi_parse_len(s: Seq<u8>)
    ensures vbi(s) matches Some((v, k)) ==> 0 <= v <= 0xfffffff && k == vbi_enc(v as nat).len() && 1 <= k <= 4 && k <= s.len()
{
    reveal_with_fuel(vbi_from, 5);
    vbi_from_shape(s, 0, 0);
    if let Some((v, k)) = vbi(s) { vbi_enc_len(v as nat); }
}
pub proof fn str_parse_len(s: Seq<u8>)
    ensures str_parse(s) matches Some((v, k)) ==> k == str_enc(v).len() && 2 <= k <= s.len() && str_ok(v)
{
    if str_parse(s) is Some { decode_utf8_encode_utf8(s.skip(2).take(ru16(s))); }
}
pub proof fn pv_parse_len(t: MqttPropValueType, s: Seq<u8>)
    ensures pv_parse(t, s) matches Some((v, k)) ==> k == pv_enc(v).len() && 0 < k <= s.len() && pv_ok(v) && pv_kind(v) == t
{
    vbi_parse_len(s);
    str_parse_len(s);
    if let Some((a, i)) = str_parse(s) { str_parse_len(s.skip(i)); }
}
pub proof fn ent_parse_len(s: Seq<u8>)
    ensures ent_parse(s) matches Some((e, k)) ==> k == ent_enc(e).len() && 1 < k <= s.len() && ent_ok(e)
{
    vbi_parse_len(s);
    if let Some((c, k)) = vbi(s) { of_code_code(c as nat); if let Some(p) = of_code(c as nat) { pv_parse_len(kind(p), s.skip(k)); } }
}

pub open spec fn ivals(r: Seq<(&Property, &MqttPropValue)>) -> Seq<Ent> { Seq::new(r.len(), |i: int| (*r[i].0, r[i].1.vv())) }
pub open spec fn ients_ok(es: Seq<Ent>) -> bool { forall|i: int| 0 <= i < es.len() ==> ent_ok(#[trigger] es[i]) }
pub proof fn ents_ok(order: Seq<Property>, m: PMap)
    requires map_ok(m), forall|k: Property| order.contains(k) ==> m.contains_key(k)
    ensures ients_ok(ents(order, m))
    decreases order.len()
{
    if order.len() > 0 {
        let d = order.drop_last();
        assert forall|k: Property| d.contains(k) implies m.contains_key(k) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(order[i] == k); assert(order.contains(k)); }
        ents_ok(d, m);
        let l = order.last();
        assert(order.contains(l));
        assert forall|i: int| 0 <= i < ents(order, m).len() implies ent_ok(#[trigger] ents(order, m)[i]) by {
            if i >= ents(d, m).len() { assert(ent_ok((l, m[l][i - ents(d, m).len()]))); }
        }
    }
}
pub proof fn ent_len_bound(e: Ent) requires pv_ok(e.1) ensures 1 <= vbi_enc(code(e.0)).len() <= 4, 1 <= pv_enc(e.1).len() <= 0x20004 {
    code_of(e.0);
    vbi_enc_len(code(e.0));
    if let PV::VarInt(n) = e.1 { vbi_enc_len(n as nat); }
}
pub proof fn msum_has(m: PMap, k: Property) requires map_ok(m) ensures msum(m) >= 0, !multi(k) && m.contains_key(k) ==> msum(m) >= ent_enc((k, m[k][0])).len() {
    csum_pos(m, 0x2b);
    if !multi(k) && m.contains_key(k) {
        klen_one(k, m[k][0]);
        assert(m[k] =~= seq![m[k][0]]);
        csum_insert(m, k, m[k], 0x2b);
        code_of(k);
        assert(m.insert(k, m[k]) =~= m);
        csum_pos(m.remove(k), 0x2b);
    }
}
pub proof fn efrom_step(b: Seq<u8>, acc: Seq<Ent>)
    requires b.len() > 0
    ensures
        ent_parse(b) is None ==> efrom(b, acc) is None,
        ent_parse(b) matches Some((e, k)) ==> 1 < k <= b.len()
            && (!multi(e.0) && to_map(acc).contains_key(e.0) ==> efrom(b, acc) is None)
            && (multi(e.0) || !to_map(acc).contains_key(e.0) ==> efrom(b, acc) == efrom(b.skip(k), acc.push(e))),
{ ent_parse_len(b); }
pub proof fn efrom_done(b: Seq<u8>, acc: Seq<Ent>) requires b.len() == 0 ensures efrom(b, acc) == Some(acc) { }
pub proof fn map_empty() ensures to_map(seq![]) == Map::<Property, Seq<PV>>::empty() { }
/// adding an entry to a table that may take it
pub proof fn map_put(es: Seq<Ent>, e: Ent)
    ensures to_map(es.push(e)) == m_push(to_map(es), e.0, e.1), !to_map(es).contains_key(e.0) ==> m_put(to_map(es), e.0, e.1) == to_map(es.push(e)),
        multi(e.0) ==> m_put(to_map(es), e.0, e.1) == to_map(es.push(e)),
        esum(es.push(e)) == esum(es) + ent_enc(e).len()
{
    assert(es.push(e).drop_last() =~= es);
    if !to_map(es).contains_key(e.0) { assert(old_vals(to_map(es), e.0).push(e.1) =~= seq![e.1]); }
}

impl Properties {
    pub open spec fn pmap(&self) -> PMap { Map::new(self.props@.dom(), |k: Property| Seq::new(self.props@[k]@.len(), |i: int| self.props@[k]@[i].vv())) }
    pub open spec fn valid_for(&self, o: PropOwner) -> bool { all_permit(self.pmap(), o) }
    pub proof fn facts(&self)
        requires self.inv()
        ensures to_map(self.vv()) == self.pmap(), esum(self.vv()) == self.size, eenc(self.vv()).len() == self.size
    {
        self.props.order_props();
        let o = self.props.order();
        assert forall|k: Property| o.contains(k) implies self.pmap().contains_key(k) && self.pmap()[k].len() > 0 by { assert(o.to_set().contains(k)); }
        ents_map(o, self.pmap());
        assert(to_map(self.vv()) =~= self.pmap()) by {
            assert forall|k: Property| to_map(self.vv()).contains_key(k) == self.pmap().contains_key(k) by { assert(o.to_set().contains(k) == o.contains(k)); }
        }
        esum_msum(self.vv());
        eenc_len(self.vv());
    }
}
impl Wire for Properties {
    type V = Seq<Ent>;
    open spec fn vv(&self) -> Seq<Ent> { ents(self.props.order(), self.pmap()) }
    open spec fn inv(&self) -> bool {
        map_ok(self.pmap()) && self.size == msum(self.pmap())
            && forall|o: PropOwner| is_owner(o) ==> #[trigger] has(self.valid.bits, o.bits) == self.valid_for(o)
    }
    open spec fn fits(v: Seq<Ent>) -> bool { esum(v) <= 0xfffffff }
    open spec fn same(a: Seq<Ent>, b: Seq<Ent>) -> bool { to_map(a) == to_map(b) }
    open spec fn enc(v: Seq<Ent>) -> Seq<u8> { vbi_enc(esum(v) as nat) + eenc(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(Seq<Ent>, int)> { pparse(s) }
    open spec fn must(s: Seq<u8>) -> bool { pparse(s) is Some }
}
impl Wire for Property {
    type V = Property;
    open spec fn vv(&self) -> Property { *self }
    open spec fn inv(&self) -> bool { true }
    open spec fn fits(v: Property) -> bool { true }
    open spec fn same(a: Property, b: Property) -> bool { a == b }
    open spec fn enc(v: Property) -> Seq<u8> { vbi_enc(code(v)) }
    open spec fn parse(s: Seq<u8>) -> Option<(Property, int)> { pid_parse(s) }
    open spec fn must(s: Seq<u8>) -> bool { pid_parse(s) is Some }
}
impl Wire for MqttPropValue {
    type V = PV;
    open spec fn vv(&self) -> PV {
        match self.0 {
            MqttPropValueInner::Bool(v) => PV::Bool(v.vv()),
            MqttPropValueInner::Byte(v) => PV::Byte(v.vv()),
            MqttPropValueInner::FourBytesInt(v) => PV::FourBytesInt(v.vv()),
            MqttPropValueInner::String(v) => PV::String(v.vv()),
            MqttPropValueInner::StringPair(v) => PV::StringPair(v.vv().0, v.vv().1),
            MqttPropValueInner::Data(v) => PV::Data(v.vv()),
            MqttPropValueInner::VarInt(v) => PV::VarInt(v.vv()),
            MqttPropValueInner::TwoBytesInt(v) => PV::TwoBytesInt(v.vv()),
        }
    }
    open spec fn inv(&self) -> bool { pv_ok(self.vv()) }
    open spec fn fits(v: PV) -> bool { true }
    open spec fn same(a: PV, b: PV) -> bool { a == b }
    open spec fn enc(v: PV) -> Seq<u8> { pv_enc(v) }
    open spec fn parse(s: Seq<u8>) -> Option<(PV, int)> { None }
    open spec fn must(s: Seq<u8>) -> bool { false }
}
pub proof fn pmap_put(o: Properties, n: Properties, k: Property, v: MqttPropValue)
    requires map_ok(o.pmap()), v.inv(), pv_kind(v.vv()) == kind(k), n.pmap() == m_put(o.pmap(), k, v.vv()),
    ensures map_ok(n.pmap()),
        msum(n.pmap()) == msum(o.pmap()) + ent_enc((k, v.vv())).len() - (if multi(k) || !o.pmap().contains_key(k) { 0 } else { ent_enc((k, o.pmap()[k][0])).len() as int }),
        msum(o.pmap()) >= 0, multi(k) || !o.pmap().contains_key(k) || ent_enc((k, o.pmap()[k][0])).len() <= msum(o.pmap()),
        forall|w: PropOwner| is_owner(w) ==> #[trigger] n.valid_for(w) == (o.valid_for(w) && permits(k, w)),
{
    csum_pos(o.pmap(), 0x2b);
    let m = o.pmap();
    if multi(k) {
        msum_push(m, k, v.vv());
    } else {
        msum_insert(m, k, seq![v.vv()]);
        klen_one(k, v.vv());
        if m.contains_key(k) {
            klen_one(k, m[k][0]);
            assert(m[k] =~= seq![m[k][0]]);
            csum_insert(m, k, m[k], 0x2b);
            code_of(k);
            assert(m.insert(k, m[k]) =~= m);
            csum_pos(m.remove(k), 0x2b);
        }
    }
    assert forall|w: PropOwner| is_owner(w) implies #[trigger] n.valid_for(w) == (o.valid_for(w) && permits(k, w)) by {
        assert(n.pmap().contains_key(k));
        assert forall|j: Property| n.pmap().contains_key(j) == (m.contains_key(j) || j == k) by { }
        if n.valid_for(w) { assert forall|j: Property| m.contains_key(j) implies permits(j, w) by { assert(n.pmap().contains_key(j)); } }
    }
}

/// a property list that packet `o` may carry
pub open spec fn props_ok(es: Seq<Ent>, o: PropOwner) -> bool { esum(es) <= 0xfffffff && map_ok(to_map(es)) && all_permit(to_map(es), o) && ients_ok(es) }
pub proof fn efrom_len(b: Seq<u8>, acc: Seq<Ent>)
    ensures efrom(b, acc) matches Some(es) ==> esum(es) == esum(acc) + b.len()
    decreases b.len()
{
    if b.len() > 0 {
        efrom_step(b, acc);
        if let Some((e, k)) = ent_parse(b) {
            ent_parse_len(b);
            if multi(e.0) || !to_map(acc).contains_key(e.0) { map_put(acc, e); efrom_len(b.skip(k), acc.push(e)); }
        }
    }
}
pub proof fn pparse_len(s: Seq<u8>)
    ensures pparse(s) matches Some((es, k)) ==> 1 <= k <= s.len() && k == Properties::enc(es).len() && 0 <= esum(es) <= 0xfffffff
{
    vbi_parse_len(s);
    if let Some((n, h)) = vbi(s) {
        if s.len() >= h + n { efrom_len(s.skip(h).take(n), seq![]); if let Some((es, k)) = pparse(s) { eenc_len(es); } }
    }
}
/// the order of the entries does not change their length
pub proof fn same_len(a: Seq<Ent>, b: Seq<Ent>)
    requires to_map(a) == to_map(b)
    ensures esum(a) == esum(b), Properties::enc(a).len() == Properties::enc(b).len(), esum(a) >= 0
{ esum_msum(a); esum_msum(b); eenc_len(a); eenc_len(b); esum_pos(a); }

@@ fn Properties::new
@@ tags C11,C07
    ensures ret.inv(), ret.size == 0, ret.pmap() == Map::<Property, Seq<PV>>::empty(),
@@ tail
    proof {
        assert(__r.pmap() =~= Map::empty()); csum_empty(0x2b);
        assert forall|o: PropOwner| is_owner(o) implies #[trigger] has(__r.valid.bits, o.bits) == __r.valid_for(o) by { broadcast use group_owner; }
    }
@@ fn Properties::insert
@@ tags C11,C06
    requires old(self).inv(), $1.inv(), old(self).size <= 0xffffffff,
    ensures
        pv_kind($1.vv()) != kind($0) ==> ret is Err && *final(self) == *old(self),
        pv_kind($1.vv()) == kind($0) ==> final(self).inv() && final(self).pmap() == m_put(old(self).pmap(), $0, $1.vv())
            && (ret is Ok <==> multi($0) || !old(self).pmap().contains_key($0)),
@@ entry
    broadcast use group_owner;
    let ghost o0 = *self;
@@ fn Properties::unchecked_insert
@@ tags C11,C06
    requires old(self).size <= 0xffffffff, $1.inv(), pv_kind($1.vv()) == kind($0), $2 == multi($0),
        map_ok(old(self).pmap()), old(self).size == msum(old(self).pmap()),
        // the permissions have been narrowed already
        forall|o: PropOwner| is_owner(o) ==> #[trigger] has(old(self).valid.bits, o.bits) == (old(self).valid_for(o) && permits($0, o)),
    ensures
        final(self).inv(), final(self).pmap() == m_put(old(self).pmap(), $0, $1.vv()), final(self).size <= old(self).size + 0x20008,
        ret is Some <==> !multi($0) && old(self).pmap().contains_key($0),
@@ entry
    let ghost o0 = *self;
    let ghost kv0 = $1;
    proof { ent_len_bound(($0, $1.vv())); msum_has(o0.pmap(), $0); }
@@ tail
    proof {
        assert forall|j: Property| #[trigger] self.pmap().contains_key(j) implies self.pmap()[j] =~= m_put(o0.pmap(), $0, kv0.vv())[j] by { }
        assert(self.pmap() =~= m_put(o0.pmap(), $0, kv0.vv()));
        pmap_put(o0, *self, $0, kv0);
    }
@@ fn Properties::checked_insert
@@ tags C11,C07
    requires old(self).inv(), $1.inv(), old(self).size <= 0xffffffff, is_owner($2),
    ensures
        ret is Ok <==> permits($0, $2) && pv_kind($1.vv()) == kind($0),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> final(self).inv() && final(self).pmap() == m_put(old(self).pmap(), $0, $1.vv()) && final(self).size <= old(self).size + 0x20008,
@@ entry
    broadcast use group_owner;
@@ let filter
    proof { assert(has(filter.bits, $2.bits) == permits($0, $2)); }
@@ fn Properties::get
@@ tags C11
    requires self.inv(),
    ensures
        ret is Some <==> self.pmap().contains_key($0),
        ret matches Some(v) ==> v@.len() == self.pmap()[$0].len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).vv() == self.pmap()[$0][i],
@@ fn Properties::is_valid_for
    requires self.inv(), is_owner($0),
    ensures ret == self.valid_for($0),
@@ entry
    proof { broadcast use group_owner; assert(has(self.valid.bits, $0.bits) == self.valid_for($0)); }
@@ fn Properties::iter
@@ tags C11
    ensures ivals(ret@) == self.vv(),
@@ entry
    let ghost ord = self.props.order();
    let ghost m = self.pmap();
    proof { self.props.order_props(); assert(ord.take(0) =~= seq![]); }
@@ loop 0
    invariant
        ord == self.props.order(), m == self.pmap(), ord.to_set() == self.props@.dom(),
        __i1 <= __it1@.len(), __it1@.len() == ord.len(),
        forall|i: int| 0 <= i < __it1@.len() ==> (#[trigger] __it1@[i]).0.kv() == ord[i] && *__it1@[i].1 == self.props@[ord[i]],
        ivals(__acc0@) =~= ents(ord.take(__i1 as int), m),
    decreases __it1@.len() - __i1
@@ loop-body 0
    let ghost a0 = ivals(__acc0@);
    proof {
        assert(ord.to_set().contains(ord[__i1 as int]));
        assert(ord.take(__i1 + 1).drop_last() =~= ord.take(__i1 as int));
        assert(ord.take(__i1 + 1).last() == ord[__i1 as int]);
        assert(one(ord[__i1 as int], m[ord[__i1 as int]]).take(0) =~= seq![]);
    }
@@ loop 1
    invariant
        ord == self.props.order(), m == self.pmap(), ord.to_set() == self.props@.dom(),
        __i1 < __it1@.len(), __it1@.len() == ord.len(), __it1@[__i1 as int].0.kv() == ord[__i1 as int], *__it1@[__i1 as int].1 == self.props@[ord[__i1 as int]],
        __x1 == __it1@[__i1 as int], *key == ord[__i1 as int], *value_vec == self.props@[ord[__i1 as int]], m.contains_key(*key),
        __it2@ == value_vec.it(),
        __i2 <= __it2@.len(), __it2@.len() == m[*key].len(),
        ivals(__acc0@) =~= a0 + one(*key, m[*key]).take(__i2 as int),
    decreases __it2@.len() - __i2
@@ loop-body 1
    let ghost ac = ivals(__acc0@);
    proof {
        let o1 = one(*key, m[*key]);
        assert(o1.take(__i2 + 1) =~= o1.take(__i2 as int).push(o1[__i2 as int]));
        assert(m[*key][__i2 as int] == __it2@[__i2 as int].vv());
        assert(o1[__i2 as int] == (*key, __it2@[__i2 as int].vv()));
    }
@@ loop-end 1
    proof { assert(ivals(__acc0@) =~= ac.push((*key, __x2.vv()))); }
@@ loop-after 1
    proof {
        assert(one(*key, m[*key]).take(m[*key].len() as int) =~= one(*key, m[*key]));
        assert(ents(ord.take(__i1 + 1), m) == ents(ord.take(__i1 as int), m) + one(*key, m[*key]));
    }
@@ loop-after 0
    proof { assert(ord.take(ord.len() as int) =~= ord); }
@@ fn MqttSerialize for Properties::serialize
@@ entry
    let ghost o0 = (*$0).out();
    proof {
        self.facts();
        self.props.order_props();
        assert forall|k: Property| self.props.order().contains(k) implies self.pmap().contains_key(k) by { assert(self.props.order().to_set().contains(k)); }
        ents_ok(self.props.order(), self.pmap());
        assert(self.vv().take(0) =~= seq![]);
        assert(self.vv().take(self.vv().len() as int) =~= self.vv());
    }
@@ loop 0
    invariant
        self.inv(), ivals(__it0@) == self.vv(), __i0 <= __it0@.len(), ients_ok(self.vv()), ivals(__it0@).len() == __it0@.len(),
        (*$0).out() =~= o0 + vbi_enc(self.size as nat) + eenc(self.vv().take(__i0 as int)),
    decreases __it0@.len() - __i0
@@ loop-body 0
    proof {
        let v = self.vv();
        assert(v.take(__i0 + 1).drop_last() =~= v.take(__i0 as int));
        assert(ent_ok(ivals(__it0@)[__i0 as int]));
        assert(v[__i0 as int] == ivals(__it0@)[__i0 as int]);
    }
@@ fn MqttDeserialize for Properties::deserialize
    ensures ret matches Ok(x) ==> x.pmap() == to_map(pparse((*old($0)).bv()).unwrap().0) && x.size == esum(x.vv()), //! C02,C06,C10
@@ attr #[verifier::loop_isolation(false)]
@@ entry
    hide(vbi_parse); hide(pv_parse); hide(efrom); hide(vbi_enc); hide(map_ok); hide(m_put); hide(to_map); hide(esum); hide(code); hide(of_code); hide(kind);
    let ghost s0 = (*$0).bv();
    let ghost h = if let Some((n, h)) = vbi(s0) { h } else { 0 };
    let ghost n = if let Some((n, h)) = vbi(s0) { n } else { 0 };
    let ghost mut es: Seq<Ent> = seq![];
    let ghost mut c: int = 0;
    proof { vbi_parse_len(s0); csum_empty(0x2b); map_empty(); }
@@ let buf
    let ghost bb = buf.bv();
    let ghost fr = buf.pr();
    proof { if s0.len() >= h + n { assert(bb == s0.skip(h).take(n)); } assert(bb.skip(0) =~= bb); }
@@ loop 0
    invariant
        vbi(s0) == Some((n, h)), 1 <= h <= s0.len(), 0 <= n <= 0xfffffff, bb.len() <= n, s0.len() >= h + n ==> bb == s0.skip(h).take(n),
        s0.len() >= h + n || bb.len() < n,
        0 <= c <= bb.len(), buf.bv() == bb.skip(c), buf.pr() == fr, size + c == n,
        efrom(bb, seq![]) == efrom(bb.skip(c), es),
        table.inv(), table.pmap() == to_map(es), table.size == c,
    decreases size
@@ loop-body 0
    let ghost s1 = buf.bv();
    proof {
        if s1.len() == 0 { assert(s0.len() < h + n); } else { efrom_step(s1, es); }
        vbi_parse_len(s1);
    }
@@ let key
    let ghost s2 = buf.bv();
    proof {
        of_code_code(vbi(s1).unwrap().0 as nat);
        pv_parse_len(kind(key), s2);
    }
@@ let value
    let ghost e = (key, value.vv());
    let ghost ke = ent_enc(e).len() as int;
    proof {
        assert(ent_parse(s1) == Some((e, ke)));
        esum_msum(es.push(e)); esum_msum(es);
        map_put(es, e);
    }
@@ loop-end 0
    proof {
        assert(s1.skip(ke) =~= bb.skip(c + ke));
        assert(efrom(s1, es) == efrom(s1.skip(ke), es.push(e)));
        es = es.push(e); c = c + ke;
    }
@@ loop-after 0
    proof {
        assert(bb.skip(c).len() == 0); efrom_done(bb.skip(c), es);
        assert(s0.len() >= h + n);
        assert(pparse(s0) == Some((es, h + n)));
        table.facts();
        assert(dec_ok::<Properties>(s0, table));
    }
@@ members MqttSize for Properties
    open spec fn mlo() -> nat { 1 }
    open spec fn mhi() -> nat { 1 }
@@ fn MqttSize for Properties::min_size
@@ fn MqttSize for Properties::size
@@ entry
    proof { self.facts(); vbi_enc_len(self.size as nat); }

@@ fn Property::auxiliary_data
@@ tags C06,C11
    ensures
        forall|o: PropOwner| is_owner(o) ==> #[trigger] has(ret.0.bits, o.bits) == permits(*self, o),
        ret.1 == kind(*self),
        ret.2 == multi(*self),
@@ entry
    broadcast use group_owner;
@@ fn MqttSerialize for Property::serialize
@@ fn MqttDeserialize for Property::deserialize
@@ members MqttSize for Property
    open spec fn mlo() -> nat { 1 }
    open spec fn mhi() -> nat { 1 }
@@ fn MqttSize for Property::min_size
@@ fn MqttSize for Property::size

@@ fn MqttPropValue::into_bool
@@ tags C11
    ensures ret == (match self.vv() { PV::Bool(b) => Some(b == 1), _ => None }),
@@ fn MqttPropValue::into_u8
@@ tags C11
    ensures ret == (match self.vv() { PV::Byte(b) => Some(b), _ => None }),
@@ fn MqttPropValue::into_str
@@ tags C11
    ensures ret is Some <==> self.vv() is String, ret matches Some(s) ==> s@ == self.vv()->String_0,
@@ fn MqttPropValue::into_str_pair
@@ tags C11
    ensures ret is Some <==> self.vv() is StringPair, ret matches Some(s) ==> s.0@ == self.vv()->StringPair_0 && s.1@ == self.vv()->StringPair_1,
@@ fn MqttPropValue::into_data
@@ tags C11
    ensures ret is Some <==> self.vv() is Data, ret matches Some(s) ==> s@ == self.vv()->Data_0,
@@ fn MqttPropValue::into_u16
@@ tags C11
    ensures ret == (match self.vv() { PV::TwoBytesInt(b) => Some(b), _ => None }),
@@ fn MqttPropValue::into_u32
@@ tags C11
    ensures ret == (match self.vv() { PV::VarInt(b) => Some(b), PV::FourBytesInt(b) => Some(b), _ => None }),
@@ fn MqttPropValue::new_bool
@@ tags C11
    ensures ret.vv() == PV::Bool(if $0 { 1 } else { 0 }),
@@ fn MqttPropValue::new_u8
@@ tags C11
    ensures ret.vv() == PV::Byte($0),
@@ fn MqttPropValue::new_u32
@@ tags C11
    ensures ret.vv() == PV::FourBytesInt($0),
@@ fn MqttPropValue::new_string
@@ tags C11,C07
    ensures ret is Ok <==> str_ok($0@), ret matches Ok(x) ==> x.inv() && x.vv() == PV::String($0@),
@@ fn MqttPropValue::new_string_pair
@@ tags C11,C07
    ensures ret is Ok <==> str_ok($0@) && str_ok($1@), ret matches Ok(x) ==> x.inv() && x.vv() == PV::StringPair($0@, $1@),
@@ fn MqttPropValue::new_data
@@ tags C11,C07
    ensures ret is Ok <==> $0.bv().len() <= 65535, ret matches Ok(x) ==> x.inv() && x.vv() == PV::Data($0.bv()),
@@ fn MqttPropValue::new_varint
@@ tags C11,C07
    ensures ret is Ok <==> $0 <= 0xfffffff, ret matches Ok(x) ==> x.inv() && x.vv() == PV::VarInt($0),
@@ fn MqttPropValue::new_u16
@@ tags C11
    ensures ret.vv() == PV::TwoBytesInt($0),
@@ fn MqttPropValue::prop_type
    ensures ret == pv_kind(self.vv()),
@@ fn MqttPropValue::deserialize
    ensures
        ret matches Ok(x) ==> pv_parse($1, (*old($0)).bv()) is Some && x.vv() == pv_parse($1, (*old($0)).bv()).unwrap().0 && x.inv() && adv(*old($0), *final($0), pv_parse($1, (*old($0)).bv()).unwrap().1),
        ret is Err ==> pv_parse($1, (*old($0)).bv()) is None,
@@ fn MqttSerialize for MqttPropValue::serialize
@@ members MqttSize for MqttPropValue
    open spec fn mlo() -> nat { 1 }
    open spec fn mhi() -> nat { 1 }
@@ fn MqttSize for MqttPropValue::min_size
@@ fn MqttSize for MqttPropValue::size
@@ end
