// Entries of a table of properties one by one, and what fits into a frame.
@@ module packetinfo
impl Carried for PacketInfo { open spec fn carried(&self) -> bool { self.packet.carried() } }
@@ module ents
/// an entry of the table is one of the values of its key
pub proof fn ent_in_map(es: Seq<Ent>, j: int)
    requires 0 <= j < es.len()
    ensures to_map(es).contains_key(es[j].0), old_vals(to_map(es), es[j].0).contains(es[j].1)
    decreases es.len()
{
    let (k, v) = es.last();
    let p = es.drop_last();
    let m = to_map(p);
    assert(old_vals(m, k).push(v).last() == v);
    if j < p.len() {
        ent_in_map(p, j);
        let (kj, vj) = es[j];
        assert(p[j] == es[j]);
        let i = choose|i: int| 0 <= i < m[kj].len() && m[kj][i] == vj;
        if k == kj { assert(old_vals(m, k).push(v)[i] == vj); }
    } else {
        assert(old_vals(m, k).push(v)[old_vals(m, k).len() as int] == v);
    }
}
/// a key that occurs once was not there before
pub proof fn once(es: Seq<Ent>, j: int)
    requires 0 <= j < es.len(), map_ok(to_map(es)), !multi(es[j].0)
    ensures !to_map(es.take(j)).contains_key(es[j].0)
{
    let k = es[j].0;
    grow(es, j, k);
    grow(es, j + 1, k);
    assert(es.take(j + 1).drop_last() =~= es.take(j));
    assert(es.take(j + 1).last() == es[j]);
    assert(es.take(es.len() as int) =~= es);
    ent_in_map(es, j);
    if to_map(es.take(j)).contains_key(k) { vals_some(es.take(j), k); }
}
pub proof fn absent(es: Seq<Ent>, k: Property)
    requires forall|j: int| 0 <= j < es.len() ==> (#[trigger] es[j]).0 != k
    ensures !to_map(es).contains_key(k)
    decreases es.len()
{
    if es.len() > 0 {
        let p = es.drop_last();
        assert forall|j: int| 0 <= j < p.len() implies (#[trigger] p[j]).0 != k by { assert(p[j] == es[j]); }
        absent(p, k);
        assert(es[es.len() - 1].0 != k);
    }
}
pub proof fn vals_some(es: Seq<Ent>, k: Property)
    requires to_map(es).contains_key(k)
    ensures to_map(es)[k].len() > 0
    decreases es.len()
{ if es.len() > 0 { if es.last().0 != k { vals_some(es.drop_last(), k); } } }
pub proof fn grow(es: Seq<Ent>, j: int, k: Property)
    requires 0 <= j <= es.len()
    ensures old_vals(to_map(es.take(j)), k).len() <= old_vals(to_map(es), k).len(), esum(es.take(j)) <= esum(es)
    decreases es.len() - j
{
    if j == es.len() { assert(es.take(j) =~= es); } else {
        grow(es, j + 1, k);
        assert(es.take(j + 1).drop_last() =~= es.take(j));
        if es.take(j + 1).last().0 != k { }
    }
}
/// what has no properties has no entries
pub proof fn no_ents(es: Seq<Ent>)
    requires to_map(es) == Map::<Property, Seq<PV>>::empty()
    ensures es.len() == 0, Properties::enc(es).len() == 1
{
    reveal_with_fuel(vbi_enc, 2);
    if es.len() > 0 { assert(to_map(es).contains_key(es.last().0)); }
}
/// the copy of a PUBLISH is no longer than it
pub proof fn copy_fits(a: PublishV, b: PublishV)
    requires Publish::fits(a), b.topic == a.topic, b.id is None, b.payload == a.payload, Properties::same(b.props, a.props), b.flags == 0
    ensures Packet::fits(PkV::Publish(b))
{
    pf_bits(0);
    assert(0u8 & 6 == 0) by (bit_vector);
    same_len(a.props, b.props);
    assert(oid_enc(b.id).len() <= oid_enc(a.id).len());
}
pub proof fn subs_count(ts: Seq<SubT>)
    ensures subs_enc(ts).len() >= 3 * ts.len()
    decreases ts.len()
{ if ts.len() > 0 { subs_count(ts.drop_last()); } }
@@ end
