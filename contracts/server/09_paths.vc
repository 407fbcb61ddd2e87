@@ module s_topics
pub type Levels = Seq<Seq<char>>;
pub type Holders = Map<Seq<char>, SubscriptionInfo>;
pub open spec fn hash_l() -> Seq<char> { seq!['#'] }
pub open spec fn plus_l() -> Seq<char> { seq!['+'] }
pub open spec fn slash_l() -> Seq<char> { seq!['/'] }
pub open spec fn qrank(q: QoS) -> int { match q { QoS::QoS0 => 0, QoS::QoS1 => 1, QoS::QoS2 => 2 } }
/// two paths name the same place: `#` ends a path
pub open spec fn same_pl(p: Levels, q: Levels) -> bool decreases p.len() {
    if p.len() == 0 || q.len() == 0 { p.len() == q.len() }
    else if p[0] == hash_l() || q[0] == hash_l() { p[0] == q[0] }
    else { p[0] == q[0] && same_pl(p.skip(1), q.skip(1)) }
}
pub open spec fn is_hash(p: Levels) -> bool decreases p.len() { if p.len() == 0 { false } else if p[0] == hash_l() { true } else { is_hash(p.skip(1)) } }
/// matching, level by level
pub open spec fn mt(p: Levels, t: Levels) -> bool decreases p.len() {
    if p.len() == 0 { t.len() == 0 }
    else if p[0] == hash_l() { p.len() == 1 }
    else if t.len() == 0 { false }
    else { (p[0] == plus_l() || p[0] == t[0]) && mt(p.skip(1), t.skip(1)) }
}
pub open spec fn no_hash(t: Levels) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != hash_l() }
pub open spec fn holds(m: Holders, c: Seq<char>, i: SubscriptionInfo) -> bool { m.contains_key(c) && m[c] == i }
/// `n` is `o` after the entries `f` have been offered: each client with the best it had
pub open spec fn merged(o: Holders, n: Holders, f: spec_fn(Seq<char>, SubscriptionInfo) -> bool) -> bool {
    (forall|c: Seq<char>| #[trigger] n.contains_key(c) ==> holds(o, c, n[c]) || f(c, n[c]))
    && (forall|c: Seq<char>| #[trigger] o.contains_key(c) ==> n.contains_key(c) && qrank(n[c].qos) >= qrank(o[c].qos))
    && (forall|c: Seq<char>, i: SubscriptionInfo| #[trigger] f(c, i) ==> n.contains_key(c) && qrank(n[c].qos) >= qrank(i.qos))
}
pub proof fn merged_trans(a: Holders, b: Holders, c: Holders, f: spec_fn(Seq<char>, SubscriptionInfo) -> bool, g: spec_fn(Seq<char>, SubscriptionInfo) -> bool, h: spec_fn(Seq<char>, SubscriptionInfo) -> bool)
    requires merged(a, b, f), merged(b, c, g), forall|x: Seq<char>, i: SubscriptionInfo| #[trigger] h(x, i) <==> f(x, i) || g(x, i),
    ensures merged(a, c, h)
{
    assert forall|x: Seq<char>| #[trigger] c.contains_key(x) implies holds(a, x, c[x]) || h(x, c[x]) by {
        assert(holds(b, x, c[x]) || g(x, c[x]));
        assert(h(x, c[x]) <==> f(x, c[x]) || g(x, c[x]));
    }
    assert forall|x: Seq<char>, i: SubscriptionInfo| #[trigger] h(x, i) implies c.contains_key(x) && qrank(c[x].qos) >= qrank(i.qos) by {
        if f(x, i) { assert(b.contains_key(x)); } else { assert(g(x, i)); }
    }
    assert forall|x: Seq<char>| #[trigger] a.contains_key(x) implies c.contains_key(x) && qrank(c[x].qos) >= qrank(a[x].qos) by { assert(b.contains_key(x)); }
}
pub proof fn merged_none(a: Holders, f: spec_fn(Seq<char>, SubscriptionInfo) -> bool)
    requires forall|x: Seq<char>, i: SubscriptionInfo| !#[trigger] f(x, i),
    ensures merged(a, a, f)
{ }
pub type Offer = spec_fn(Seq<char>, SubscriptionInfo) -> bool;
pub open spec fn in_map(m: Holders) -> Offer { |c: Seq<char>, i: SubscriptionInfo| holds(m, c, i) }
pub open spec fn either(f: Offer, g: Offer) -> Offer { |c: Seq<char>, i: SubscriptionInfo| f(c, i) || g(c, i) }
pub proof fn same_pl_refl(p: Levels)
    ensures same_pl(p, p)
    decreases p.len()
{ if p.len() > 0 && p[0] != hash_l() { same_pl_refl(p.skip(1)); } }
pub proof fn same_pl_sym(p: Levels, q: Levels)
    requires same_pl(p, q)
    ensures same_pl(q, p)
    decreases p.len()
{ if p.len() > 0 && q.len() > 0 && p[0] != hash_l() && q[0] != hash_l() { same_pl_sym(p.skip(1), q.skip(1)); } }
pub proof fn same_pl_trans(p: Levels, q: Levels, r: Levels)
    requires same_pl(p, q), same_pl(q, r)
    ensures same_pl(p, r)
    decreases p.len()
{ if p.len() > 0 && q.len() > 0 && r.len() > 0 && p[0] != hash_l() { same_pl_trans(p.skip(1), q.skip(1), r.skip(1)); } }
/// the levels of a topic name or filter as the tree keeps them: an empty first level is kept as `/`
pub open spec fn path(s: Seq<char>) -> Levels { let l = split_on(s, '/'); if l[0].len() == 0 { seq![slash_l()] + l.skip(1) } else { l } }
pub proof fn split_len(s: Seq<char>, c: char)
    ensures split_on(s, c).len() >= 1
    decreases s.len()
{ if s.len() > 0 { split_len(s.skip(1), c); } }
pub proof fn split_chars(s: Seq<char>, c: char, d: char)
    requires !s.contains(d)
    ensures forall|i: int| 0 <= i < split_on(s, c).len() ==> !(#[trigger] split_on(s, c)[i]).contains(d)
    decreases s.len()
{
    split_len(s, c);
    if s.len() > 0 {
        let s1 = s.skip(1);
        assert(!s1.contains(d)) by { if s1.contains(d) { let k = choose|k: int| 0 <= k < s1.len() && s1[k] == d; assert(s[k + 1] == d); } }
        split_chars(s1, c, d);
        split_len(s1, c);
        let r = split_on(s1, c);
        assert forall|i: int| 0 <= i < split_on(s, c).len() implies !(#[trigger] split_on(s, c)[i]).contains(d) by {
            if s[0] == c { if i > 0 { assert(split_on(s, c)[i] == r[i - 1]); } }
            else if i > 0 { assert(split_on(s, c)[i] == r[i]); }
            else {
                let x = seq![s[0]] + r[0];
                assert(split_on(s, c)[0] == x);
                if x.contains(d) { let k = choose|k: int| 0 <= k < x.len() && x[k] == d; if k == 0 { assert(s[0] == d); assert(s.contains(d)); } else { assert(r[0][k - 1] == d); assert(r[0].contains(d)); } }
            }
        }
    }
}
pub proof fn path_no_hash(s: Seq<char>)
    requires !s.contains('#')
    ensures no_hash(path(s))
{
    split_chars(s, '/', '#');
    split_len(s, '/');
    let l = split_on(s, '/');
    assert forall|i: int| 0 <= i < path(s).len() implies #[trigger] path(s)[i] != hash_l() by {
        assert(slash_l()[0] != hash_l()[0]);
        assert(hash_l()[0] == '#');
        if l[0].len() == 0 && i == 0 { assert(path(s)[0] == slash_l()); }
        else { assert(path(s)[i] == l[i]); if l[i] == hash_l() { assert(l[i].contains('#')); } }
    }
}
/// matching on the tree's paths is matching level by level on the strings
pub proof fn mt_path(f: Seq<char>, t: Seq<char>)
    ensures mt(path(f), path(t)) == mt(split_on(f, '/'), split_on(t, '/'))
{
    let (a, b) = (split_on(f, '/'), split_on(t, '/'));
    split_len(f, '/'); split_len(t, '/');
    no_sep(f, '/'); no_sep(t, '/');
    assert(hash_l()[0] == '#' && plus_l()[0] == '+' && slash_l()[0] == '/');
    assert(hash_l().len() == 1 && plus_l().len() == 1);
    assert(path(f).skip(1) =~= a.skip(1));
    assert(path(t).skip(1) =~= b.skip(1));
    if a[0] == slash_l() { assert(a[0].contains('/')); }
    if b[0] == slash_l() { assert(b[0].contains('/')); }
    if a[0].len() == 0 && b[0].len() == 0 { assert(a[0] =~= b[0]); }
}
pub proof fn no_sep(s: Seq<char>, c: char)
    ensures forall|i: int| 0 <= i < split_on(s, c).len() ==> !(#[trigger] split_on(s, c)[i]).contains(c)
    decreases s.len()
{
    split_len(s, c);
    if s.len() > 0 {
        let s1 = s.skip(1);
        no_sep(s1, c);
        split_len(s1, c);
        let r = split_on(s1, c);
        assert forall|i: int| 0 <= i < split_on(s, c).len() implies !(#[trigger] split_on(s, c)[i]).contains(c) by {
            if s[0] == c { if i > 0 { assert(split_on(s, c)[i] == r[i - 1]); } }
            else if i > 0 { assert(split_on(s, c)[i] == r[i]); }
            else {
                let x = seq![s[0]] + r[0];
                assert(split_on(s, c)[0] == x);
                if x.contains(c) { let k = choose|k: int| 0 <= k < x.len() && x[k] == c; if k > 0 { assert(r[0][k - 1] == c); assert(r[0].contains(c)); } }
            }
        }
    }
}
/// no two strings have the same levels
pub proof fn split_inj(s: Seq<char>, t: Seq<char>, c: char)
    requires split_on(s, c) == split_on(t, c)
    ensures s == t
    decreases s.len()
{
    let (a, b) = (split_on(s, c), split_on(t, c));
    if s.len() > 0 { split_len(s.skip(1), c); }
    if t.len() > 0 { split_len(t.skip(1), c); }
    if s.len() == 0 {
        if t.len() > 0 { if t[0] == c { assert(b.len() >= 2); } else { assert(b[0].len() >= 1); assert(a[0].len() == 0); } }
        assert(s =~= t);
    } else {
        if t.len() == 0 { if s[0] == c { assert(a.len() >= 2); } else { assert(a[0].len() >= 1); assert(b[0].len() == 0); } }
        let (x, y) = (split_on(s.skip(1), c), split_on(t.skip(1), c));
        if s[0] == c {
            if t[0] != c { assert(a[0].len() == 0); assert(b[0].len() >= 1); }
            assert(x =~= a.skip(1)); assert(y =~= b.skip(1));
        } else {
            if t[0] == c { assert(b[0].len() == 0); assert(a[0].len() >= 1); }
            assert(a[0][0] == s[0] && b[0][0] == t[0]);
            assert(x[0] =~= a[0].skip(1)); assert(y[0] =~= b[0].skip(1));
            assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { if i > 0 { assert(a[i] == x[i]); assert(b[i] == y[i]); } }
            assert(x.len() == a.len() && y.len() == b.len());
            assert(x =~= y);
        }
        split_inj(s.skip(1), t.skip(1), c);
        assert(s =~= seq![s[0]] + s.skip(1));
        assert(t =~= seq![t[0]] + t.skip(1));
    }
}
/// a filter whose only `#` is its last level
pub open spec fn hash_last(p: Levels) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] p[i] != hash_l() }
pub proof fn same_pl_eq(p: Levels, q: Levels)
    requires same_pl(p, q), hash_last(p), hash_last(q)
    ensures p == q
    decreases p.len()
{
    if p.len() == 0 || q.len() == 0 { assert(p =~= q); }
    else if p[0] == hash_l() || q[0] == hash_l() {
        if p.len() > 1 { assert(p[0] != hash_l()); }
        if q.len() > 1 { assert(q[0] != hash_l()); }
        assert(p =~= q);
    } else {
        assert forall|i: int| 0 <= i < p.skip(1).len() - 1 implies #[trigger] p.skip(1)[i] != hash_l() by { assert(p.skip(1)[i] == p[i + 1]); }
        assert forall|i: int| 0 <= i < q.skip(1).len() - 1 implies #[trigger] q.skip(1)[i] != hash_l() by { assert(q.skip(1)[i] == q[i + 1]); }
        same_pl_eq(p.skip(1), q.skip(1));
        assert(p =~= seq![p[0]] + p.skip(1));
        assert(q =~= seq![q[0]] + q.skip(1));
    }
}
pub open spec fn tfilter(f: Seq<char>) -> bool { hash_last(split_on(f, '/')) }
pub proof fn hash_inside(s: Seq<char>, i: int)
    requires 0 <= i < split_on(s, '/').len() - 1, split_on(s, '/')[i].contains('#')
    ensures exists|j: int| 0 <= j < s.len() - 1 && s[j] == '#'
    decreases s.len()
{
    if s.len() > 0 {
        let s1 = s.skip(1);
        let r = split_on(s1, '/');
        split_len(s1, '/');
        if s[0] == '/' { assert(split_on(s, '/')[i] == (if i == 0 { Seq::<char>::empty() } else { r[i - 1] })); hash_inside(s1, i - 1); let j = choose|j: int| 0 <= j < s1.len() - 1 && s1[j] == '#'; assert(s[j + 1] == '#'); }
        else if i > 0 { assert(split_on(s, '/')[i] == r[i]); hash_inside(s1, i); let j = choose|j: int| 0 <= j < s1.len() - 1 && s1[j] == '#'; assert(s[j + 1] == '#'); }
        else {
            let x = seq![s[0]] + r[0];
            assert(split_on(s, '/')[0] == x);
            let k = choose|k: int| 0 <= k < x.len() && x[k] == '#';
            assert(s1.len() > 0) by { if s1.len() == 0 { assert(r.len() == 1); } }
            if k == 0 { assert(s[0] == '#'); }
            else { assert(r[0][k - 1] == '#'); hash_inside(s1, 0); let j = choose|j: int| 0 <= j < s1.len() - 1 && s1[j] == '#'; assert(s[j + 1] == '#'); }
        }
    }
}
/// what the codec accepts as a filter is one
pub proof fn topic_ok_filter(s: Seq<char>)
    requires topic_ok(s)
    ensures tfilter(s)
{
    let l = split_on(s, '/');
    assert forall|i: int| 0 <= i < l.len() - 1 implies #[trigger] l[i] != hash_l() by {
        if l[i] == hash_l() { assert(l[i][0] == '#'); assert(l[i].contains('#')); hash_inside(s, i); let j = choose|j: int| 0 <= j < s.len() - 1 && s[j] == '#'; assert(lvl_ok(s, j)); }
    }
}
pub proof fn path_filter(f: Seq<char>)
    requires tfilter(f)
    ensures hash_last(path(f))
{
    let a = split_on(f, '/');
    split_len(f, '/');
    assert(slash_l()[0] == '/' && hash_l()[0] == '#');
    assert forall|i: int| 0 <= i < path(f).len() - 1 implies #[trigger] path(f)[i] != hash_l() by { if i > 0 || a[0].len() > 0 { assert(path(f)[i] == a[i]); } }
}
/// what matches ends in `#` or has none
pub proof fn mt_hash_last(p: Levels, t: Levels)
    requires mt(p, t)
    ensures hash_last(p)
    decreases p.len()
{
    if p.len() > 0 && p[0] != hash_l() {
        mt_hash_last(p.skip(1), t.skip(1));
        assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] p[i] != hash_l() by { if i > 0 { assert(p[i] == p.skip(1)[i - 1]); } }
    }
}
/// different filters have different places
pub proof fn place_inj(f: Seq<char>, g: Seq<char>)
    requires same_pl(path(f), path(g)), hash_last(split_on(f, '/')), hash_last(split_on(g, '/'))
    ensures f == g
{
    let (a, b) = (split_on(f, '/'), split_on(g, '/'));
    split_len(f, '/'); split_len(g, '/'); no_sep(f, '/'); no_sep(g, '/');
    assert(slash_l()[0] == '/' && hash_l()[0] == '#');
    assert forall|i: int| 0 <= i < path(f).len() - 1 implies #[trigger] path(f)[i] != hash_l() by { if i > 0 || a[0].len() > 0 { assert(path(f)[i] == a[i]); } }
    assert forall|i: int| 0 <= i < path(g).len() - 1 implies #[trigger] path(g)[i] != hash_l() by { if i > 0 || b[0].len() > 0 { assert(path(g)[i] == b[i]); } }
    same_pl_eq(path(f), path(g));
    assert(a.skip(1) =~= path(f).skip(1));
    assert(b.skip(1) =~= path(g).skip(1));
    assert(path(f)[0] == path(g)[0]);
    if a[0] == slash_l() { assert(a[0].contains('/')); }
    if b[0] == slash_l() { assert(b[0].contains('/')); }
    if a[0].len() == 0 && b[0].len() == 0 { assert(a[0] =~= b[0]); }
    assert(a[0] == b[0]);
    assert(a =~= seq![a[0]] + a.skip(1));
    assert(b =~= seq![b[0]] + b.skip(1));
    split_inj(f, g, '/');
}
/// the filter matches the topic name, level by level
pub open spec fn tmatch(f: Seq<char>, t: Seq<char>) -> bool { mt(split_on(f, '/'), split_on(t, '/')) }
/// the entry has been among the first `n`
pub open spec fn offered(m: Holders, ord: Seq<Seq<char>>, n: int, c: Seq<char>, i: SubscriptionInfo) -> bool { holds(m, c, i) && exists|k: int| 0 <= k < n && ord[k] == c }
@@ end
