//! Deterministic generation: every case is a function of (seed, family, index).
use crate::spec::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, fam: u64, idx: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ fam.wrapping_mul(0xbf58476d1ce4e5b9) ^ idx.wrapping_mul(0x94d049bb133111eb));
        r.u(); r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u() % n as u64) as usize }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len())].clone() }
    pub fn byte(&mut self) -> u8 { self.u() as u8 }
}
pub fn g16(r: &mut Rng) -> u16 { let x = r.u() as u16; r.pick(&[0, 1, 2, 127, 128, 255, 256, 0x7fff, 0x8000, 65535, x, x]) }
pub fn g32(r: &mut Rng) -> u32 { let x = r.u() as u32; r.pick(&[0, 1, 127, 128, 255, 65535, 65536, 0x7fffffff, 0x80000000, u32::MAX, x, x]) }
pub fn gvar(r: &mut Rng) -> u32 { let x = r.u() as u32 % 0x10000000; let s = r.below(29); r.pick(&[0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 2097153, 268435455, x, x >> s]) }
pub fn gstr(r: &mut Rng) -> String {
    match r.below(24) {
        0 => { let n = r.pick(&[100, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256]); "x".repeat(n) }
        1 => "é".repeat(r.below(70)),
        2 if r.chance(8) => { let n = r.pick(&[16370, 16375, 16380, 16383, 16384, 32767, 32768, 65534, 65535]); "y".repeat(n) }
        _ => r.pick(&["", "a", "b", "ab", "abc", "é", "漢字", "😀", "a/b", "/", "$SYS", "key=value", " ", "\u{a0}", "\u{feff}x", "~", "#", "+", "MQTT", "\u{10ffff}", "a\u{300}"]).to_string(),
    }
}
pub fn gbad(r: &mut Rng) -> String {
    match r.below(6) { 0 => "x".repeat(65536), 1 => "é".repeat(32768), 2 => "\u{0}".into(), 3 => format!("a{}b", char::from_u32(r.below(0x20) as u32).unwrap()), 4 => format!("{}", char::from_u32(0x7f + r.below(0x21) as u32).unwrap()), _ => "x\n".into() }
}
pub fn gfilter(r: &mut Rng) -> String {
    let n = 1 + r.below(4);
    let mut v: Vec<String> = (0..n).map(|_| r.pick(&["a", "b", "c", "", "+", "+", "$x", "é", "dev1", "A"]).to_string()).collect();
    if r.chance(3) { v.push("#".into()); }
    if r.chance(12) { v = vec!["#".into()]; }
    v.join("/")
}
pub fn gtopic(r: &mut Rng) -> String {
    if r.chance(20) { return gstr(r).replace(['#', '+'], "_"); }
    let n = 1 + r.below(4);
    (0..n).map(|_| r.pick(&["a", "b", "c", "", "$x", "é", "dev1", "A"]).to_string()).collect::<Vec<_>>().join("/")
}
pub fn gbytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) { 0 => 0, 1 => 1, 2 => 110 + r.below(30), 3 if r.chance(6) => 16370 + r.below(30), _ => r.below(20) };
    (0..n).map(|_| r.byte()).collect()
}
pub fn gval(r: &mut Rng, k: Kind) -> Val {
    match k {
        Kind::Bool => Val::Bool(r.below(2) as u8), Kind::Byte => Val::Byte(r.pick(&[0u8, 1, 2, 127, 128, 255])), Kind::U16 => Val::U16(g16(r)), Kind::U32 => Val::U32(g32(r)),
        Kind::Var => Val::Var(gvar(r)), Kind::Str => Val::Str(gstr(r)), Kind::Data => Val::Data(gbytes(r)),
    }
}
pub fn gany(r: &mut Rng) -> Val {
    match r.below(8) { 7 => Val::Pair(gstr(r), gstr(r)), k => gval(r, [Kind::Bool, Kind::Byte, Kind::U16, Kind::U32, Kind::Var, Kind::Str, Kind::Data][k]) }
}
pub fn gprops(r: &mut Rng, o: Owner) -> Props {
    let mut v: Props = vec![];
    let dense = r.pick(&[0usize, 1, 1, 2, 3, 6, 100]);
    for (id, k, ow) in TABLE.iter() {
        if *id == 0x26 || !ow.contains(&o) { continue; }
        if dense == 100 || (dense > 0 && r.below(ow.len().max(8)) < dense && r.chance(2)) { let x = gval(r, *k); let at = r.below(v.len() + 1); v.insert(at, (*id, x)); }
    }
    let nu = r.pick(&[0usize, 0, 0, 1, 2, 3]);
    for _ in 0..nu { let s = gstr(r); let at = r.below(v.len() + 1); v.insert(at, (0x26, Val::Str(s))); }
    if r.chance(12) {
        // let the section end up just below, at and above a boundary of its length field
        let target = r.pick(&[126usize, 127, 128, 129, 16382, 16383, 16384, 16385]);
        let have = eprops_raw(&v).len();
        if have + 3 <= target { v.push((0x26, Val::Str("u".repeat(target - have - 3)))); }
    }
    v
}
pub const TYPES: [u8; 15] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
pub fn gpacket(r: &mut Rng) -> Pk { let t = r.pick(&[1u8, 1, 1, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 8, 9, 10, 10, 11, 12, 13, 14, 15]); gpacket_of(r, t) }
pub fn gpacket_of(r: &mut Rng, ty: u8) -> Pk {
    match ty {
        1 => {
            let mut flags = r.pick(&[0u8, 2]);
            let will = if r.chance(2) {
                flags |= 4 | r.pick(&[0u8, 8, 16]) | r.pick(&[0u8, 0x20]);
                Some(WillP { props: gprops(r, Owner::Will), topic: if r.chance(4) { gstr(r) } else { gtopic(r) }, payload: gbytes(r) })
            } else { None };
            let user = if r.chance(2) { flags |= 0x80; Some(gstr(r)) } else { None };
            let pass = if r.chance(2) { flags |= 0x40; Some(gbytes(r)) } else { None };
            Pk::Connect { flags, ka: g16(r), props: gprops(r, Owner::Connect), id: gstr(r), will, user, pass }
        }
        2 => Pk::ConnAck { flags: r.below(2) as u8, rc: r.pick(CONNACK_RC), props: gprops(r, Owner::ConnAck) },
        3 => {
            let q = r.below(3) as u8;
            let mut payload = gbytes(r);
            let props = gprops(r, Owner::Publish);
            let topic = gtopic(r);
            let id = if q > 0 { Some(g16(r)) } else { None };
            let mut p = Pk::Publish { flags: q << 1 | r.pick(&[0u8, 8]) | r.pick(&[0u8, 1]), topic, id, props, payload: vec![] };
            if r.chance(6) {
                let target = r.pick(&[126usize, 127, 128, 129, 16382, 16383, 16384, 16385]);
                let have = body(&p).len();
                if have <= target { payload = vec![7; target - have]; }
            }
            if let Pk::Publish { payload: x, .. } = &mut p { *x = payload; }
            p
        }
        4..=7 => Pk::Ack { ty, id: g16(r), rc: r.pick(rc_of(ty)), props: gprops(r, ty_owner(ty)) },
        8 => { let n = r.pick(&[1usize, 1, 2, 3, 5]); Pk::Subscribe { id: g16(r), props: gprops(r, Owner::Subscribe), topics: (0..n).map(|_| (gfilter(r), gopts(r))).collect() } }
        9 | 11 => { let n = r.pick(&[1usize, 1, 2, 3, 5, 130]); Pk::Rcs { ty, id: g16(r), props: gprops(r, ty_owner(ty)), rcs: (0..n).map(|_| r.pick(rc_of(ty))).collect() } }
        10 => { let n = r.pick(&[1usize, 1, 2, 3, 5]); Pk::Unsubscribe { id: g16(r), props: gprops(r, Owner::Unsubscribe), topics: (0..n).map(|_| gfilter(r)).collect() } }
        12 => Pk::PingReq,
        13 => Pk::PingRes,
        14 => Pk::Disconnect { rc: r.pick(DISCONNECT_RC), props: gprops(r, Owner::Disconnect) },
        _ => Pk::Auth { rc: r.pick(AUTH_RC), props: gprops(r, Owner::Auth) },
    }
}
pub fn gopts(r: &mut Rng) -> u8 { r.pick(&[0u8, 1, 2]) | r.pick(&[0u8, 4]) | r.pick(&[0u8, 8]) | r.pick(&[0u8, 0x10, 0x20]) }

/// a small packet of each type, with every kind of part: the base of exhaustive mutation
pub fn bases() -> Vec<Pk> {
    let s = |x: &str| x.to_string();
    let up = |v: &[&str]| -> Props { v.iter().map(|x| (0x26, Val::Str(x.to_string()))).collect() };
    let mut v = vec![
        Pk::Connect { flags: 2, ka: 0, props: vec![], id: s(""), will: None, user: None, pass: None },
        Pk::Connect { flags: 0xce, ka: 300, props: vec![(0x11, Val::U32(1)), (0x21, Val::U16(9)), (0x17, Val::Bool(1)), (0x16, Val::Data(vec![1]))], id: s("c"),
            will: Some(WillP { props: vec![(0x18, Val::U32(7)), (0x01, Val::Byte(1))], topic: s("w/t"), payload: vec![1, 2] }), user: Some(s("u")), pass: Some(vec![3]) },
        Pk::Connect { flags: 0x34, ka: 1, props: up(&["x", "y"]), id: s("é"), will: Some(WillP { props: vec![], topic: s("w"), payload: vec![] }), user: None, pass: None },
        Pk::ConnAck { flags: 1, rc: 0x83, props: vec![(0x12, Val::Str(s("id"))), (0x24, Val::Byte(1)), (0x13, Val::U16(2))] },
        Pk::ConnAck { flags: 0, rc: 0, props: vec![] },
        Pk::Publish { flags: 0, topic: s("a/b"), id: None, props: vec![], payload: b"hi".to_vec() },
        Pk::Publish { flags: 0xb, topic: s("t"), id: Some(0x102), props: vec![(0x0b, Val::Var(300)), (0x23, Val::U16(1)), (0x02, Val::U32(3))], payload: vec![] },
        Pk::Publish { flags: 4, topic: s("é"), id: Some(1), props: vec![(0x09, Val::Data(vec![0, 1])), (0x03, Val::Str(s("ct")))], payload: vec![0] },
        Pk::Subscribe { id: 1, props: vec![], topics: vec![(s("a/+"), 0)] },
        Pk::Subscribe { id: 0x203, props: vec![(0x0b, Val::Var(5)), (0x26, Val::Str(s("u")))], topics: vec![(s("#"), 0x2d), (s("a/#"), 0x12)] },
        Pk::Unsubscribe { id: 2, props: vec![], topics: vec![s("a"), s("+/b")] },
        Pk::Unsubscribe { id: 2, props: up(&["p"]), topics: vec![s("a/#")] },
        Pk::Rcs { ty: 9, id: 1, props: vec![], rcs: vec![0, 0x80] },
        Pk::Rcs { ty: 9, id: 1, props: vec![(0x1f, Val::Str(s("r")))], rcs: vec![1] },
        Pk::Rcs { ty: 11, id: 1, props: vec![], rcs: vec![0x11] },
        Pk::Rcs { ty: 11, id: 1, props: up(&["q"]), rcs: vec![0, 0x80] },
        Pk::PingReq, Pk::PingRes,
        Pk::Disconnect { rc: 0x8e, props: vec![] }, Pk::Disconnect { rc: 0, props: vec![(0x11, Val::U32(2)), (0x1c, Val::Str(s("s")))] },
        Pk::Auth { rc: 0x18, props: vec![(0x15, Val::Str(s("m"))), (0x16, Val::Data(vec![1]))] }, Pk::Auth { rc: 0, props: vec![] },
    ];
    for ty in 4..=7 { v.push(Pk::Ack { ty, id: 7, rc: 0, props: vec![] }); v.push(Pk::Ack { ty, id: 0x708, rc: rc_of(ty)[1], props: vec![(0x1f, Val::Str(s("why"))), (0x26, Val::Str(s("u")))] }); }
    v
}
/// all single-position changes of a frame: bytes replaced, removed, doubled, stretched to a longer
/// variable byte integer, each with and without the length field following suit
pub fn mutants(p: &Pk, f: &mut dyn FnMut(Vec<u8>)) {
    let b1 = byte1(p);
    let b = body(p);
    for x in 0..=255u8 { f(frame(x, &b)); }
    for i in 0..b.len() {
        for x in [0u8, 1, 2, 3, 4, 5, 8, 0x10, 0x20, 0x23, 0x2b, 0x2f, 0x40, 0x7f, 0x80, 0x81, 0x9f, 0xa2, 0xc0, 0xc2, 0xff, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x80, b[i] ^ 0x20] {
            let mut c = b.clone();
            c[i] = x;
            f(frame(b1, &c));
        }
        let mut c = b.clone();
        c.remove(i);
        f(frame(b1, &c));
        let mut c = b.clone();
        c.insert(i, b[i]);
        f(frame(b1, &c));
        if b[i] < 128 { let mut c = b.clone(); c[i] |= 0x80; c.insert(i + 1, 0); f(frame(b1, &c)); let mut d = b.clone(); d[i] |= 0x80; d.insert(i + 1, 0x80); d.insert(i + 2, 0); f(frame(b1, &d)); }
        f(frame(b1, &b[..i]));
        // the header promises more or less than is there
        let mut c = vec![b1];
        vbi(i, &mut c);
        c.extend_from_slice(&b);
        f(c);
    }
    for extra in 1..4 { let mut c = b.clone(); c.extend(vec![0u8; extra]); f(frame(b1, &c)); let mut d = b.clone(); d.extend(vec![b'a'; extra]); f(frame(b1, &d)); }
    // longer spellings of the remaining length
    let n = b.len();
    for k in 1..5usize {
        let mut c = vec![b1, (n % 128) as u8 | 0x80];
        let mut m = n / 128;
        for _ in 1..k { c.push((m % 128) as u8 | 0x80); m /= 128; }
        c.push(m as u8);
        c.extend_from_slice(&b);
        f(c);
    }
    // every property in every packet, once and twice, and identifiers that do not exist
    if let Some(_) = p.clone().props_mut() {
        for id in 0..=0x30u32 {
            let x = match prop(id) { Some((Kind::Bool, _)) => Val::Bool(1), Some((Kind::Byte, _)) => Val::Byte(1), Some((Kind::U16, _)) => Val::U16(3), Some((Kind::U32, _)) => Val::U32(4), Some((Kind::Var, _)) => Val::Var(200), Some((Kind::Str, _)) => Val::Str("s".into()), Some((Kind::Data, _)) => Val::Data(vec![9]), None => Val::Byte(0) };
            for (n, at_end) in [(1, true), (1, false), (2, true)] {
                let mut q = p.clone();
                { let ps = q.props_mut().unwrap(); for _ in 0..n { let at = if at_end { ps.len() } else { 0 }; ps.insert(at, (id, x.clone())); } }
                f(enc(&q));
                if let Pk::Connect { will: Some(w), .. } = &mut q { for _ in 0..n { w.props.push((id, x.clone())); } f(enc(&q)); }
            }
            let mut q = p.clone();
            if let Pk::Connect { will: Some(w), .. } = &mut q { w.props.push((id, x.clone())); f(enc(&q)); }
        }
    }
}
/// a random change of a random valid packet
pub fn gmutant(r: &mut Rng) -> Vec<u8> {
    let mut p = gpacket(r);
    if r.chance(3) {
        if let Some(ps) = p.props_mut() {
            let (id, k, _) = r.pick(&TABLE);
            let x = gval(r, k);
            let at = r.below(ps.len() + 1);
            ps.insert(at, (id, x));
            return enc(&p);
        }
    }
    if r.chance(4) {
        let bad = gbad(r);
        let w = if r.chance(2) { gfilter(r) + "+" } else { r.pick(&["a#", "#/a", "a/b#", "+a", "a+/b", "##", "a/#/b", "/#/", "+/+#"]).to_string() };
        match &mut p {
            Pk::Subscribe { topics, .. } => { let i = r.below(topics.len()); if r.chance(2) { topics[i].0 = w } else if r.chance(2) { topics[i].1 = r.byte() } else { topics[i].0 = bad } }
            Pk::Unsubscribe { topics, .. } => { let i = r.below(topics.len()); topics[i] = if r.chance(2) { w } else { bad } }
            Pk::Publish { topic, .. } => *topic = match r.below(3) { 0 => gfilter(r), 1 => w, _ => bad },
            Pk::Connect { id, user, will, flags, .. } => match r.below(4) { 0 => *id = bad, 1 => *user = Some(bad), 2 => *flags = r.byte(), _ => if let Some(x) = will { x.topic = if r.chance(2) { w } else { bad } } },
            Pk::ConnAck { rc, .. } | Pk::Ack { rc, .. } | Pk::Disconnect { rc, .. } | Pk::Auth { rc, .. } => *rc = r.byte(),
            Pk::Rcs { rcs, .. } => { let i = r.below(rcs.len()); rcs[i] = r.byte() }
            _ => (),
        }
        // a string of 65536 bytes cannot be written: its length field wraps around
        return enc(&p);
    }
    let b1 = if r.chance(10) { r.byte() } else { byte1(&p) };
    let mut b = body(&p);
    for _ in 0..1 + r.below(3) {
        match r.below(6) {
            0 if !b.is_empty() => { let i = r.below(b.len()); b[i] = r.byte(); }
            1 if !b.is_empty() => { let i = r.below(b.len()); b[i] ^= 1 << r.below(8); }
            2 if !b.is_empty() => { let i = r.below(b.len()); b.remove(i); }
            3 => { let i = r.below(b.len() + 1); let x = r.byte(); b.insert(i, x); }
            4 if !b.is_empty() => { let i = r.below(b.len()); b.truncate(i); }
            _ if !b.is_empty() => { let i = r.below(b.len()); let j = i + r.below(b.len() - i); let c = b[i..j].to_vec(); let at = r.below(b.len()); for (k, x) in c.into_iter().enumerate() { b.insert(at + k, x); } }
            _ => (),
        }
    }
    let mut f = frame(b1, &b);
    if r.chance(8) { let i = 1 + r.below(f.len() - 1); f[i] = r.byte(); }
    if r.chance(8) { let i = r.below(f.len() + 1); f.truncate(i); }
    f
}
