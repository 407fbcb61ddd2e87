//! Histories of clients against a running server (C14 to C17), the handshake (C18), the stream (C19).
use crate::gen::*;
use crate::spec::*;
use crate::stats::Case;
use crate::table::{config, differs, lookup, looked, qn, Model};
use crate::wire::*;
use apiformes_server_lib::{MqttServer, MqttServerConfig, Permeability};
use std::collections::BTreeMap;
use std::net::{SocketAddr, TcpListener};
use std::time::{Duration, Instant};
use tokio::time::timeout;

fn free_port() -> SocketAddr { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap() }
pub struct Srv { pub s: MqttServer, plain: SocketAddr, noise: SocketAddr, public: Vec<u8>, pub strict: bool, pub keep_alive: u16 }
impl Srv {
    async fn start(strict: bool, max: u32, keep_alive: u16, queue: usize) -> Option<Srv> {
        let kp = snow::Builder::new("Noise_XK_25519_ChaChaPoly_BLAKE2s".parse().unwrap()).generate_keypair().unwrap();
        // another process may take the port in between
        for _ in 0..5 {
            let (a, b) = (free_port(), free_port());
            let mut key = [0u8; 32];
            key.copy_from_slice(&kp.private);
            let cfg = MqttServerConfig { mqtt_socketaddr: Some(a), noise_socketaddr: Some(b), keep_alive, max_packet_size: max, dispatcher_queue_size: queue, channel_permeability: if strict { Permeability::Strict } else { Permeability::Permissive }, private_key: key, ..config() };
            if let Ok(s) = MqttServer::new(cfg).await { return Some(Srv { s, plain: a, noise: b, public: kp.public, strict, keep_alive }); }
        }
        None
    }
    async fn client(&self, noise: bool) -> Option<Cl> { if noise { Cl::noise(self.noise, &self.public).await } else { Cl::plain(self.plain).await } }
    async fn registered(&self, id: &str, want: bool) -> bool {
        let end = Instant::now() + Duration::from_secs(10);
        while Instant::now() < end {
            if self.s.clients().await.iter().any(|c| &**c == id) == want { return true; }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        false
    }

}

struct Exp { must: Vec<Pk>, may: Vec<Pk> }
fn name_for(r: &mut Rng, fs: &[String]) -> String {
    let t = r.pick(fs).split('/').map(|l| match l { "+" => r.pick(&["a", "b", "", "z"]), "#" => r.pick(&["a", "b", "a/b", ""]), x => x }.to_string()).collect::<Vec<_>>().join("/");
    if t.is_empty() { "a".into() } else { t }
}
fn small_filter(r: &mut Rng) -> String { loop { let f = if r.chance(6) { gfilter(r) } else { let n = 1 + r.below(3); let mut v: Vec<&str> = (0..n).map(|_| r.pick(&["a", "a", "b", "", "+"])).collect(); if r.chance(4) { *v.last_mut().unwrap() = "#"; } v.join("/") }; if !f.is_empty() { return f; } } }
const FORWARD: [u32; 5] = [0x01, 0x08, 0x09, 0x26, 0x03];

pub async fn case(c: Case, fam: &str, mut r: Rng) {
    let r = &mut r;
    let strict = fam == "mixed" && r.chance(2) || r.chance(8);
    let Some(srv) = Srv::start(strict, 1 << 18, 60, r.pick(&[1usize, 100, 1 << 16])).await else { c.infra(); return };
    let nc = 2 + r.below(3);
    let mut cls: BTreeMap<String, Cl> = BTreeMap::new();
    let mut enc_of: BTreeMap<String, bool> = BTreeMap::new();
    for k in 0..nc {
        let noise = if fam == "mixed" { r.chance(2) } else { r.chance(6) };
        let Some(mut cl) = srv.client(noise).await else { c.infra(); return };
        let id = r.pick(&["x", "client", "é", "a/b", "+"]).to_string() + &k.to_string();
        if !cl.hello(&id).await { c.fail("C18", "a plain CONNECT is not accepted", &format!("CONNECT clean start, client {id:?}, {}", if noise { "encrypted" } else { "plain" })); return; }
        if !srv.registered(&id, true).await { c.fail("C18", "accepted but not registered", &format!("CONNECT clean start, client {id:?}")); return; }
        enc_of.insert(id.clone(), noise);
        cls.insert(id, cl);
    }
    let ids: Vec<String> = cls.keys().cloned().collect();
    let pool: Vec<String> = (0..2 + r.below(4)).map(|_| small_filter(r)).collect();
    let mut m = Model::new();
    let mut exp: BTreeMap<String, Exp> = ids.iter().map(|i| (i.clone(), Exp { must: vec![], may: vec![] })).collect();
    let mut log: Vec<String> = enc_of.iter().map(|(i, e)| format!("{i:?} connects {}", if *e { "encrypted" } else { "plain" })).collect();
    if srv.strict { log.insert(0, "strict".into()); }
    let mut ev = 0;
    let n = 3 + r.below(8);
    let mut marker = 40000u16;
    let mut gone: Vec<String> = vec![];
    for k in 0..n {
        let live: Vec<String> = cls.keys().cloned().collect();
        if live.is_empty() { break; }
        let me = r.pick(&live);
        let what = match fam {
            "suback" => r.pick(&[0u8, 0, 0, 1]),
            "refuse" => r.pick(&[0u8, 1, 2, 2, 2, 3]),
            "gone" => r.pick(&[0u8, 0, 1, 4, 4, 5]),
            _ => if k < 2 { 0 } else { r.pick(&[0u8, 1, 1, 1, 1, 2, 5]) },
        };
        let pk: Pk;
        let mut refused = false;
        match what {
            0 => {
                let nt = if r.chance(12) { 40 } else { 1 + r.below(4) };
                let topics: Vec<(String, u8)> = (0..nt).map(|_| (r.pick(&pool), if fam == "suback" { gopts(r) } else { r.pick(&[0x20u8, 0x20, 0x24, 0x28, 0x2c, 0x24, 0x21, 0]) })).collect();
                let mut props = if r.chance(3) { vec![(0x26u32, Val::Str(gstr(r)))] } else { vec![] };
                let subid = r.chance(if fam == "suback" || fam == "refuse" { 6 } else { 40 });
                if subid { let at = r.below(props.len() + 1); props.insert(at, (0x0b, Val::Var(1 + r.below(300) as u32))); }
                let id = 1 + r.below(39000) as u16;
                if subid { refused = true; } else {
                    let rcs = topics.iter().map(|(f, o)| if o & 3 == 0 && o & 0x30 == 0x20 { m.insert((me.clone(), f.clone()), (0, (o >> 2) & 3)); 0 } else { 0x83 }).collect();
                    exp.get_mut(&me).unwrap().must.push(Pk::Rcs { ty: 9, id, props: vec![], rcs });
                }
                pk = Pk::Subscribe { id, props, topics };
            }
            1 | 4 => {
                let mut props: Props = vec![];
                for id in FORWARD { if r.chance(4) && id != 0x26 { props.push((id, gval(r, prop(id).unwrap().0))); } }
                for _ in 0..r.pick(&[0usize, 0, 1, 3]) { let s = gstr(r); let at = r.below(props.len() + 1); props.insert(at, (0x26, Val::Str(s))); }
                let payload = { let mut v = format!("{k}.").into_bytes(); v.extend(gbytes(r)); if r.chance(10) { v.clear(); } v };
                pk = Pk::Publish { flags: 0, topic: name_for(r, &pool), id: None, props, payload };
            }
            2 => {
                refused = true;
                pk = match r.below(8) {
                    0..=3 => {
                        let q = r.below(3) as u8;
                        let flags = q << 1 | r.pick(&[0u8, 1, 8, 9]);
                        let mut props = vec![];
                        if r.chance(2) || flags == 0 { let id = r.pick(&[2u32, 0x23, 0x0b]); props.push((id, gval(r, prop(id).unwrap().0))); }
                        if r.chance(3) { let s = gstr(r); props.insert(0, (0x26, Val::Str(s))); }
                        let p = Pk::Publish { flags, topic: name_for(r, &pool), id: if q > 0 { Some(g16(r)) } else { None }, props, payload: gbytes(r) };
                        p
                    }
                    _ => { let t = r.pick(&[1u8, 2, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15]); let mut p = gpacket_of(r, t); if let Pk::Unsubscribe { topics, .. } = &mut p { if r.chance(2) { *topics = pool.clone(); } } p }
                };
                if enc(&pk).len() > 60000 { continue; }
            }
            3 => { pk = Pk::PingReq; refused = true; }
            _ => {
                // leaves without a word
                if cls.len() < 2 { continue; }
                log.push(format!("{me:?} closes the connection"));
                drop(cls.remove(&me));
                exp.remove(&me);
                if !srv.registered(&me, false).await { c.fail("C21", "a closed connection stays registered", &log.join("; ")); return; }
                gone.push(me);
                continue;
            }
        }
        if enc(&pk).len() > 60000 { m.retain(|_, _| false); return; }
        let leave = what == 4 && cls.len() > 1;
        log.push(format!("{me:?} sends {pk:?}{}", if leave { " and closes the connection at once" } else { "" }));
        if refused { exp.get_mut(&me).unwrap().must.push(Pk::Disconnect { rc: 0x83, props: vec![] }); }
        if let (false, Pk::Publish { topic, props, payload, .. }) = (refused, &pk) {
            let copy = Pk::Publish { flags: 0, topic: topic.clone(), id: None, props: props.clone(), payload: payload.clone() };
            for (t, (_, fl)) in lookup(&m, topic) {
                if t == me && fl.iter().all(|f| f & 1 != 0) { continue; }
                if srv.strict && enc_of[&me] && !enc_of[&t] { continue; }
                // two matching subscriptions of the sender that disagree on local delivery: either may count
                let sure = !(t == me && fl.iter().any(|f| f & 1 != 0));
                if let Some(e) = exp.get_mut(&t) { if leave || !sure { e.may.push(copy.clone()) } else { e.must.push(copy.clone()) } }
            }
        }
        let cl = cls.get_mut(&me).unwrap();
        if !cl.send(&pk).await { let l = if refused { "C16" } else { "C19" }; c.fail(l, "the connection is gone before the packet was sent", &log.join("; ")); return; }
        if leave {
            drop(cls.remove(&me));
            exp.remove(&me);
            if !srv.registered(&me, false).await { c.fail("C21", "a closed connection stays registered", &log.join("; ")); return; }
            gone.push(me);
            continue;
        }
        // the acting client waits for its answers, so that the history has one order
        marker += 1;
        let (got, end) = cl.drain(marker).await;
        ev += got.len();
        let e = exp.get_mut(&me).unwrap();
        if let Some((l, w)) = judge(&me, &got, &end, e, &enc_of, &srv, what, refused, &pk) { c.fail(&l, &w, &log.join("; ")); return; }
        if what == 0 && !refused || r.chance(3) {
            let name = name_for(r, &pool);
            let (want, got) = (lookup(&m, &name), looked!(srv.s, &name));
            if differs(&want, &got) { c.fail(if refused { "C16" } else if what == 0 { "C17" } else { "C16 C17" }, &format!("the lookup of {name:?} gives {got:?}, expected {want:?}"), &log.join("; ")); return; }
        }
    }
    for (id, cl) in cls.iter_mut() {
        marker += 1;
        let (got, end) = cl.drain(marker).await;
        ev += got.len();
        let e = exp.get_mut(id).unwrap();
        if let Some((l, w)) = judge(id, &got, &end, e, &enc_of, &srv, 9, false, &Pk::PingReq) { c.fail(&l, &w, &log.join("; ")); return; }
    }
    c.hit(ev > 0, || log.join("; "));
    drop(cls);
    drop(srv);
}

/// received against expected; which properties a difference breaks
fn judge(id: &str, got: &[Pk], end: &Got, e: &mut Exp, enc_of: &BTreeMap<String, bool>, srv: &Srv, what: u8, refused: bool, last: &Pk) -> Option<(String, String)> {
    let mut must = std::mem::take(&mut e.must);
    let mut may = std::mem::take(&mut e.may);
    // an optional copy may still arrive later
    let canon = |p: &Pk| p.clone().canon();
    let mut i = 0;
    for g in got {
        let g = canon(g);
        if must.first().map(|m| canon(m)) == Some(g.clone()) { must.remove(0); i += 1; continue; }
        if let Some(k) = may.iter().position(|m| canon(m) == g) { may.remove(k); i += 1; continue; }
        let mixed = enc_of.values().any(|x| *x) && enc_of.values().any(|x| !*x);
        let all = format!("{id:?} received {:?} as number {i} of its packets, expected next was {:?}", g, must.first());
        let l = match &g {
            Pk::Publish { .. } if refused => "C16",
            Pk::Publish { .. } => if srv.strict && mixed && !enc_of[id] { "C15 C14" } else { "C14" },
            Pk::Rcs { .. } => "C17",
            Pk::Disconnect { .. } => if what == 0 && !refused { "C17 C16" } else if matches!(last, Pk::Publish { .. }) && !refused { "C14 C16" } else { "C16" },
            _ => "C16 C17",
        };
        return Some((l.into(), all));
    }
    let alive = matches!(end, Got::Pk(_));
    e.may = may;
    if let Some(m) = must.first() {
        let mixed = enc_of.values().any(|x| *x) && enc_of.values().any(|x| !*x);
        let l = match m { Pk::Publish { .. } => if mixed { "C14 C15" } else { "C14" }, Pk::Rcs { .. } => "C17", _ => "C16" };
        let l = if alive { l.to_string() } else { format!("{l} C16") };
        return Some((l, format!("{id:?} never received {m:?}{}", if alive { String::new() } else { format!("; instead of an answer to its next request: {end:?}") })));
    }
    match end {
        Got::Pk(Pk::Rcs { rcs, props, .. }) if *rcs == vec![0x83] && props.is_empty() => None,
        Got::Pk(p) => Some(("C17".into(), format!("a request for QoS 1 is answered with {p:?}"))),
        g => Some(((if what == 0 && !refused { "C16 C17" } else { "C16" }).into(), format!("{id:?}: instead of an answer to its next request: {g:?}"))),
    }
}

// ---------------------------------------------------------------------------------------- takeover
/// another connection takes over the identifier of an encrypted publisher while its messages are queued
pub async fn takeover(c: Case, mut r: Rng) {
    let r = &mut r;
    let Some(srv) = Srv::start(true, 1 << 18, 60, 1 << 22).await else { c.infra(); return };
    let (Some(mut s), Some(mut x), Some(mut y)) = (srv.client(false).await, srv.client(true).await, srv.client(false).await) else { c.infra(); return };
    if !s.hello("s").await || !x.hello("x").await { c.infra(); return; }
    if !srv.registered("s", true).await || !srv.registered("x", true).await { c.infra(); return; }
    // many matching subscriptions, so that a lookup takes its time
    let d = 10 + r.below(2);
    let topics = (0..1u32 << d).map(|k| ((0..d).map(|i| if k >> i & 1 == 1 { "+" } else { "a" }).collect::<Vec<_>>().join("/"), 0x20u8)).collect();
    if !s.send(&Pk::Subscribe { id: 1, props: vec![], topics }).await || !matches!(s.recv(PATIENCE).await, Got::Pk(Pk::Rcs { .. })) { c.infra(); return; }
    let own = r.chance(2);
    if own && (!x.send(&Pk::Subscribe { id: 1, props: vec![], topics: vec![("a/#".into(), 0x20)] }).await || !matches!(x.recv(PATIENCE).await, Got::Pk(Pk::Rcs { .. }))) { c.infra(); return; }
    let n = 500;
    for k in 0..n {
        if !x.send(&Pk::Publish { flags: 0, topic: vec!["a"; d].join("/"), id: None, props: vec![], payload: vec![k as u8] }).await { c.infra(); return; }
    }
    // so that some of them are queued
    tokio::time::sleep(std::time::Duration::from_millis(r.below(30) as u64)).await;
    let late = y.hello("x").await;
    let what = format!("strict; \"x\" connects encrypted and publishes {n} messages; \"x\" connects plain; \"s\" connected plain holds {} subscriptions that match", 1u32 << d);
    let (got, e) = s.drain(2).await;
    if let Some(p) = got.first() { c.fail("C15", &format!("\"s\" received {p:?}, published over an encrypted connection"), &what); return; }
    if late {
        let (got, _) = y.drain(2).await;
        if let Some(p) = got.first() { c.fail("C15", &format!("the plain \"x\" received {p:?}, published over the encrypted connection of \"x\""), &format!("{what}{}", if own { ", the encrypted \"x\" subscribed to a/# before" } else { "" })); return; }
    }
    c.hit(matches!(e, Got::Pk(_)), || what.clone());
    drop(srv);
}

// --------------------------------------------------------------------------------------- handshake
fn supported(p: &Pk) -> Option<bool> {
    match p {
        Pk::Connect { flags, props, will, user, pass, .. } => Some(flags & 2 != 0 && will.is_none() && user.is_none() && pass.is_none() && !props.iter().any(|p| p.0 == 0x15 || p.0 == 0x16)),
        _ => None,
    }
}
pub async fn connect(c: Case, mut r: Rng) {
    let r = &mut r;
    let ka = r.pick(&[30u16, 31, 300, 65535]);
    let Some(srv) = Srv::start(r.chance(2), r.pick(&[200u32, 1 << 16]), ka, 1 << 12).await else { c.infra(); return };
    for k in 0..12 {
        let noise = r.chance(4);
        let Some(mut cl) = srv.client(noise).await else { c.infra(); return };
        let mut p = match r.below(8) {
            0 => gpacket(r),
            1 => gpacket_of(r, 1),
            _ => {
                let props: Props = gprops(r, Owner::Connect).into_iter().filter(|p| (p.0 != 0x15 && p.0 != 0x16) || r.chance(6)).collect();
                Pk::Connect { flags: 2, ka: g16(r), props, id: if r.chance(3) { String::new() } else { gstr(r) }, will: None, user: None, pass: None }
            }
        };
        if let Pk::Connect { flags, user, pass, .. } = &mut p {
            if r.chance(12) { *flags &= !2; }
            if r.chance(12) { *flags |= 0x80; *user = Some(r.pick(&["", "u"]).into()); }
            if r.chance(12) { *flags |= 0x40; *pass = Some(r.pick(&[vec![], vec![1]])); }
        }
        let b = enc(&p);
        if b.len() > 60000 { continue; }
        let max = srv.s.config().max_packet_size as usize;
        let what = format!("{} {p:?}", if noise { "encrypted" } else { "plain" });
        // a connection under the same identifier is another property
        let busy = matches!(&p, Pk::Connect { id, .. } if srv.s.clients().await.iter().any(|c| **c == **id));
        if busy { continue; }
        let before: Vec<String> = srv.s.clients().await.iter().map(|c| c.to_string()).collect();
        cl.bytes(&b).await;
        let got = cl.recv(PATIENCE).await;
        let fits = noise || b.len() <= max;
        let ok = supported(&p);
        c.hit(ok.is_some(), || format!("{what} -> {got:?}"));
        match (&p, ok, &got) {
            (Pk::Connect { id, props, .. }, Some(true), Got::Pk(Pk::ConnAck { flags: 0, rc: 0, props: a })) if fits => {
                let get = |k: u32| a.iter().find(|p| p.0 == k).map(|p| p.1.clone());
                let asked = |k: u32, d: Val| props.iter().find(|p| p.0 == k).map(|p| p.1.clone()).unwrap_or(d);
                let mut bad = vec![];
                if get(0x11) != Some(asked(0x11, Val::U32(0))) { bad.push("session expiry"); }
                if get(0x21).unwrap_or(Val::U16(65535)) != asked(0x21, Val::U16(65535)) { bad.push("receive maximum"); }
                if get(0x24) != Some(Val::Byte(0)) { bad.push("maximum QoS"); }
                if get(0x22).unwrap_or(Val::U16(0)) != Val::U16(0) { bad.push("topic alias maximum"); }
                if get(0x29) != Some(Val::Bool(0)) { bad.push("subscription identifiers"); }
                if get(0x2a) != Some(Val::Bool(0)) { bad.push("shared subscriptions"); }
                if get(0x13) != Some(Val::U16(srv.keep_alive)) { bad.push("server keep alive"); }
                let mine = match get(0x12) {
                    Some(Val::Str(s)) if id.is_empty() && !s.is_empty() && !before.contains(&s) => s,
                    None if !id.is_empty() => id.clone(),
                    _ => { bad.push("assigned client identifier"); String::new() }
                };
                if !bad.is_empty() { c.fail("C18", &format!("CONNACK states {a:?}: wrong {bad:?}"), &what); return; }
                if !srv.registered(&mine, true).await { c.fail("C18", &format!("{mine:?} is accepted but not registered"), &what); return; }
                cl.id = mine.clone();
                let (v, e) = cl.drain(40000 + k).await;
                if !v.is_empty() || !matches!(e, Got::Pk(_)) { c.fail("C18", &format!("after the handshake: {v:?} {e:?}"), &what); return; }
                drop(cl);
                if !srv.registered(&mine, false).await { c.fail("C21", "a closed connection stays registered", &what); return; }
            }
            (_, Some(false), Got::Pk(Pk::ConnAck { flags: 0, rc: 0x83, .. })) if fits => {
                let e = cl.recv(PATIENCE).await;
                if e != Got::Closed { c.fail("C18", &format!("after the refusal: {e:?}"), &what); return; }
            }
            (_, None, Got::Closed) => (),
            (_, _, Got::Closed) if !fits => (),
            _ => { c.fail(if fits { "C18" } else { "C19 C18" }, &format!("answered with {got:?}"), &what); return; }
        }
        if ok != Some(true) {
            let after: Vec<String> = srv.s.clients().await.iter().map(|c| c.to_string()).collect();
            if after.len() > before.len() { c.fail("C18", &format!("registered although refused: {after:?}"), &what); return; }
        }
    }
    drop(srv);
}

// ------------------------------------------------------------------------------------------ stream
pub async fn stream(c: Case, mut r: Rng) {
    let r = &mut r;
    let max = r.pick(&[64usize, 100, 128, 300, 1000, 20000]);
    let Some(srv) = Srv::start(false, max as u32, 60, 1 << 14).await else { c.infra(); return };
    let Some(mut cl) = srv.client(false).await else { c.infra(); return };
    if !cl.hello("s").await { c.fail("C19 C18", "a plain CONNECT is not accepted", "CONNECT clean start"); return; }
    if !srv.registered("s", true).await { c.fail("C18", "accepted but not registered", "CONNECT clean start"); return; }
    cl.send(&Pk::Subscribe { id: 1, props: vec![], topics: vec![("p/#".into(), 0x20)] }).await;
    if !matches!(cl.recv(PATIENCE).await, Got::Pk(Pk::Rcs { .. })) { c.infra(); return; }
    // a sequence of packets, the answers to them, and how the stream ends
    let mut s: Vec<u8> = vec![];
    let mut want: Vec<Pk> = vec![];
    let mut starts = vec![];
    let n = r.below(10);
    for k in 0..n {
        let p = match r.below(6) {
            0..=2 => {
                let mut p = Pk::Publish { flags: 0, topic: format!("p/{k}"), id: None, props: vec![], payload: gbytes(r) };
                let have = enc(&p).len();
                // as large as the server takes
                if let Pk::Publish { payload, .. } = &mut p { if r.chance(4) && have < max { payload.extend(vec![k as u8; max - have]); } }
                let mut over = enc(&p).len();
                while over > max { if let Pk::Publish { payload, .. } = &mut p { let l = payload.len(); payload.truncate(l - (over - max).min(l).max(1).min(l)); if l == 0 { break; } } over = enc(&p).len(); }
                p
            }
            3 => Pk::Subscribe { id: 2 + k as u16, props: vec![], topics: (0..1 + r.below(3)).map(|i| (format!("q/{i}"), r.pick(&[0x20u8, 0]))).collect() },
            4 => Pk::PingReq,
            _ => { let t = r.pick(&[2u8, 4, 9, 10, 12, 14, 15]); gpacket_of(r, t) }
        };
        let e = enc(&p);
        if e.len() > max { continue; }
        starts.push(s.len());
        s.extend(e);
        want.push(match p {
            Pk::Publish { .. } => p,
            Pk::Subscribe { id, topics, .. } => Pk::Rcs { ty: 9, id, props: vec![], rcs: topics.iter().map(|t| if t.1 == 0x20 { 0 } else { 0x83 }).collect() },
            _ => Pk::Disconnect { rc: 0x83, props: vec![] },
        });
    }
    let cuts: Vec<usize> = match r.below(5) {
        0 => (1..s.len().min(60)).collect(),
        1 => starts.iter().flat_map(|x| [x + 1, x + 2]).collect(),
        2 => vec![],
        _ => { let mut v: Vec<usize> = (0..1 + r.below(6)).map(|_| r.below(s.len() + 1)).collect(); v.sort(); v }
    };
    let mut parts = vec![];
    let mut i = 0;
    for &k in cuts.iter().chain([&s.len()]) { if k > i && k <= s.len() { parts.push(&s[i..k]); i = k; } }
    let how = format!("maximum {max}; stream {:02x?} cut at {:?}", &s[..s.len().min(300)], &cuts[..cuts.len().min(20)]);
    for p in &parts { cl.bytes(p).await; if parts.len() > 1 { tokio::time::sleep(Duration::from_micros(r.pick(&[0u64, 300, 1500]))).await; } }
    for (k, w) in want.iter().enumerate() {
        let g = cl.recv(PATIENCE).await;
        let same = match &g { Got::Pk(p) => p.clone().canon() == w.clone().canon(), _ => false };
        if !same { c.fail("C19", &format!("answer {k} is {g:?}, expected {w:?}"), &how); return; }
    }
    let (extra, e) = cl.drain(50000).await;
    if !extra.is_empty() || !matches!(e, Got::Pk(_)) { c.fail("C19", &format!("after the stream: {extra:?} {e:?}"), &how); return; }
    // the end
    let (what, tail, eof): (&str, Vec<u8>, bool) = match r.below(5) {
        0 => ("malformed", r.pick(&[vec![0x00, 0x00], vec![0xc1, 0x00], vec![0xc0, 0x01, 0x00], vec![0x30, 0x01, 0x00], vec![0x30, 0x04, 0x00, 0x01, b'#', 0x00], vec![0x82, 0x02, 0x00, 0x01], vec![0xc0, 0xff, 0xff, 0xff, 0xff, 0x01], vec![0xe0, 0x02, 0x05, 0x00]]), false),
        1 => { let len = max + 1 + r.below(50); let mut v = enc(&Pk::Publish { flags: 0, topic: "p/x".into(), id: None, props: vec![], payload: vec![1; len] }); v.truncate(max + r.below(40)); ("longer than the maximum", v, false) }
        2 => ("end of stream", vec![], true),
        3 => { let mut v = enc(&Pk::Publish { flags: 0, topic: "p/x".into(), id: None, props: vec![], payload: vec![1; 20] }); let k = 1 + r.below(v.len() - 1); v.truncate(k); ("end of stream inside a packet", v, true) }
        _ => { let v = enc(&Pk::PingReq); ("end of stream after a packet", v, true) }
    };
    if !tail.is_empty() { cl.bytes(&tail).await; }
    if eof { cl.eof().await; }
    loop {
        match cl.recv(PATIENCE).await {
            Got::Closed => break,
            Got::Pk(Pk::Disconnect { .. }) if what == "end of stream after a packet" => (),
            g => { c.fail("C19", &format!("{what}: {g:?}, expected the connection to be closed"), &format!("{how}; then {tail:02x?}{}", if eof { " and the end of the stream" } else { "" })); return; }
        }
    }
    if !cl.left_over().is_empty() { c.fail("C19", "half a packet before the end", &how); }
    if !srv.registered("s", false).await { c.fail("C19 C21", &format!("{what}: the connection stays registered"), &how); return; }
    c.hit(!want.is_empty(), || how.clone());
    drop(srv);
}

// --------------------------------------------------------------------------------- encrypted stream
pub async fn sealed(c: Case, mut r: Rng) {
    let r = &mut r;
    let max = r.pick(&[64usize, 1000, 20000]);
    let Some(srv) = Srv::start(r.chance(2), max as u32, 60, 1 << 14).await else { c.infra(); return };
    let Some(mut cl) = srv.client(true).await else { c.infra(); return };
    if !cl.hello("s").await { c.fail("C19 C18", "an encrypted CONNECT is not accepted", "CONNECT clean start"); return; }
    if !srv.registered("s", true).await { c.fail("C18", "accepted but not registered", "CONNECT clean start"); return; }
    cl.send(&Pk::Subscribe { id: 1, props: vec![], topics: vec![("p/#".into(), 0x20)] }).await;
    if !matches!(cl.recv(PATIENCE).await, Got::Pk(Pk::Rcs { .. })) { c.infra(); return; }
    let mut log = vec![];
    for k in 0..r.below(8) {
        let p = match r.below(5) {
            0..=1 => Pk::Publish { flags: 0, topic: format!("p/{k}"), id: None, props: vec![], payload: { let mut v = gbytes(r); v.truncate(30000); v } },
            2 => Pk::Subscribe { id: 2 + k as u16, props: vec![], topics: (0..1 + r.below(3)).map(|i| (format!("q/{i}"), r.pick(&[0x20u8, 0]))).collect() },
            3 => Pk::PingReq,
            _ => { let t = r.pick(&[2u8, 4, 9, 10, 12, 14, 15]); gpacket_of(r, t) }
        };
        let e = enc(&p);
        if e.len() > 60000 { continue; }
        log.push(format!("frame {:02x?}", &e[..e.len().min(40)]));
        if !cl.bytes(&e).await { c.fail("C19", "the connection is gone", &log.join("; ")); return; }
        let want = match p {
            Pk::Publish { .. } => p,
            Pk::Subscribe { id, topics, .. } => Pk::Rcs { ty: 9, id, props: vec![], rcs: topics.iter().map(|t| if t.1 == 0x20 { 0 } else { 0x83 }).collect() },
            _ => Pk::Disconnect { rc: 0x83, props: vec![] },
        };
        let g = cl.recv(PATIENCE).await;
        let same = match &g { Got::Pk(p) => p.clone().canon() == want.clone().canon(), _ => false };
        if !same { c.fail("C19", &format!("answered with {g:?}, expected {want:?}"), &log.join("; ")); return; }
    }
    // the end: the plaintext of one frame is not a packet, or the frame is forged
    let whole = match r.below(4) { 0 => Pk::PingReq, 1 => Pk::Publish { flags: 0, topic: "p/x".into(), id: None, props: vec![], payload: vec![0; r.below(20)] }, 2 => Pk::Subscribe { id: 7, props: vec![], topics: vec![("p/z".into(), 0x20)] }, _ => gpacket(r) };
    let b = enc(&whole);
    let kind = r.below(5);
    let what = match kind {
        0 | 1 => { let k = if r.chance(3) { b.len().min(60000) - 1 } else { r.below(b.len().min(60000)) }; let k = k.min(b.len() - 1); cl.bytes(&b[..k]).await; format!("a frame with the first {k} bytes of {:02x?}", &b[..b.len().min(40)]) }
        2 => { let v = r.pick(&[vec![0x00u8, 0x00], vec![0xc1, 0x00], vec![0xc0, 0x01, 0x00], vec![0x30, 0x01, 0x00], vec![0x82, 0x02, 0x00, 0x01], vec![0xc0, 0xff, 0xff, 0xff, 0xff, 0x01]]); cl.bytes(&v).await; format!("a frame with {v:02x?}") }
        3 => { let e = enc(&Pk::PingReq); cl.forged(&e, r.below(18)).await; "a forged frame".to_string() }
        _ => { cl.eof().await; "end of stream".to_string() }
    };
    let g = cl.recv(PATIENCE).await;
    if g != Got::Closed { c.fail("C19", &format!("{what}: {g:?}, expected the connection to be closed"), &log.join("; ")); return; }
    if !srv.registered("s", false).await { c.fail("C19 C21", &format!("{what}: the connection stays registered"), &log.join("; ")); return; }
    c.hit(true, || format!("{}; {what}", log.join("; ")));
    drop(srv);
}

// ---------------------------------------------------------------------------------------- registry
/// connects, disconnects and takeovers: registered exactly while the latest connection is there
pub async fn registry(c: Case, mut r: Rng) {
    let r = &mut r;
    let Some(srv) = Srv::start(r.chance(3), 1 << 16, 60, 1 << 14).await else { c.infra(); return };
    let mut cur: BTreeMap<String, Cl> = BTreeMap::new();
    let ids = ["a", "b", "ab"];
    let mut log: Vec<String> = vec![];
    let mut hits = 0;
    for k in 0..4 + r.below(6) {
        let id = r.pick(&ids).to_string();
        let noise = r.chance(4);
        match r.below(6) {
            0 if cur.contains_key(&id) => {
                log.push(format!("{id:?} closes its connection"));
                drop(cur.remove(&id));
                if !srv.registered(&id, false).await { c.fail("C21", "a closed connection stays registered", &log.join("; ")); return; }
            }
            1 if cur.contains_key(&id) => {
                log.push(format!("{id:?} sends a malformed packet"));
                let mut cl = cur.remove(&id).unwrap();
                cl.bytes(&[0, 0]).await;
                let g = cl.recv(PATIENCE).await;
                if g != Got::Closed { c.fail("C19", &format!("after a malformed packet: {g:?}"), &log.join("; ")); return; }
                if !srv.registered(&id, false).await { c.fail("C21", "a closed connection stays registered", &log.join("; ")); return; }
            }
            2 => {
                // a refused connection changes nothing
                log.push(format!("a CONNECT under {id:?} that is refused"));
                let Some(mut cl) = srv.client(noise).await else { c.infra(); return };
                cl.send(&Pk::Connect { flags: 0, ka: 0, props: vec![], id: id.clone(), will: None, user: None, pass: None }).await;
                let g = cl.recv(PATIENCE).await;
                if !matches!(g, Got::Pk(Pk::ConnAck { rc: 0x83, .. })) { c.fail("C18", &format!("answered with {g:?}"), &log.join("; ")); return; }
            }
            3 => {
                let old = cur.remove(&id);
                log.push(format!("{id:?} connects twice at the same time{}", if old.is_some() { " and takes over" } else { "" }));
                let (Some(mut p), Some(mut q)) = (srv.client(noise).await, srv.client(r.chance(4)).await) else { c.infra(); return };
                let (a, b) = tokio::join!(p.hello(&id), q.hello(&id));
                if !a || !b { c.fail("C18", "a plain CONNECT is not accepted", &log.join("; ")); return; }
                if let Some(mut old) = old {
                    let g = loop { match old.recv(PATIENCE).await { Got::Pk(_) => (), g => break g } };
                    if g != Got::Closed { c.fail("C21", &format!("the first connection is still there: {g:?}"), &log.join("; ")); return; }
                }
                hits += 1;
                let t = std::time::Instant::now();
                let cl = loop {
                    let g = p.recv(Duration::from_millis(50)).await;
                    if g == Got::Closed { break q; }
                    let h = q.recv(Duration::from_millis(50)).await;
                    if h == Got::Closed { break p; }
                    if t.elapsed() > PATIENCE { c.fail("C21", &format!("both connections are still there: {g:?}, {h:?}"), &log.join("; ")); return; }
                };
                let mut cl = cl;
                if !srv.registered(&id, true).await { c.fail("C21 C18", &format!("{id:?} is not registered"), &log.join("; ")); return; }
                let (v, e) = cl.drain(40000 + k as u16).await;
                if !matches!(e, Got::Pk(_)) || !v.is_empty() { c.fail("C21", &format!("the connection of {id:?} does not answer: {v:?} {e:?}"), &log.join("; ")); return; }
                cur.insert(id, cl);
            }
            _ => {
                let old = cur.remove(&id);
                log.push(format!("{id:?} connects {}{}", if noise { "encrypted" } else { "plain" }, if old.is_some() { " and takes over" } else { "" }));
                let Some(mut cl) = srv.client(noise).await else { c.infra(); return };
                if !cl.hello(&id).await { c.fail("C18", "a plain CONNECT is not accepted", &log.join("; ")); return; }
                if let Some(mut old) = old {
                    hits += 1;
                    // the same history, but the first connection may end on its own at the same time
                    if r.chance(3) { log.push("the first connection closes".into()); drop(old); }
                    else {
                        let g = loop { match old.recv(PATIENCE).await { Got::Pk(_) => (), g => break g } };
                        if g != Got::Closed { c.fail("C21", &format!("the first connection is still there: {g:?}"), &log.join("; ")); return; }
                    }
                }
                if !srv.registered(&id, true).await { c.fail("C21 C18", &format!("{id:?} is not registered"), &log.join("; ")); return; }
                let (v, e) = cl.drain(40000 + k as u16).await;
                if !matches!(e, Got::Pk(_)) || !v.is_empty() { c.fail("C21", &format!("the connection of {id:?} does not answer: {v:?} {e:?}"), &log.join("; ")); return; }
                cur.insert(id, cl);
            }
        }
        // the end of an earlier connection may be noticed late
        tokio::time::sleep(Duration::from_millis(r.pick(&[0u64, 2, 20]))).await;
        let mut have: Vec<String> = srv.s.clients().await.iter().map(|c| c.to_string()).collect();
        have.sort();
        let want: Vec<String> = cur.keys().cloned().collect();
        if have != want { c.fail("C21", &format!("registered are {have:?}, connected are {want:?}"), &log.join("; ")); return; }
    }
    for (id, cl) in cur.iter_mut() {
        let (v, e) = cl.drain(50000).await;
        if !matches!(e, Got::Pk(_)) || !v.is_empty() { c.fail("C21", &format!("the connection of {id:?} does not answer: {v:?} {e:?}"), &log.join("; ")); return; }
    }
    c.hit(hits > 0, || log.join("; "));
    drop(cur);
    drop(srv);
}

// ---------------------------------------------------------------------------------------- shutdown
/// after a shutdown every task has ended, and every connection with it
pub async fn shutdown(c: Case, mut r: Rng) {
    let r = &mut r;
    let mut log: Vec<String> = vec![];
    if r.chance(8) {
        let Ok(s) = MqttServer::new(config()).await else { c.infra(); return };
        if timeout(PATIENCE, s.shutdown()).await.is_err() { c.fail("C22", "shutdown does not return", "a server without listeners"); return; }
        c.hit(true, || "a server without listeners".into());
        return;
    }
    let Some(srv) = Srv::start(r.chance(3), 1 << 16, 300, r.pick(&[1usize, 1 << 14])).await else { c.infra(); return };
    let mut cls: Vec<(String, Cl)> = vec![];
    for k in 0..r.below(7) {
        let noise = r.chance(3);
        let e = if noise { "encrypted" } else { "plain" };
        match r.below(6) {
            0 => {
                let Some(cl) = srv.client(noise).await else { c.infra(); return };
                log.push(format!("an {e} connection without a CONNECT"));
                cls.push((log.last().unwrap().clone(), cl));
            }
            1 => {
                let Some(mut cl) = Cl::plain(if noise { srv.noise } else { srv.plain }).await else { c.infra(); return };
                cl.bytes(if noise { &[0, 0] } else { &[0x10, 40, 0] }).await;
                log.push(format!("an {e} connection in the middle of its handshake"));
                cls.push((log.last().unwrap().clone(), cl));
            }
            2 => {
                let Some(mut cl) = srv.client(noise).await else { c.infra(); return };
                let _ = cl.hello("gone").await;
                log.push(format!("a connection that is {e} and gone"));
            }
            _ => {
                let Some(mut cl) = srv.client(noise).await else { c.infra(); return };
                let id = format!("c{}", r.below(4));
                if !cl.hello(&id).await { c.infra(); return; }
                log.push(format!("{id:?} connects {e}"));
                if r.chance(2) {
                    cl.send(&Pk::Subscribe { id: 1, props: vec![], topics: vec![("t".into(), 0x20)] }).await;
                    for _ in 0..r.below(30) { cl.send(&Pk::Publish { flags: 0, topic: "t".into(), id: None, props: vec![], payload: vec![k as u8] }).await; }
                    log.push("and publishes".into());
                }
                cls.push((log.last().unwrap().clone(), cl));
            }
        }
        if r.chance(2) { tokio::time::sleep(Duration::from_millis(r.below(6) as u64)).await; }
    }
    log.push("shutdown".into());
    if timeout(PATIENCE, srv.s.shutdown()).await.is_err() { c.fail("C22", "shutdown does not return", &log.join("; ")); return; }
    for (what, cl) in &mut cls {
        let end = Instant::now() + PATIENCE;
        let g = loop { match cl.recv(Duration::from_millis(500)).await { Got::Pk(_) => (), Got::Nothing if Instant::now() < end => (), g => break g } };
        if g == Got::Nothing { c.fail("C22", &format!("still open after the shutdown: {what}"), &log.join("; ")); return; }
    }
    c.hit(!cls.is_empty(), || log.join("; "));
    // the ports stay in use for a minute after the server has closed its connections
    tokio::time::sleep(Duration::from_millis(150)).await;
}
