//! The subscription table against a list of subscriptions (C12, C13).
use crate::gen::*;
use crate::stats::Case;
use apiformes_packet::prelude::QoS;
use apiformes_server_lib::{MqttServer, MqttServerConfig, Permeability};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn config() -> MqttServerConfig {
    MqttServerConfig { mqtt_socketaddr: None, keep_alive: 60, dispatcher_queue_size: 1 << 16, max_packet_size: 1 << 16, noise_socketaddr: None, channel_permeability: Permeability::Permissive, private_key: [7; 32] }
}
/// 4.7: levels of a filter against levels of a name
pub fn matches(f: &str, t: &str) -> bool {
    fn go(f: &[&str], t: &[&str]) -> bool {
        match (f.first(), t.first()) {
            (Some(&"#"), _) => true,
            (None, None) => true,
            (Some(&"+"), Some(_)) => go(&f[1..], &t[1..]),
            (Some(a), Some(b)) => a == b && go(&f[1..], &t[1..]),
            _ => false,
        }
    }
    go(&f.split('/').collect::<Vec<_>>(), &t.split('/').collect::<Vec<_>>())
}
pub fn q(n: u8) -> QoS { match n { 0 => QoS::QoS0, 1 => QoS::QoS1, _ => QoS::QoS2 } }
pub fn qn(q: QoS) -> u8 { match q { QoS::QoS0 => 0, QoS::QoS1 => 1, QoS::QoS2 => 2 } }

/// (client, filter) -> (qos, flags)
pub type Model = BTreeMap<(String, String), (u8, u8)>;
/// what a lookup may answer: for each client the QoS and the possible flags
pub fn lookup(m: &Model, t: &str) -> BTreeMap<String, (u8, BTreeSet<u8>)> {
    let mut o: BTreeMap<String, (u8, BTreeSet<u8>)> = BTreeMap::new();
    for ((c, f), (qos, fl)) in m {
        if !matches(f, t) { continue; }
        match o.get_mut(c) {
            Some(x) if x.0 > *qos => (),
            Some(x) if x.0 == *qos => { x.1.insert(*fl); }
            _ => { o.insert(c.clone(), (*qos, [*fl].into())); }
        }
    }
    o
}
macro_rules! looked { ($srv:expr, $t:expr) => {
    $srv.get_topics().get_all_subscribed($t).await.iter().map(|(c, i)| (c.to_string(), (qn(i.qos), i.flags.bits()))).collect::<BTreeMap<String, (u8, u8)>>()
} }
pub(crate) use looked;
pub fn differs(want: &BTreeMap<String, (u8, BTreeSet<u8>)>, got: &BTreeMap<String, (u8, u8)>) -> bool {
    !(want.len() == got.len() && want.iter().all(|(c, (q, f))| got.get(c).map(|g| g.0 == *q && f.contains(&g.1)).unwrap_or(false)))
}

fn words(alpha: &[&str], n: usize) -> Vec<String> {
    let mut all: Vec<Vec<&str>> = vec![];
    let mut cur: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..n {
        cur = cur.iter().flat_map(|w| alpha.iter().map(move |a| { let mut w = w.clone(); w.push(*a); w })).collect();
        all.extend(cur.clone());
    }
    all.into_iter().map(|w| w.join("/")).filter(|w| !w.is_empty()).collect()
}
pub fn filters() -> Vec<String> { words(&["a", "b", "", "+", "#"], 3).into_iter().filter(|f| crate::spec::filter_ok(f)).collect() }
pub fn names() -> Vec<String> { words(&["a", "b", ""], 4) }
/// more than there are filters
pub const MATCH: u64 = 128;

pub async fn matching(c: Case, i: u64) {
    let fs = filters();
    let Some(f) = fs.get(i as usize) else { return };
    let srv = MqttServer::new(config()).await.unwrap();
    let t = srv.get_topics();
    let id: Arc<str> = Arc::from("c");
    t.subscribe(id.clone(), Arc::from(f.as_str()), q((i % 3) as u8), std::iter::empty().collect()).await;
    let m: Model = [(("c".to_string(), f.clone()), ((i % 3) as u8, 0u8))].into();
    for n in names() {
        let (want, got) = (lookup(&m, &n), looked!(srv, &n));
        if differs(&want, &got) { c.fail("C12", &format!("with only {f} subscribed, the lookup of {n:?} gives {got:?}, expected {want:?}"), &format!("subscribe {f:?}; lookup {n:?}")); }
        c.hit(!want.is_empty(), || format!("{f} / {n}"));
    }
    t.unsubscribe(id, f).await;
    for n in names() {
        let got = looked!(srv, &n);
        if !got.is_empty() { c.fail("C12 C13", &format!("after unsubscribing {f}, the lookup of {n:?} still gives {got:?}"), &format!("subscribe {f:?}; unsubscribe {f:?}; lookup {n:?}")); }
    }
}

fn gf(r: &mut Rng) -> String {
    loop {
        let f = if r.chance(8) { gfilter(r) } else {
            let n = 1 + r.below(4);
            let mut v: Vec<&str> = (0..n).map(|_| r.pick(&["a", "a", "b", "", "+"])).collect();
            if r.chance(3) { *v.last_mut().unwrap() = "#"; }
            v.join("/")
        };
        if !f.is_empty() { return f; }
    }
}
pub async fn history(c: Case, mut r: Rng) {
    let srv = MqttServer::new(config()).await.unwrap();
    let t = srv.get_topics();
    let mut pool: Vec<String> = (0..2 + r.below(6)).map(|_| gf(&mut r)).collect();
    let nc = 1 + r.below(3);
    let mut m = Model::new();
    let mut log: Vec<String> = vec![];
    let n = 1 + r.below(14);
    let mut last = false;
    for k in 0..n {
        let id = format!("c{}", r.below(nc));
        let cid: Arc<str> = Arc::from(id.as_str());
        let f = r.pick(&pool);
        match r.below(10) {
            0..=5 => {
                let qos = r.below(3) as u8;
                let full = r.chance(2);
                log.push(format!("subscribe({id}, {f:?}, QoS {qos}, {})", if full { "all flags" } else { "no flags" }));
                // the type of the flags has no public name
                let none = std::iter::empty().collect();
                if !full { t.subscribe(cid, Arc::from(f.as_str()), q(qos), none).await } else { t.subscribe(cid, Arc::from(f.as_str()), q(qos), !none).await }
                m.insert((id, f), (qos, if full { 3 } else { 0 }));
            }
            6..=8 => {
                log.push(format!("unsubscribe({id}, {f:?})"));
                t.unsubscribe(cid, &f).await;
                m.remove(&(id, f));
            }
            _ if k + 1 == n && r.chance(2) => {
                log.push(format!("reverse_index_remove_all({id})"));
                let got: BTreeSet<String> = t.reverse_index_remove_all(&id).await.map(|s| s.iter().map(|x| x.to_string()).collect()).unwrap_or_default();
                let want: BTreeSet<String> = m.keys().filter(|k| k.0 == id).map(|k| k.1.clone()).collect();
                if got != want { c.fail("C13", &format!("the index of {id} says {got:?}, subscribed are {want:?}"), &log.join("; ")); }
                last = true;
            }
            _ => {
                log.push(format!("unsubscribe_all({id})"));
                t.unsubscribe_all(cid).await;
                m.retain(|k, _| k.0 != id);
            }
        }
        if r.chance(6) { pool.push(gf(&mut r)); }
        for _ in 0..3 {
            // a name that one of the filters may match, or any
            let name = if r.chance(3) { gtopic(&mut r) } else { r.pick(&pool).split('/').map(|l| match l { "+" => r.pick(&["a", "b", "", "z"]), "#" => r.pick(&["a", "b", "a/b", ""]), x => x }.to_string()).collect::<Vec<_>>().join("/") };
            let name = if r.chance(8) { format!("{name}/a") } else { name };
            let name = match name.rsplit_once('/') { Some((h, _)) if r.chance(8) && !h.is_empty() => h.to_string(), _ => name };
            if name.is_empty() { continue; }
            let (want, got) = (lookup(&m, &name), looked!(srv, &name));
            if differs(&want, &got) {
                c.fail(if log.len() == 1 { "C12" } else { "C12 C13" }, &format!("the lookup of {name:?} gives {got:?}, expected {want:?}"), &format!("{}; lookup {name:?}", log.join("; ")));
                return;
            }
            c.hit(!want.is_empty(), || format!("{}; lookup {name:?} -> {got:?}", log.join("; ")));
        }
        if last { break; }
    }
}
