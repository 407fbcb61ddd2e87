//! Calls on one subscription table that run at the same time (C20). A task is let past a chosen number of
//! lock acquisitions each time it runs (tokio gives a task a budget; what it must not have is used up on a
//! lock of ours first), so the schedule is chosen, not hoped for.
use crate::gen::*;
use crate::stats::Case;
use crate::table::{config, matches, q, qn};
use apiformes_server_lib::MqttServer;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Sub(&'static str, String, u8, bool), Unsub(&'static str, String), All(&'static str), Look(String) }
/// a call with the moments of its beginning and its end, and what a lookup answered
#[derive(Clone, Debug)]
struct Ev { op: Op, b: u64, e: u64, got: BTreeMap<String, (u8, u8)> }
pub struct Plan { ops: Vec<Op>, steps: Vec<usize> }

/// one more acquisition from the budget of the running task
fn spend(l: &tokio::sync::RwLock<()>, cx: &mut Context<'_>) -> bool {
    let f = l.read();
    tokio::pin!(f);
    f.as_mut().poll(cx).is_ready()
}
struct Steps<F> { inner: Pin<Box<F>>, steps: Vec<usize>, at: usize, own: tokio::sync::RwLock<()>, budget: usize }
impl<F: Future> Future for Steps<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let me = &mut *self;
        if let Some(k) = me.steps.get(me.at).copied() {
            me.at += 1;
            for _ in k..me.budget { spend(&me.own, cx); }
        }
        me.inner.as_mut().poll(cx)
    }
}
struct Count(tokio::sync::RwLock<()>);
impl Future for Count {
    type Output = usize;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
        for k in 0..10000 { if !spend(&self.0, cx) { return Poll::Ready(k); } }
        Poll::Ready(0)
    }
}

async fn call(s: &MqttServer, clock: &AtomicU64, op: Op, out: &Mutex<Vec<Ev>>) {
    let t = s.get_topics();
    let b = clock.fetch_add(1, Ordering::SeqCst);
    let at = { let mut o = out.lock().unwrap(); o.push(Ev { op: op.clone(), b, e: u64::MAX, got: BTreeMap::new() }); o.len() - 1 };
    let mut got = BTreeMap::new();
    match op {
        Op::Sub(c, f, n, full) => {
            // the type of the flags has no public name
            let none = std::iter::empty().collect();
            if !full { t.subscribe(Arc::from(c), Arc::from(f.as_str()), q(n), none).await } else { t.subscribe(Arc::from(c), Arc::from(f.as_str()), q(n), !none).await }
        }
        Op::Unsub(c, f) => t.unsubscribe(Arc::from(c), &f).await,
        Op::All(c) => t.unsubscribe_all(Arc::from(c)).await,
        Op::Look(n) => got = t.get_all_subscribed(&n).await.iter().map(|(c, i)| (c.to_string(), (qn(i.qos), i.flags.bits()))).collect(),
    }
    let e = clock.fetch_add(1, Ordering::SeqCst);
    let mut o = out.lock().unwrap();
    o[at].e = e;
    o[at].got = got;
}
fn of(op: &Op, c: &str, f: &str) -> bool { match op { Op::Sub(x, y, ..) | Op::Unsub(x, y) => *x == c && y == f, Op::All(x) => *x == c, _ => false } }
fn removes(op: &Op) -> bool { matches!(op, Op::Unsub(..) | Op::All(..)) }
/// what may be seen of a subscription between two moments
fn allowed(h: &[Ev], c: &str, f: &str, lb: u64, le: u64) -> BTreeSet<Option<(u8, u8)>> {
    let mine: Vec<&Ev> = h.iter().filter(|v| of(&v.op, c, f)).collect();
    let mut o = BTreeSet::new();
    let mut must = false;
    for s in mine.iter() {
        let Op::Sub(_, _, n, full) = &s.op else { continue };
        if s.b >= le { continue; }
        // a later call that surely came between; an unsubscribe_all relies on the list, which another removal may hold
        let over = mine.iter().any(|v| v.b > s.e && v.e < lb && (!matches!(v.op, Op::All(_)) || !mine.iter().any(|w| !std::ptr::eq(*w, *v) && removes(&w.op) && w.b < v.e && v.b < w.e)));
        if !over { o.insert(Some((*n, if *full { 3 } else { 0 }))); }
        if s.e < lb && mine.iter().all(|v| !removes(&v.op) || v.e < s.b || v.b > le) { must = true; }
    }
    if !must { o.insert(None); }
    o
}
fn explained(h: &[Ev], v: &Ev) -> Result<(), String> {
    let Op::Look(name) = &v.op else { return Ok(()) };
    let pairs: BTreeSet<(&str, &str)> = h.iter().filter_map(|x| if let Op::Sub(c, f, ..) = &x.op { Some((*c, f.as_str())) } else { None }).collect();
    let who: BTreeSet<&str> = pairs.iter().map(|p| p.0).collect();
    for c in v.got.keys() { if !who.contains(c.as_str()) { return Err(format!("{c} never subscribed to anything")); } }
    for c in who {
        let sets: Vec<(&str, BTreeSet<Option<(u8, u8)>>)> = pairs.iter().filter(|p| p.0 == c && matches(p.1, name)).map(|p| (p.1, allowed(h, c, p.1, v.b, v.e))).collect();
        let ok = match v.got.get(c) {
            None => sets.iter().all(|s| s.1.contains(&None)),
            Some(x) => sets.iter().enumerate().any(|(i, s)| s.1.contains(&Some(*x)) && sets.iter().enumerate().all(|(j, t)| i == j || t.1.iter().any(|y| match y { None => true, Some(y) => y.0 <= x.0 }))),
        };
        if !ok { return Err(format!("for {c} the lookup of {name:?} gives {:?}; possible by its filters: {sets:?}", v.got.get(c))); }
    }
    Ok(())
}
fn show(before: &[Op], plans: &[(Vec<Op>, Vec<usize>)]) -> String {
    let mut s = if before.is_empty() { String::new() } else { format!("first {before:?}; ") };
    for (i, (o, k)) in plans.iter().enumerate() { s += &format!("task {i}: {o:?}, let past {k:?} lock acquisitions each time it runs, then freely; "); }
    s
}

/// runs the calls of `before` one after another, then those of the tasks at once, then looks
async fn play(c: &Case, before: Vec<Op>, plans: Vec<Plan>) -> bool {
    let s = Arc::new(MqttServer::new(config()).await.unwrap());
    let clock = Arc::new(AtomicU64::new(0));
    let out = Arc::new(Mutex::new(vec![]));
    let budget = tokio::spawn(Count(Default::default())).await.unwrap();
    let desc: Vec<(Vec<Op>, Vec<usize>)> = plans.iter().map(|p| (p.ops.clone(), p.steps.clone())).collect();
    let all: Vec<Op> = before.iter().cloned().chain(plans.iter().flat_map(|p| p.ops.clone())).collect();
    for op in &before { call(&s, &clock, op.clone(), &out).await; }
    let mut hs = vec![];
    for p in plans {
        let (s, clock, out) = (s.clone(), clock.clone(), out.clone());
        let inner = async move { for op in p.ops { call(&s, &clock, op, &out).await; } };
        hs.push(tokio::spawn(Steps { inner: Box::pin(inner), steps: p.steps, at: 0, own: Default::default(), budget }));
    }
    for h in hs {
        match tokio::time::timeout(Duration::from_secs(4), h).await {
            Ok(Ok(())) => (),
            Ok(Err(e)) => { c.fail("C20", &format!("a call panicked: {e}"), &show(&before, &desc)); return false; }
            Err(_) => { c.fail("C20", "calls that run at the same time do not come to an end", &show(&before, &desc)); return false; }
        }
    }
    // what is left
    let mut names: BTreeSet<String> = BTreeSet::new();
    for op in &all { if let Op::Sub(_, f, ..) = op { for l in ["a", "b"] { names.insert(f.split('/').map(|x| match x { "+" | "#" => l, x => x }).collect::<Vec<_>>().join("/")); } } }
    for n in &names { call(&s, &clock, Op::Look(n.clone()), &out).await; }
    let h: Vec<Ev> = out.lock().unwrap().clone();
    for v in &h {
        if let Err(e) = explained(&h, v) { c.fail("C20", &e, &show(&before, &desc)); return false; }
    }
    // what is left is listed
    let who: BTreeSet<&'static str> = all.iter().filter_map(|o| if let Op::Sub(c, ..) = o { Some(*c) } else { None }).collect();
    for w in who { call(&s, &clock, Op::All(w), &out).await; }
    for n in &names {
        let got = s.get_topics().get_all_subscribed(n).await;
        if !got.is_empty() { c.fail("C20", &format!("after every client unsubscribed from all, the lookup of {n:?} gives {:?}", got.keys().collect::<Vec<_>>()), &show(&before, &desc)); return false; }
    }
    c.hit(h.iter().any(|v| !v.got.is_empty()), || show(&before, &desc));
    true
}

const FILTERS: [&[&str]; 7] = [&["a", "b"], &["a", "a/b"], &["a/b", "a/b/a"], &["a/b", "a/#"], &["a/#", "a/b/#"], &["a/b/a", "a/+/a"], &["+/a", "#"]];
fn ops(c: &'static str, f: &[&str], z: u8) -> Vec<Op> {
    let n = |f: &str| f.replace(['+', '#'], "a");
    vec![Op::Sub(c, f[0].into(), z, false), Op::Sub(c, f[1].into(), 2 - z, true), Op::Unsub(c, f[0].into()), Op::Unsub(c, f[1].into()), Op::All(c), Op::Look(n(f[0])), Op::Look(n(f[1]))]
}
fn befores(f: &[&str]) -> Vec<Vec<Op>> {
    vec![vec![], vec![Op::Sub("c1", f[0].into(), 1, true)], vec![Op::Sub("c1", f[0].into(), 1, true), Op::Sub("c2", f[1].into(), 1, false), Op::Sub("c1", f[1].into(), 0, true)]]
}
/// every case of two calls, each interrupted at most once, before its n-th acquisition
pub const PAIRS: u64 = 7 * 3 * 7 * 7 * 2;
const ACQ: usize = 14;
pub async fn pairs(c: Case, i: u64) {
    if i >= PAIRS { return; }
    let mut k = i as usize;
    let mut take = |n: usize| { let x = k % n; k /= n; x };
    let (a, b, other, f) = (take(7), take(7), take(2), FILTERS[take(7)]);
    let before = befores(f)[take(3)].clone();
    let (x, y) = (ops("c1", f, 0)[a].clone(), ops(if other == 1 { "c2" } else { "c1" }, f, 1)[b].clone());
    for j in 0..ACQ {
        for l in (0..ACQ).step_by(if j % 3 == 0 { 1 } else { 5 }) {
            if !play(&c, before.clone(), vec![Plan { ops: vec![x.clone()], steps: vec![j] }, Plan { ops: vec![y.clone()], steps: vec![l] }]).await { return; }
        }
    }
}
/// several tasks with several calls each
pub async fn many(c: Case, mut r: Rng) {
    for _ in 0..20 {
        let f: Vec<String> = if r.chance(2) { r.pick(&FILTERS).iter().map(|x| x.to_string()).collect() } else {
            (0..1 + r.below(3)).map(|_| { let n = 1 + r.below(3); let mut v: Vec<&str> = (0..n).map(|_| r.pick(&["a", "a", "b", "+"])).collect(); if r.chance(3) { *v.last_mut().unwrap() = "#"; } v.join("/") }).collect()
        };
        let nc = 1 + r.below(3);
        let op = |r: &mut Rng| {
            let (c, f) = (["c1", "c2", "c3"][r.below(nc)], r.pick(&f));
            match r.below(10) { 0..=3 => Op::Sub(c, f, r.below(3) as u8, r.chance(2)), 4 | 5 => Op::Unsub(c, f), 6 => Op::All(c), _ => Op::Look(f.split('/').map(|l| match l { "+" | "#" => r.pick(&["a", "b"]), x => x }.to_string()).collect::<Vec<_>>().join("/")) }
        };
        let before = if r.chance(2) { vec![] } else { (0..1 + r.below(4)).map(|_| op(&mut r)).collect() };
        let nt = 2 + r.below(3);
        let plans = (0..nt).map(|_| {
            let ops = (0..1 + r.below(3)).map(|_| op(&mut r)).collect();
            let steps = (0..r.below(8)).map(|_| r.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 7, 100])).collect();
            Plan { ops, steps }
        }).collect();
        if !play(&c, before, plans).await { return; }
    }
}
