"""bugs in the server library; the demonstrations talk to a server on the loopback network"""
SERVER_HEAD = '''#![allow(unused)]
use apiformes_packet::prelude::*;
use apiformes_server_lib::{MqttServer, MqttServerConfig, Permeability};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::net::{SocketAddr, TcpListener};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::time::{sleep, timeout};
const NOISE: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
fn a(s: &str) -> Arc<str> { Arc::from(s) }
struct Srv { s: MqttServer, plain: SocketAddr, noise: SocketAddr, key: Vec<u8> }
async fn server(strict: bool, max: u32) -> Srv {
    let kp = snow::Builder::new(NOISE.parse().unwrap()).generate_keypair().unwrap();
    for _ in 0..20 {
        let port = || TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
        let (plain, noise) = (port(), port());
        let mut private_key = [0u8; 32];
        private_key.copy_from_slice(&kp.private);
        let cfg = MqttServerConfig { mqtt_socketaddr: Some(plain), keep_alive: 60, dispatcher_queue_size: 1 << 16, max_packet_size: max, noise_socketaddr: Some(noise), channel_permeability: if strict { Permeability::Strict } else { Permeability::Permissive }, private_key };
        if let Ok(s) = MqttServer::new(cfg).await { return Srv { s, plain, noise, key: kp.public }; }
    }
    panic!("no port");
}
impl Srv {
    async fn registered(&self, id: &str, want: bool) -> bool {
        for _ in 0..3000 {
            if self.s.clients().await.iter().any(|c| &**c == id) == want { return true; }
            sleep(Duration::from_millis(2)).await;
        }
        false
    }
    async fn plain(&self) -> Cl { Cl { s: TcpStream::connect(self.plain).await.unwrap(), raw: vec![], txt: vec![], n: None } }
    async fn noise(&self) -> Cl {
        let mut c = Cl { s: TcpStream::connect(self.noise).await.unwrap(), raw: vec![], txt: vec![], n: None };
        let me = snow::Builder::new(NOISE.parse().unwrap()).generate_keypair().unwrap();
        let mut h = snow::Builder::new(NOISE.parse().unwrap()).local_private_key(&me.private).remote_public_key(&self.key).build_initiator().unwrap();
        let mut b = [0u8; 500];
        let k = h.write_message(&[], &mut b).unwrap();
        c.frame(&b[..k]).await;
        let f = c.next_frame().await.unwrap();
        h.read_message(&f, &mut b).unwrap();
        let k = h.write_message(&[], &mut b).unwrap();
        c.frame(&b[..k]).await;
        c.n = Some(h.into_transport_mode().unwrap());
        c
    }
    /// a connection under this client identifier, once it is registered
    async fn client(&self, id: &str, noise: bool) -> Cl {
        let mut c = if noise { self.noise().await } else { self.plain().await };
        c.send(&connect(id).build()).await;
        match c.recv().await { Some(p @ Packet::ConnAck(_)) => assert!(code(&p) == 0), _ => panic!("not accepted") }
        assert!(self.registered(id, true).await);
        c
    }
}
fn connect(id: &str) -> Connect { let mut c = Connect::new(a(id)).unwrap(); c.set_clean_start(); c }
fn code(p: &Packet) -> u8 { let mut v = vec![]; p.to_bytes(&mut v); v[3] }
fn codes(p: &Packet) -> Vec<u8> { let mut v = vec![]; p.to_bytes(&mut v); match p { Packet::SubAck(s) => v[v.len() - s.reason_codes().len()..].to_vec(), _ => panic!("not a suback") } }
struct Cl { s: TcpStream, raw: Vec<u8>, txt: Vec<u8>, n: Option<snow::TransportState> }
impl Cl {
    async fn frame(&mut self, p: &[u8]) { let mut v = (p.len() as u32).to_be_bytes().to_vec(); v.extend_from_slice(p); let _ = self.s.write_all(&v).await; }
    async fn fill(&mut self) -> Option<()> {
        let mut b = [0u8; 65536];
        match timeout(Duration::from_secs(30), self.s.read(&mut b)).await { Ok(Ok(n)) if n > 0 => { self.raw.extend_from_slice(&b[..n]); Some(()) } _ => None }
    }
    async fn next_frame(&mut self) -> Option<Vec<u8>> {
        loop {
            if self.raw.len() >= 4 { let n = u32::from_be_bytes([self.raw[0], self.raw[1], self.raw[2], self.raw[3]]) as usize; if self.raw.len() >= 4 + n { let f = self.raw[4..4 + n].to_vec(); self.raw.drain(..4 + n); return Some(f); } }
            self.fill().await?;
        }
    }
    async fn bytes(&mut self, p: &[u8]) {
        if let Some(n) = &mut self.n { let mut b = vec![0; p.len() + 100]; let k = n.write_message(p, &mut b).unwrap(); let f = b[..k].to_vec(); self.frame(&f).await; } else { let _ = self.s.write_all(p).await; }
    }
    async fn send(&mut self, p: &Packet) { let mut v = vec![]; p.to_bytes(&mut v); self.bytes(&v).await; }
    /// the next packet; None when the connection is closed or silent for thirty seconds
    async fn recv(&mut self) -> Option<Packet> {
        loop {
            let mut b = &self.txt[..];
            if let Ok(p) = Packet::from_bytes(&mut b) { let k = self.txt.len() - b.len(); self.txt.drain(..k); return Some(p); }
            if self.n.is_some() { let f = self.next_frame().await?; let mut b = vec![0; f.len()]; let k = self.n.as_mut().unwrap().read_message(&f, &mut b).ok()?; self.txt.extend_from_slice(&b[..k]); }
            else { self.fill().await?; let r = std::mem::take(&mut self.raw); self.txt.extend(r); }
        }
    }
    /// subscribes, returns the reason codes; publishes received before are in `got`
    async fn subscribe(&mut self, id: u16, topics: &[(&str, u8)]) -> Vec<u8> {
        self.send(&sub(id, topics)).await;
        let p = self.recv().await.expect("no answer to a subscribe");
        match &p { Packet::SubAck(s) => assert_eq!(s.identifier(), id), _ => panic!("not the answer to a subscribe") }
        codes(&p)
    }
    /// payloads of the publishes received before the answer to this marker request
    async fn heard(&mut self) -> Vec<Vec<u8>> {
        self.send(&sub(60000, &[("marker", 0x20)])).await;
        let mut v = vec![];
        loop { match self.recv().await { Some(Packet::Publish(p)) => v.push(p.payload().to_vec()), Some(Packet::SubAck(s)) if s.identifier() == 60000 => return v, Some(_) => panic!("unexpected packet"), None => panic!("the connection is dead") } }
    }
    /// true when the server ends the connection
    async fn closed(&mut self) -> bool {
        loop { let mut b = [0u8; 4096]; match timeout(Duration::from_secs(5), self.s.read(&mut b)).await { Ok(Ok(0)) | Ok(Err(_)) => return true, Ok(Ok(_)) => (), Err(_) => return false } }
    }
    async fn publish(&mut self, t: &str, p: &[u8]) { self.send(&Publish::new(a(t), Bytes::copy_from_slice(p)).unwrap().build()).await; }
}
fn sub(id: u16, topics: &[(&str, u8)]) -> Packet {
    let mut s = Subscribe::new(id);
    for (t, o) in topics { s.add_topic(a(t), SubscriptionOptions::from_bits(*o).unwrap()).unwrap(); }
    s.build()
}
'''
S = "server-lib/src/"
MAIN = """#[tokio::main(flavor = "multi_thread", worker_threads = 4)]
async fn main() { demo().await; println!("as it should be"); std::process::exit(0) }
"""
def d(x): return x + MAIN
# two or more tasks on one table; each is let past a number of lock acquisitions at its first turns
RACE = """use std::{future::Future, pin::Pin, sync::Mutex, task::{Context, Poll}};
fn spend(l: &tokio::sync::RwLock<()>, cx: &mut Context<'_>) -> bool { let f = l.read(); tokio::pin!(f); f.as_mut().poll(cx).is_ready() }
struct Turns<F> { f: Pin<Box<F>>, turns: Vec<usize>, own: tokio::sync::RwLock<()>, budget: usize }
impl<F: Future> Future for Turns<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let me = &mut *self;
        // tokio lets a task acquire only so often before it has to give way: use up all but the wanted number
        if !me.turns.is_empty() { let k = me.turns.remove(0); for _ in k..me.budget { spend(&me.own, cx); } }
        me.f.as_mut().poll(cx)
    }
}
struct Budget(tokio::sync::RwLock<()>);
impl Future for Budget {
    type Output = usize;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> { Poll::Ready((0..10000).find(|_| !spend(&self.0, cx)).unwrap()) }
}
#[derive(Clone, Copy)]
enum Do { Sub(&'static str, &'static str), Unsub(&'static str, &'static str), All(&'static str) }
async fn call(s: &MqttServer, d: Do) {
    let t = s.get_topics();
    match d {
        Do::Sub(c, f) => t.subscribe(a(c), a(f), QoS::QoS1, std::iter::empty().collect()).await,
        Do::Unsub(c, f) => t.unsubscribe(a(c), f).await,
        Do::All(c) => t.unsubscribe_all(a(c)).await,
    }
}
/// `first` one after another, then each list of `tasks` in a task of its own, with its turns
fn race(first: Vec<Do>, tasks: Vec<(Vec<usize>, Vec<Do>)>, after: Vec<Do>, name: &'static str) -> Vec<String> {
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let s = Arc::new(server(false, 1000).await.s);
            let budget = tokio::spawn(Budget(Default::default())).await.unwrap();
            for d in first { call(&s, d).await; }
            let mut hs = vec![];
            for (turns, ds) in tasks {
                let s = s.clone();
                hs.push(tokio::spawn(Turns { f: Box::pin(async move { for d in ds { call(&s, d).await; } }), turns, own: Default::default(), budget }));
            }
            for h in hs { timeout(Duration::from_secs(10), h).await.expect("a call does not end").unwrap(); }
            for d in after { call(&s, d).await; }
            let mut v: Vec<String> = s.get_topics().get_all_subscribed(name).await.keys().map(|k| k.to_string()).collect();
            v.sort();
            v
        })
    }).join().unwrap()
}
"""
def dr(x): return RACE + d(x)
BUGS_SERVER = [

 dict(id="s01-empty-level-plus", property="C12", crate="server", edits=[(S + "topics.rs", 'if let Some(sub_block) = raii.sub_blocks.get("+") {', 'if let Some(sub_block) = raii.sub_blocks.get("+").filter(|_| !section.is_empty()) {')],
  needs="a topic name with an empty level that is not the first, and a filter with + at that level", breaks="+ no longer matches an empty level, so the lookup misses the subscriber",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let t = s.s.get_topics();
    t.subscribe(a("x"), a("a/+/c"), QoS::QoS0, std::iter::empty().collect()).await;
    assert_eq!(t.get_all_subscribed("a/b/c").await.len(), 1);
    assert_eq!(t.get_all_subscribed("a//c").await.len(), 1, "+ matches an empty level");
    assert_eq!(t.get_all_subscribed("a//d").await.len(), 0);
}
""")),
 dict(id="s02-parent-hash-qos", property="C12", crate="server", edits=[(S + "topics.rs", "        raii.collect_hash_wildcard(subs).await;\n        if let Some(section) = sections.next() {", "        let section = sections.next();\n        if section.is_some() || subs.is_empty() {\n            raii.collect_hash_wildcard(subs).await;\n        }\n        if let Some(section) = section {")],
  needs="a/# looked up with the topic a, while another filter has already matched", breaks="a final # no longer matches its parent level once any other subscription matched before",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let t = s.s.get_topics();
    let f = || std::iter::empty().collect();
    t.subscribe(a("x"), a("a/b/#"), QoS::QoS0, f()).await;
    assert_eq!(t.get_all_subscribed("a/b").await.len(), 1);
    t.subscribe(a("y"), a("a/#"), QoS::QoS0, f()).await;
    assert_eq!(t.get_all_subscribed("a/b").await.len(), 2, "a/b/# and a/# both match a/b");
}
""")),
 dict(id="s03-index-cleanup", property="C13", crate="server", edits=[(S + "topics.rs", "            cleanup = set.is_empty();", "            cleanup = set.len() <= 1;")],
  needs="two subscriptions of a client, one removed, then all removed", breaks="the subscription left over is no longer known to the reverse index, so removing all of the client keeps it",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let t = s.s.get_topics();
    let f = || std::iter::empty().collect();
    for n in ["a", "b/+"] { t.subscribe(a("x"), a(n), QoS::QoS0, f()).await; }
    t.unsubscribe(a("x"), "a").await;
    assert_eq!(t.get_all_subscribed("b/c").await.len(), 1);
    t.unsubscribe_all(a("x")).await;
    assert_eq!(t.get_all_subscribed("b/c").await.len(), 0, "all subscriptions of x are gone");
}
""")),
 dict(id="s04-unsubscribe-hash-too", property="C13", crate="server", edits=[(S + "topics.rs", "        self.subscribers.write().await.remove(&clientid);\n", "        let mut subs = self.subscribers.write().await;\n        if subs.remove(&clientid).is_some() && self.sub_blocks.is_empty() {\n            self.hash_wildcard.write().await.remove(&clientid);\n        }\n")],
  needs="a client subscribed to a and to a/#, with no deeper subscription, that unsubscribes from a", breaks="unsubscribing from a removes the subscription to a/# as well",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let t = s.s.get_topics();
    let f = || std::iter::empty().collect();
    for n in ["a", "a/#"] { t.subscribe(a("x"), a(n), QoS::QoS0, f()).await; }
    t.unsubscribe(a("x"), "a").await;
    assert_eq!(t.get_all_subscribed("a/b").await.len(), 1, "a/# is still subscribed");
}
""")),
 dict(id="s05-no-local-flags", property="C14", crate="server", edits=[(S + "dispatcher.rs", "info.flags.contains(SubscriptionFlags::NO_LOCAL)", "info.flags.intersects(\n                    SubscriptionFlags::NO_LOCAL | SubscriptionFlags::RETAIN_AS_PUBLISHED,\n                )")],
  needs="a sender subscribed with retain as published and without no local", breaks="the sender does not get its own message although it did not ask for that",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let mut x = s.client("x", false).await;
    for (i, o) in [0x20u8, 0x24, 0x28, 0x2c].iter().enumerate() {
        assert_eq!(x.subscribe(7, &[("t", *o)]).await, [0]);
        x.publish("t", &[i as u8]).await;
        assert_eq!(x.heard().await.len(), if o & 4 == 0 { 1 } else { 0 }, "options {o:#x}");
    }
}
""")),
 dict(id="s06-gone-stops-delivery", property="C14", crate="server", edits=[(S + "dispatcher.rs", "            if let Some(c) = clients.get(&target) {", "            let receiver = clients.get(&target);\n            if receiver.is_none() {\n                break;\n            }\n            if let Some(c) = receiver {")],
  needs="a subscriber that has disconnected, and other subscribers that come after it in the hash map", breaks="the subscribers after the one that is gone miss the message",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let mut p = s.client("p", false).await;
    let mut v = vec![];
    for i in 0..6 { let mut c = s.client(&format!("c{i}"), false).await; c.subscribe(1, &[("t", 0x20)]).await; v.push(c); }
    let mut g = s.client("g", false).await;
    for i in 0..6 {
        // every subscriber but one goes, so that the order of the hash map does not matter
        s.s.get_topics().subscribe(a(&format!("gone{i}")), a("t"), QoS::QoS0, std::iter::empty().collect()).await;
    }
    p.publish("t", b"m").await;
    p.heard().await;
    for c in &mut v { assert_eq!(c.heard().await.len(), 1); }
}
""")),
 dict(id="s07-strict-own-copy", property="C15", crate="server", edits=[(S + "dispatcher.rs", "if strict_encryption && !c.encrypted() {", "if strict_encryption && !c.encrypted() && target.as_ref() != client {")],
  needs="a client identifier taken over by a plain connection while messages its encrypted connection published are still queued", breaks="the plain connection is sent what was published over the encrypted one",
  demo=d("""async fn demo() {
    let s = server(true, 100000).await;
    // lookups of the first topic take long: many + blocks
    for i in 0..20000 { s.s.get_topics().subscribe(a(&format!("s{i}")), a("slow"), QoS::QoS0, std::iter::empty().collect()).await; }
    for _ in 0..3 {
        let mut x = s.client("x", true).await;
        x.subscribe(1, &[("t", 0x20)]).await;
        for _ in 0..100 { x.publish("slow", b"s").await; }
        x.publish("t", b"secret").await;
        sleep(Duration::from_millis(100)).await;
        let mut y = s.plain().await;
        y.send(&connect("x").build()).await;
        match y.recv().await { Some(p @ Packet::ConnAck(_)) => assert!(code(&p) == 0), _ => panic!() }
        
        assert!(!y.heard().await.contains(&b"secret".to_vec()), "a message published over noise went to a plain connection");
        drop(y);
        drop(x);
        assert!(s.registered("x", false).await);
    }
}
""")),
 dict(id="s08-retain-alone", property="C16", crate="server", edits=[(S + "dispatcher.rs", ".intersects(PublishFlags::DUP | PublishFlags::RETAIN)", ".contains(PublishFlags::DUP | PublishFlags::RETAIN)")],
  needs="a QoS 0 publish with only RETAIN", breaks="it is delivered instead of refused",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let mut x = s.client("x", false).await;
    let mut y = s.client("y", false).await;
    y.subscribe(1, &[("t", 0x20)]).await;
    let mut p = Publish::new(a("t"), Bytes::from_static(b"m")).unwrap();
    p.set_retain();
    x.send(&p.build()).await;
    assert!(matches!(x.recv().await, Some(Packet::Disconnect(_))));
    assert_eq!(y.heard().await.len(), 0);
}
""")),
 dict(id="s09-late-property", property="C16", crate="server", edits=[(S + "dispatcher.rs", "                Property::SubscriptionIdentifier => return self.unimplemented(client).await,\n                Property::ContentType", "                Property::SubscriptionIdentifier if response.props_iter().count() == 0 => {\n                    return self.unimplemented(client).await\n                }\n                Property::SubscriptionIdentifier => (),\n                Property::ContentType")],
  needs="a publish with a subscription identifier after another forwardable property", breaks="it is delivered instead of refused",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let mut y = s.client("y", false).await;
    y.subscribe(1, &[("t", 0x20)]).await;
    for i in 0..12 {
        // the order of the properties inside the server is that of a hash map
        let mut x = s.client(&format!("x{i}"), false).await;
        let mut p = Publish::new(a("t"), Bytes::from_static(b"m")).unwrap();
        p.add_prop(Property::ContentType, MqttPropValue::new_string(a("ct")).unwrap()).unwrap();
        p.add_prop(Property::ResponseTopic, MqttPropValue::new_string(a("rt")).unwrap()).unwrap();
        p.add_prop(Property::SubscriptionIdentifier, MqttPropValue::new_varint(3).unwrap()).unwrap();
        x.send(&p.build()).await;
        assert!(matches!(x.recv().await, Some(Packet::Disconnect(_))));
        assert_eq!(y.heard().await.len(), 0);
    }
}
""")),
 dict(id="s10-suback-order", property="C17", crate="server", edits=[(S + "dispatcher.rs", "            match (*options).try_into()? {\n                RetainHandling::DoNotSend => (),\n                _ => {\n                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);\n                    continue;\n                }\n            }\n", ""), (S + "dispatcher.rs", "            match qos {\n                QoS::QoS0 => suback", "            match (*options).try_into()? {\n                RetainHandling::DoNotSend => (),\n                _ => {\n                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);\n                    continue;\n                }\n            }\n            match qos {\n                QoS::QoS0 => suback")],
  needs="a subscribe that asks for retained messages", breaks="the filter is refused in the SUBACK, yet subscribed",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let mut x = s.client("x", false).await;
    for o in [0x00u8, 0x10, 0x01, 0x22, 0x04] { assert_eq!(x.subscribe(9, &[("t", o)]).await, [0x83]); x.publish("t", b"m").await; assert_eq!(x.heard().await.len(), 0, "options {o:#x}"); }
    assert_eq!(x.subscribe(10, &[("t", 0x20), ("u", 0x10), ("v/#", 0x2c), ("w", 0x21)]).await, [0, 0x83, 0, 0x83]);
}
""")),
 dict(id="s11-suback-flags-leak", property="C17", crate="server", edits=[(S + "dispatcher.rs", "        for (topic, options) in sub.topics_iter() {\n            let qos: QoS = (*options).try_into()?;\n            let mut flags = SubscriptionFlags::empty();\n", "        let mut flags = SubscriptionFlags::empty();\n        for (topic, options) in sub.topics_iter() {\n            let qos: QoS = (*options).try_into()?;\n")],
  needs="a subscribe with several filters, an earlier one with no local", breaks="the options of an earlier filter carry over to the later ones",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let mut x = s.client("x", false).await;
    assert_eq!(x.subscribe(9, &[("t", 0x24), ("u", 0x20)]).await, [0, 0]);
    x.publish("t", b"1").await;
    assert_eq!(x.heard().await.len(), 0);
    x.publish("u", b"2").await;
    assert_eq!(x.heard().await.len(), 1, "u was not subscribed with no local");
}
""")),
 dict(id="s12-auth-data-alone", property="C18", crate="server", edits=[(S + "clients/clientworker.rs", "                Property::AuthenticationData => {\n                    error!(\"Client attempted Authentication which is not supported\");\n                    return self.unimplemented().await;\n                }\n", "                Property::AuthenticationData => warn!(\"Client sent data for authentication\"),\n")],
  needs="a CONNECT with authentication data and no authentication method", breaks="the connection is accepted",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let mut x = s.plain().await;
    let mut c = connect("x");
    c.add_prop(Property::AuthenticationData, MqttPropValue::new_data(&b"12"[..]).unwrap()).unwrap();
    x.send(&c.build()).await;
    match x.recv().await { Some(p @ Packet::ConnAck(_)) => assert_eq!(code(&p), 0x83), _ => panic!("no answer") }
    assert!(x.closed().await);
    assert!(s.s.clients().await.is_empty());
}
""")),
 dict(id="s13-blank-identifier", property="C18", crate="server", edits=[(S + "clients/clientworker.rs", "        if clientid.is_empty() {", "        if clientid.trim().is_empty() {")],
  needs="a client identifier made of spaces only", breaks="the client is registered under another identifier than the one it asked for",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let mut x = s.plain().await;
    x.send(&connect("  ").build()).await;
    match x.recv().await { Some(Packet::ConnAck(k)) => assert!(k.get_prop(Property::AssignedClientIdentifier).is_none(), "an identifier was assigned although there was one"), _ => panic!("no answer") }
    assert!(s.registered("  ", true).await);
}
""")),
 dict(id="s14-read-limit", property="C19", crate="server", edits=[(S + "clients/mqttclient.rs", "                        .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);", "                        .set_limit(self.max_packet_size as u64);")],
  needs="packets that together exceed the maximum, with the reads cutting them inside one", breaks="more than the maximum gets buffered, a frame that is too long is accepted or waited for",
  demo=d("""async fn demo() {
    let max = 200;
    let s = server(false, max).await;
    let mut x = s.client("x", false).await;
    x.subscribe(1, &[("t", 0x20)]).await;
    let mut v = vec![];
    Publish::new(a("t"), Bytes::from(vec![0; max as usize])).unwrap().build().to_bytes(&mut v);
    // a frame that is too long, in two pieces
    x.bytes(&v[..max as usize - 50]).await;
    sleep(Duration::from_millis(300)).await;
    x.bytes(&v[max as usize - 50..]).await;
    assert!(x.closed().await, "a frame above the maximum ends the connection");
}
""")),
 dict(id="s15-buffer-cleared", property="C19", crate="server", edits=[(S + "clients/mqttclient.rs", "                    self.bytes.advance(packet.frame_len());\n", "                    let len = packet.frame_len();\n                    if self.bytes.remaining() == self.max_packet_size as usize {\n                        // a full buffer, start over with room for the next packet\n                        self.bytes.clear();\n                    } else {\n                        self.bytes.advance(len);\n                    }\n")],
  needs="as many bytes as the maximum buffered when a packet is complete", breaks="what follows the packet in the buffer is lost",
  demo=d("""async fn demo() {
    let s = server(false, 100).await;
    let mut x = s.client("x", false).await;
    x.subscribe(1, &[("t", 0x20)]).await;
    let mut v = vec![];
    for i in 0..50u8 { Publish::new(a("t"), Bytes::from(vec![i])).unwrap().build().to_bytes(&mut v); }
    x.bytes(&v).await;
    let h = x.heard().await;
    assert_eq!(h, (0..50u8).map(|i| vec![i]).collect::<Vec<_>>());
}
""")),
 dict(id="s16-taken-over-lives", property="C21", crate="server", edits=[(S + "clients/client.rs", "        self.killme.notify_one();", "        self.killme.notify_waiters();")],
  needs="a client identifier taken over while the task of the first connection has not yet started to wait", breaks="the notice is lost and the first connection stays open beside the second",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    for r in 0..300 {
        let id = format!("x{r}");
        // both connections are established at about the same time
        let (mut p, mut q) = (s.plain().await, s.plain().await);
        let (c, e) = (connect(&id).build(), connect(&id).build());
        tokio::join!(p.send(&c), q.send(&e));
        let (u, v) = tokio::join!(p.recv(), q.recv());
        assert!(u.is_some() && v.is_some());
        sleep(Duration::from_millis(3)).await;
        let (u, v) = tokio::join!(alive(&mut p), alive(&mut q));
        assert!(!(u && v), "two connections under one client identifier");
    }
}
async fn alive(c: &mut Cl) -> bool { let mut b = [0u8; 10]; !matches!(timeout(Duration::from_millis(200), c.s.read(&mut b)).await, Ok(Ok(0)) | Ok(Err(_))) }
""")),
 dict(id="s17-wake-waiters", property="C22", crate="server", edits=[(S + "lib.rs", "        self.shutdown.notify_one();", "        self.shutdown.notify_waiters();")],
  needs="a shutdown while some task is not waiting at that moment, for one because it has not run yet", breaks="the notice is lost to that task, and shutdown waits for it for ever",
  demo=d("""async fn demo() {
    // one thread: the tasks of the server have not begun when the shutdown is requested
    let t = std::thread::spawn(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async { for _ in 0..5 { let s = server(false, 1000).await; if timeout(Duration::from_secs(10), s.s.shutdown()).await.is_err() { return false; } } true })
    });
    assert!(tokio::task::spawn_blocking(move || t.join().unwrap()).await.unwrap(), "shutdown does not return");
}
""")),
 dict(id="s18-own-signal", property="C22", crate="server", edits=[(S + "clients/client.rs", "            clientid: Arc::from(\"\"), //TODO lazy static would be useful here as well\n            shutdown,\n            killme: Arc::new(Notify::new()),", "            clientid: Arc::from(\"\"), //TODO lazy static would be useful here as well\n            killme: shutdown,\n            shutdown: Arc::new(Notify::new()),")],
  needs="two established connections when the shutdown is requested", breaks="the first connection takes the notice and keeps it: the other one, and shutdown with it, go on for ever",
  demo=d("""async fn demo() {
    for noise in [false, true] {
        let s = server(false, 1000).await;
        let mut v = vec![];
        for i in 0..4 { v.push(s.client(&format!("x{i}"), noise).await); }
        assert!(timeout(Duration::from_secs(20), s.s.shutdown()).await.is_ok(), "shutdown does not return");
        for mut c in v { assert!(c.closed().await); }
    }
}
""")),
 dict(id="s19-noise-deaf", property="C22", crate="server", edits=[(S + "clients/noiseclient.rs", """        shutdown.clone(),
        incoming,
    );
    let state = tokio::select! {
        _ = shutdown.notified() => ConnectState::ShuttingDown,
        v = client.connect() => v.into(),
        _ = sleep(""", """        shutdown.clone(),
        incoming,
    );
    let state = tokio::select! {
        v = client.connect() => v.into(),
        _ = sleep(""")],
  needs="an encrypted connection that has made its Noise handshake and not sent its CONNECT when the shutdown is requested", breaks="its task does not hear of the shutdown: it goes on to accept the client",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    let mut x = s.noise().await;
    sleep(Duration::from_millis(200)).await;
    assert!(timeout(Duration::from_secs(20), s.s.shutdown()).await.is_ok(), "shutdown does not return");
    sleep(Duration::from_millis(500)).await;
    assert!(matches!(timeout(Duration::from_millis(2000), x.s.read(&mut [0u8; 10])).await, Ok(Ok(0)) | Ok(Err(_))), "a connection outlives the shutdown");
}
""")),
 dict(id="s20-noise-listener-apart", property="C22", crate="server", edits=[(S + "clients/mod.rs", """            let handle = ClientManager::incomming_noise_listener(
                &saddr,
                tx.clone(),
                shutdown.clone(),""", """            let handle = ClientManager::incomming_noise_listener(
                &saddr,
                tx.clone(),
                Arc::new(Notify::new()),""")],
  needs="a server with an encrypted listener", breaks="the encrypted listener and its connections never hear of the shutdown, which waits for them for ever",
  demo=d("""async fn demo() {
    let s = server(false, 1000).await;
    sleep(Duration::from_millis(200)).await;
    assert!(timeout(Duration::from_secs(20), s.s.shutdown()).await.is_ok(), "shutdown does not return");
}
""")),

 dict(id="s21-index-first", property="C20", crate="server", edits=[(S + "topics.rs", """        self.topics_add(clientid.clone(), &topic, qos, flags).await;
        self.reverse_index_add(clientid, topic).await;""", """        self.reverse_index_add(clientid.clone(), topic.clone()).await;
        self.topics_add(clientid, &topic, qos, flags).await;""")],
  needs="an unsubscribe-all of the client that runs between the two steps of its subscribe", breaks="the subscription stays in the tree without being listed: no later unsubscribe-all removes it",
  demo=dr("""async fn demo() {
    for j in 0..12 {
        let v = race(vec![], vec![(vec![j], vec![Do::Sub("x", "p/q")]), (vec![], vec![Do::All("x")])], vec![Do::All("x")], "p/q");
        assert!(v.is_empty(), "after an unsubscribe-all that ran alone, {v:?} is still subscribed ({j})");
    }
}
""")),
 dict(id="s22-tree-first", property="C20", crate="server", edits=[(S + "topics.rs", """        self.reverse_index_remove(&clientid, topic).await;
        self.topic_remove(clientid, topic).await;""", """        self.topic_remove(clientid.clone(), topic).await;
        self.reverse_index_remove(&clientid, topic).await;""")],
  needs="a subscribe of the same client to the same filter that runs between the two steps of the unsubscribe", breaks="the new subscription is struck from the index: no later unsubscribe-all removes it",
  demo=dr("""async fn demo() {
    for j in 0..12 {
        let v = race(vec![Do::Sub("x", "p/q")], vec![(vec![j], vec![Do::Unsub("x", "p/q")]), (vec![], vec![Do::Sub("x", "p/q")])], vec![Do::All("x")], "p/q");
        assert!(v.is_empty(), "after an unsubscribe-all that ran alone, {v:?} is still subscribed ({j})");
    }
}
""")),
 dict(id="s23-snapshot-insert", property="C20", crate="server", edits=[(S + "topics.rs", """        self.subscribers.write().await.insert(clientid, info);""", """        // most subscriptions only repeat what is there: no need to keep readers out for these
        let mut table = self.subscribers.read().await.clone();
        table.insert(clientid, info);
        *self.subscribers.write().await = table;""")],
  needs="two clients that subscribe to the same filter at the same time, one of them interrupted between its two acquisitions", breaks="the table is put back without what the other has inserted: that subscription is lost",
  demo=dr("""async fn demo() {
    for j in 0..14 {
        let v = race(vec![], vec![(vec![j], vec![Do::Sub("x", "p/q")]), (vec![], vec![Do::Sub("y", "p/q")])], vec![], "p/q");
        assert_eq!(v, ["x", "y"], "interrupted before acquisition {j}");
    }
}
""")),
 dict(id="s24-index-cleanup-late", property="C20", crate="server", edits=[(S + "topics.rs", """        let mut raii = self.reverse_index.write().await;
        let mut cleanup = false;
        if let Some(set) = raii.get_mut(clientid) {
            set.remove(topic);
            cleanup = set.is_empty();
        }
        if cleanup {
            raii.remove(clientid);
        }""", """        let mut cleanup = false;
        if let Some(set) = self.reverse_index.write().await.get_mut(clientid) {
            set.remove(topic);
            cleanup = set.is_empty();
        }
        if cleanup {
            self.reverse_index.write().await.remove(clientid);
        }""")],
  needs="a client that unsubscribes from its last filter while it subscribes to another, which is noted between the two acquisitions", breaks="the index forgets the new subscription: no later unsubscribe-all removes it",
  demo=dr("""async fn demo() {
    for j in 0..6 {
        for l in 0..14 {
            let v = race(vec![Do::Sub("x", "p")], vec![(vec![j], vec![Do::Unsub("x", "p")]), (vec![l], vec![Do::Sub("x", "q")])], vec![Do::All("x")], "q");
            assert!(v.is_empty(), "after an unsubscribe-all that ran alone, {v:?} is still subscribed ({j}, {l})");
        }
    }
}
""")),
 dict(id="s25-prune", property="C20", crate="server", edits=[(S + "topics.rs", """                let raii = self.read().await;
                if let Some(sub_block) = raii.sub_blocks.get(section) {
                    sub_block.visit(sections, create, run).await;
                }
""", """                let raii = self.read().await;
                let mut unused = false;
                if let Some(sub_block) = raii.sub_blocks.get(section) {
                    sub_block.visit(sections, create, run).await;
                    unused = !create && sub_block.read().await.is_unused().await;
                }
                drop(raii);
                if unused {
                    // nobody is left down there, do not keep the memory
                    self.write().await.sub_blocks.remove(section);
                }
"""), (S + "topics.rs", """    async fn insert_into_hash(&self,""", """    async fn is_unused(&self) -> bool {
        self.sub_blocks.is_empty()
            && self.hash_wildcard.read().await.is_empty()
            && self.subscribers.read().await.is_empty()
    }
    async fn insert_into_hash(&self,""")],
  needs="an unsubscribe of the last subscriber of a filter, interrupted after it found the block unused, while another client subscribes to the same filter", breaks="the block is removed together with the subscription made in the meantime",
  demo=dr("""async fn demo() {
    for j in 0..20 {
        for l in [0, 3, 4, 5, 6, 7, 100] {
            let v = race(vec![Do::Sub("x", "p/q")], vec![(vec![j], vec![Do::Unsub("x", "p/q")]), (vec![l], vec![Do::Sub("y", "p/q")])], vec![], "p/q");
            assert_eq!(v, ["y"], "interrupted before acquisitions {j}, {l}");
        }
    }
}
""")),
 dict(id="s26-remove-by-index", property="C20", crate="server", edits=[(S + "topics.rs", """        if let Some(topics) = self.reverse_index_remove_all(&clientid).await {
            for topic in topics {
                self.topic_remove(clientid.clone(), &topic).await
            }
        }""", """        let topics: Vec<SubTopic> = match self.reverse_index.read().await.get(&*clientid) {
            Some(topics) => topics.iter().cloned().collect(),
            None => return,
        };
        for topic in topics {
            self.topic_remove(clientid.clone(), &topic).await
        }
        self.reverse_index_remove_all(&clientid).await;""")],
  needs="a subscribe of the client that ends between the moments at which its unsubscribe-all reads the list and drops it", breaks="the new subscription stays in the tree and its entry in the index is dropped",
  demo=dr("""async fn demo() {
    for j in 0..14 {
        let v = race(vec![Do::Sub("x", "p/q")], vec![(vec![j], vec![Do::All("x")]), (vec![], vec![Do::Sub("x", "r")])], vec![Do::All("x")], "r");
        assert!(v.is_empty(), "after an unsubscribe-all that ran alone, {v:?} is still subscribed ({j})");
    }
}
""")),
]
