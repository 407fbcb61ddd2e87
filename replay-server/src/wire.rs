//! Clients on the loopback network that speak the protocol from its own description.
use crate::spec::*;
use std::net::SocketAddr;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::time::timeout;

pub const PATIENCE: Duration = Duration::from_secs(12);
#[derive(Debug, PartialEq, Clone)]
pub enum Got { Pk(Pk), Closed, Nothing, Garbage(String) }
pub struct Cl { pub id: String, s: TcpStream, raw: Vec<u8>, plain: Vec<u8>, noise: Option<Box<snow::TransportState>> }

extern "C" { fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32; }
/// acknowledge at once: the server holds back a second small segment until the first one is acknowledged
fn quick(s: &TcpStream) { use std::os::fd::AsRawFd; let one = 1i32; unsafe { setsockopt(s.as_raw_fd(), 6, 12, &one, 4); } }
fn nodelay(s: TcpStream) -> TcpStream { let _ = s.set_nodelay(true); quick(&s); s }
impl Cl {
    pub async fn plain(a: SocketAddr) -> Option<Cl> {
        let s = TcpStream::connect(a).await.ok()?;
        Some(Cl { id: String::new(), s: nodelay(s), raw: vec![], plain: vec![], noise: None })
    }
    pub async fn noise(a: SocketAddr, server_public: &[u8]) -> Option<Cl> {
        let s = TcpStream::connect(a).await.ok()?;
        let mut c = Cl { id: String::new(), s: nodelay(s), raw: vec![], plain: vec![], noise: None };
        let mine = snow::Builder::new("Noise_XK_25519_ChaChaPoly_BLAKE2s".parse().unwrap()).generate_keypair().unwrap();
        let mut h = snow::Builder::new("Noise_XK_25519_ChaChaPoly_BLAKE2s".parse().unwrap()).local_private_key(&mine.private).remote_public_key(server_public).build_initiator().unwrap();
        let mut b = [0u8; 500];
        let n = h.write_message(&[], &mut b).ok()?;
        c.frame(&b[..n]).await?;
        let f = c.next_frame(PATIENCE).await.ok()?;
        h.read_message(&f, &mut b).ok()?;
        let n = h.write_message(&[], &mut b).ok()?;
        c.frame(&b[..n]).await?;
        c.noise = Some(Box::new(h.into_transport_mode().ok()?));
        Some(c)
    }
    async fn frame(&mut self, p: &[u8]) -> Option<()> {
        let mut v = (p.len() as u32).to_be_bytes().to_vec();
        v.extend_from_slice(p);
        self.s.write_all(&v).await.ok()
    }
    async fn fill(&mut self, t: Duration) -> Result<(), Got> {
        let mut b = [0u8; 65536];
        quick(&self.s);
        match timeout(t, self.s.read(&mut b)).await {
            Err(_) => Err(Got::Nothing),
            Ok(Err(_)) | Ok(Ok(0)) => Err(Got::Closed),
            Ok(Ok(n)) => { self.raw.extend_from_slice(&b[..n]); Ok(()) }
        }
    }
    async fn next_frame(&mut self, t: Duration) -> Result<Vec<u8>, Got> {
        loop {
            if self.raw.len() >= 4 {
                let n = u32::from_be_bytes([self.raw[0], self.raw[1], self.raw[2], self.raw[3]]) as usize;
                if self.raw.len() >= 4 + n { let f = self.raw[4..4 + n].to_vec(); self.raw.drain(..4 + n); return Ok(f); }
            }
            self.fill(t).await?;
        }
    }
    /// raw bytes: on an encrypted connection as one message
    pub async fn bytes(&mut self, p: &[u8]) -> bool {
        if let Some(n) = &mut self.noise {
            let mut b = vec![0; p.len() + 100];
            let Ok(k) = n.write_message(p, &mut b) else { return false };
            self.frame(&b[..k]).await.is_some()
        } else { self.s.write_all(p).await.is_ok() }
    }
    /// an encrypted message with one byte changed on the way
    pub async fn forged(&mut self, p: &[u8], at: usize) -> bool {
        let Some(n) = &mut self.noise else { return false };
        let mut b = vec![0; p.len() + 100];
        let Ok(k) = n.write_message(p, &mut b) else { return false };
        b[at % k] ^= 0x40;
        self.frame(&b[..k]).await.is_some()
    }
    pub async fn send(&mut self, p: &Pk) -> bool { let e = enc(p); self.bytes(&e).await }
    pub async fn eof(&mut self) { let _ = self.s.shutdown().await; }
    pub async fn recv(&mut self, t: Duration) -> Got {
        loop {
            match dec(&self.plain) {
                Dec::Ok(p, n) => { self.plain.drain(..n); return Got::Pk(p); }
                Dec::Bad(w) => return Got::Garbage(format!("{w:?} in {:02x?}", &self.plain[..self.plain.len().min(60)])),
                Dec::More => (),
            }
            if self.noise.is_some() {
                let f = match self.next_frame(t).await { Ok(f) => f, Err(g) => return g };
                let mut b = vec![0; f.len()];
                match self.noise.as_mut().unwrap().read_message(&f, &mut b) { Ok(k) => self.plain.extend_from_slice(&b[..k]), Err(e) => return Got::Garbage(format!("decryption: {e:?}")) }
            } else {
                if let Err(g) = self.fill(t).await { return g; }
                let r = std::mem::take(&mut self.raw);
                self.plain.extend(r);
            }
        }
    }
    pub fn left_over(&self) -> &[u8] { &self.plain }
    /// the handshake; true when accepted
    pub async fn hello(&mut self, id: &str) -> bool {
        self.id = id.into();
        self.send(&Pk::Connect { flags: 2, ka: 0, props: vec![], id: id.into(), will: None, user: None, pass: None }).await
            && matches!(self.recv(PATIENCE).await, Got::Pk(Pk::ConnAck { rc: 0, .. }))
    }
    /// everything that was queued to this client before its next request was answered
    pub async fn drain(&mut self, marker: u16) -> (Vec<Pk>, Got) {
        let mut v = vec![];
        if !self.send(&Pk::Subscribe { id: marker, props: vec![], topics: vec![("\u{1F6A7}".into(), 1)] }).await { return (v, Got::Closed); }
        loop {
            match self.recv(PATIENCE).await {
                Got::Pk(p @ Pk::Rcs { ty: 9, .. }) if matches!(&p, Pk::Rcs { id, .. } if *id == marker) => return (v, Got::Pk(p)),
                Got::Pk(p) => v.push(p),
                g => return (v, g),
            }
        }
    }
}
