//! The wire format as an executable specification, written against the MQTT 5 standard (with the
//! property table of the code under test: every property but the user property once, the user
//! property a single string) and sharing no code with /repo.  It mirrors the `Wire` specifications
//! that the contracts use.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    Bool(u8),
    Byte(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(String),
    Pair(String, String),
    Data(Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Bool, Byte, U16, U32, Var, Str, Data }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Owner { Auth, ConnAck, Connect, Disconnect, PubAck, PubComp, Publish, PubRec, PubRel, SubAck, Subscribe, UnsubAck, Unsubscribe, Will }
use Owner::*;

/// 2.2.2.2: identifier, type, packets that may carry it
pub const TABLE: [(u32, Kind, &[Owner]); 27] = [
    (0x01, Kind::Byte, &[Publish, Will]),
    (0x02, Kind::U32, &[Publish, Will]),
    (0x03, Kind::Str, &[Publish, Will]),
    (0x08, Kind::Str, &[Publish, Will]),
    (0x09, Kind::Data, &[Publish, Will]),
    (0x0b, Kind::Var, &[Publish, Subscribe]),
    (0x11, Kind::U32, &[Connect, ConnAck, Disconnect]),
    (0x12, Kind::Str, &[ConnAck]),
    (0x13, Kind::U16, &[ConnAck]),
    (0x15, Kind::Str, &[Connect, ConnAck, Auth]),
    (0x16, Kind::Data, &[Connect, ConnAck, Auth]),
    (0x17, Kind::Bool, &[Connect]),
    (0x18, Kind::U32, &[Will]),
    (0x19, Kind::Bool, &[Connect]),
    (0x1a, Kind::Str, &[ConnAck]),
    (0x1c, Kind::Str, &[ConnAck, Disconnect]),
    (0x1f, Kind::Str, &[ConnAck, PubAck, PubRec, PubRel, PubComp, SubAck, UnsubAck, Disconnect, Auth]),
    (0x21, Kind::U16, &[Connect, ConnAck]),
    (0x22, Kind::U16, &[Connect, ConnAck]),
    (0x23, Kind::U16, &[Publish]),
    (0x24, Kind::Byte, &[ConnAck]),
    (0x25, Kind::Byte, &[ConnAck]),
    (0x26, Kind::Str, &[Connect, ConnAck, Publish, Will, PubAck, PubRec, PubRel, PubComp, Subscribe, SubAck, Unsubscribe, UnsubAck, Disconnect, Auth]),
    (0x27, Kind::U32, &[Connect, ConnAck]),
    (0x28, Kind::Bool, &[ConnAck]),
    (0x29, Kind::Bool, &[ConnAck]),
    (0x2a, Kind::Bool, &[ConnAck]),
];
pub fn prop(id: u32) -> Option<(Kind, &'static [Owner])> { TABLE.iter().find(|t| t.0 == id).map(|t| (t.1, t.2)) }
pub type Props = Vec<(u32, Val)>;

pub const CONNACK_RC: &[u8] = &[0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f];
pub const PUBACK_RC: &[u8] = &[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
pub const PUBREL_RC: &[u8] = &[0, 0x92];
pub const SUBACK_RC: &[u8] = &[0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2];
pub const UNSUBACK_RC: &[u8] = &[0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91];
pub const AUTH_RC: &[u8] = &[0, 0x18, 0x19];
pub const DISCONNECT_RC: &[u8] = &[
    0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
];

#[derive(Clone, Debug, PartialEq)]
pub struct WillP { pub props: Props, pub topic: String, pub payload: Vec<u8> }
#[derive(Clone, Debug, PartialEq)]
pub enum Pk {
    Connect { flags: u8, ka: u16, props: Props, id: String, will: Option<WillP>, user: Option<String>, pass: Option<Vec<u8>> },
    ConnAck { flags: u8, rc: u8, props: Props },
    Publish { flags: u8, topic: String, id: Option<u16>, props: Props, payload: Vec<u8> },
    /// 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack { ty: u8, id: u16, rc: u8, props: Props },
    Subscribe { id: u16, props: Props, topics: Vec<(String, u8)> },
    Unsubscribe { id: u16, props: Props, topics: Vec<String> },
    /// 9 SUBACK, 11 UNSUBACK
    Rcs { ty: u8, id: u16, props: Props, rcs: Vec<u8> },
    PingReq,
    PingRes,
    Disconnect { rc: u8, props: Props },
    Auth { rc: u8, props: Props },
}
impl Pk {
    pub fn ty(&self) -> u8 {
        match self {
            Pk::Connect { .. } => 1, Pk::ConnAck { .. } => 2, Pk::Publish { .. } => 3, Pk::Ack { ty, .. } => *ty, Pk::Subscribe { .. } => 8, Pk::Rcs { ty, .. } => *ty,
            Pk::Unsubscribe { .. } => 10, Pk::PingReq => 12, Pk::PingRes => 13, Pk::Disconnect { .. } => 14, Pk::Auth { .. } => 15,
        }
    }
    pub fn props_mut(&mut self) -> Option<&mut Props> {
        match self {
            Pk::Connect { props, .. } | Pk::ConnAck { props, .. } | Pk::Publish { props, .. } | Pk::Ack { props, .. } | Pk::Subscribe { props, .. } | Pk::Unsubscribe { props, .. }
            | Pk::Rcs { props, .. } | Pk::Disconnect { props, .. } | Pk::Auth { props, .. } => Some(props),
            _ => None,
        }
    }
    /// properties in a canonical order: the order between different identifiers carries no meaning
    pub fn canon(mut self) -> Pk {
        if let Pk::Connect { will: Some(w), .. } = &mut self { w.props.sort_by_key(|p| p.0); }
        if let Some(p) = self.props_mut() { p.sort_by_key(|p| p.0); }
        self
    }
}
pub fn ty_owner(t: u8) -> Owner {
    match t { 1 => Connect, 2 => ConnAck, 3 => Publish, 4 => PubAck, 5 => PubRec, 6 => PubRel, 7 => PubComp, 8 => Subscribe, 9 => SubAck, 10 => Unsubscribe, 11 => UnsubAck, 14 => Disconnect, _ => Auth }
}
pub fn rc_of(t: u8) -> &'static [u8] {
    match t { 2 => CONNACK_RC, 4 | 5 => PUBACK_RC, 6 | 7 => PUBREL_RC, 9 => SUBACK_RC, 11 => UNSUBACK_RC, 14 => DISCONNECT_RC, _ => AUTH_RC }
}

pub fn ctrl(c: char) -> bool { (c as u32) < 0x20 || (0x7f..=0x9f).contains(&(c as u32)) }
pub fn str_ok(s: &str) -> bool { s.len() <= 65535 && !s.chars().any(ctrl) }
pub fn filter_ok(s: &str) -> bool {
    let lv: Vec<&str> = s.split('/').collect();
    str_ok(s) && lv.iter().enumerate().all(|(i, l)| (!l.contains('#') || (*l == "#" && i + 1 == lv.len())) && (!l.contains('+') || *l == "+"))
}
pub fn topic_ok(s: &str) -> bool { str_ok(s) && !s.contains('#') && !s.contains('+') }
pub fn cf_ok(f: u8) -> bool { f & 1 == 0 && f & 0x18 != 0x18 && (f & 0x38 == 0 || f & 4 != 0) }
pub fn so_ok(o: u8) -> bool { o < 64 && o & 3 != 3 && o & 0x30 != 0x30 }

// ------------------------------------------------------------------------------------------ encode
pub fn vbi(mut n: usize, o: &mut Vec<u8>) {
    loop {
        let d = (n % 128) as u8;
        n /= 128;
        if n == 0 { o.push(d); break; }
        o.push(d | 0x80);
    }
}
pub fn estr(s: &str, o: &mut Vec<u8>) { ebin(s.as_bytes(), o) }
pub fn ebin(s: &[u8], o: &mut Vec<u8>) { o.extend_from_slice(&(s.len() as u16).to_be_bytes()); o.extend_from_slice(s); }
pub fn eval(v: &Val, o: &mut Vec<u8>) {
    match v {
        Val::Bool(b) | Val::Byte(b) => o.push(*b),
        Val::U16(n) => o.extend_from_slice(&n.to_be_bytes()),
        Val::U32(n) => o.extend_from_slice(&n.to_be_bytes()),
        Val::Var(n) => vbi(*n as usize, o),
        Val::Str(s) => estr(s, o),
        Val::Pair(a, b) => { estr(a, o); estr(b, o) }
        Val::Data(d) => ebin(d, o),
    }
}
pub fn eprops_raw(p: &Props) -> Vec<u8> { let mut v = vec![]; for (k, x) in p { vbi(*k as usize, &mut v); eval(x, &mut v); } v }
pub fn eprops(p: &Props, o: &mut Vec<u8>) { let v = eprops_raw(p); vbi(v.len(), o); o.extend(v); }
pub fn body(p: &Pk) -> Vec<u8> {
    let mut o = vec![];
    match p {
        Pk::Connect { flags, ka, props, id, will, user, pass } => {
            estr("MQTT", &mut o);
            o.push(5);
            o.push(*flags);
            o.extend_from_slice(&ka.to_be_bytes());
            eprops(props, &mut o);
            estr(id, &mut o);
            if let Some(w) = will { eprops(&w.props, &mut o); estr(&w.topic, &mut o); ebin(&w.payload, &mut o); }
            if let Some(u) = user { estr(u, &mut o); }
            if let Some(u) = pass { ebin(u, &mut o); }
        }
        Pk::ConnAck { flags, rc, props } => { o.push(*flags); o.push(*rc); eprops(props, &mut o); }
        Pk::Publish { topic, id, props, payload, .. } => {
            estr(topic, &mut o);
            if let Some(i) = id { o.extend_from_slice(&i.to_be_bytes()); }
            eprops(props, &mut o);
            o.extend_from_slice(payload);
        }
        Pk::Ack { id, rc, props, .. } => { o.extend_from_slice(&id.to_be_bytes()); o.push(*rc); eprops(props, &mut o); }
        Pk::Subscribe { id, props, topics } => { o.extend_from_slice(&id.to_be_bytes()); eprops(props, &mut o); for (t, f) in topics { estr(t, &mut o); o.push(*f); } }
        Pk::Unsubscribe { id, props, topics } => { o.extend_from_slice(&id.to_be_bytes()); eprops(props, &mut o); for t in topics { estr(t, &mut o); } }
        Pk::Rcs { id, props, rcs, .. } => { o.extend_from_slice(&id.to_be_bytes()); eprops(props, &mut o); o.extend_from_slice(rcs); }
        Pk::PingReq | Pk::PingRes => (),
        Pk::Disconnect { rc, props } | Pk::Auth { rc, props } => { o.push(*rc); eprops(props, &mut o); }
    }
    o
}
pub fn byte1(p: &Pk) -> u8 { p.ty() << 4 | match p { Pk::Publish { flags, .. } => *flags, _ => fixed_flags(p.ty()) } }
pub fn fixed_flags(t: u8) -> u8 { if t == 6 || t == 8 || t == 10 { 2 } else { 0 } }
pub fn frame(b1: u8, body: &[u8]) -> Vec<u8> { let mut o = vec![b1]; vbi(body.len(), &mut o); o.extend_from_slice(body); o }
pub fn enc(p: &Pk) -> Vec<u8> { frame(byte1(p), &body(p)) }

// ------------------------------------------------------------------------------------------ decode
/// what is wrong with a complete frame
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why { Type, Length, Truncated, Trailing, Utf8, Str, Topic, Flags, Reason, Prop, Name, Empty }
type R<T> = Result<T, Why>;
pub struct Rd<'a> { pub s: &'a [u8] }
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> { if self.s.len() < n { return Err(Why::Truncated); } let (a, b) = self.s.split_at(n); self.s = b; Ok(a) }
    pub fn u8(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
    pub fn u16(&mut self) -> R<u16> { let t = self.take(2)?; Ok((t[0] as u16) << 8 | t[1] as u16) }
    pub fn u32(&mut self) -> R<u32> { Ok((self.u16()? as u32) << 16 | self.u16()? as u32) }
    pub fn vbi(&mut self) -> R<u32> {
        let mut v = 0u32;
        for k in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * k);
            if b < 128 { return if b == 0 && k > 0 { Err(Why::Length) } else { Ok(v) }; }
        }
        Err(Why::Length)
    }
    pub fn bin(&mut self) -> R<Vec<u8>> { let n = self.u16()? as usize; Ok(self.take(n)?.to_vec()) }
    pub fn str(&mut self) -> R<String> {
        let b = self.bin()?;
        let s = String::from_utf8(b).map_err(|_| Why::Utf8)?;
        if str_ok(&s) { Ok(s) } else { Err(Why::Str) }
    }
    pub fn filter(&mut self) -> R<String> { let s = self.str()?; if filter_ok(&s) { Ok(s) } else { Err(Why::Topic) } }
    pub fn props(&mut self, o: Owner) -> R<Props> {
        let n = self.vbi()? as usize;
        let mut r = Rd { s: self.take(n)? };
        let mut v: Props = vec![];
        while !r.s.is_empty() {
            let id = r.vbi()?;
            let (k, ow) = prop(id).ok_or(Why::Prop)?;
            let x = match k {
                Kind::Bool => Val::Bool(r.u8()?), Kind::Byte => Val::Byte(r.u8()?), Kind::U16 => Val::U16(r.u16()?), Kind::U32 => Val::U32(r.u32()?), Kind::Var => Val::Var(r.vbi()?),
                Kind::Str => Val::Str(r.str()?), Kind::Data => Val::Data(r.bin()?),
            };
            if !ow.contains(&o) || (id != 0x26 && v.iter().any(|p| p.0 == id)) { return Err(Why::Prop); }
            v.push((id, x));
        }
        Ok(v)
    }
}
pub enum Dec { More, Bad(Why), Ok(Pk, usize) }
/// the length of the frame `s` starts with: None when the header is incomplete
pub fn header(s: &[u8]) -> Result<Option<(usize, usize)>, Why> {
    if s.is_empty() { return Ok(None); }
    let (t, f) = (s[0] >> 4, s[0] & 15);
    if t == 0 || (t == 3 && f & 6 == 6 && false) || (t != 3 && f != fixed_flags(t)) { return Err(Why::Type); }
    let mut r = Rd { s: &s[1..] };
    match r.vbi() {
        Ok(n) => Ok(Some((s.len() - r.s.len(), n as usize))),
        Err(Why::Truncated) => Ok(None),
        Err(e) => Err(e),
    }
}
pub fn dec(s: &[u8]) -> Dec {
    match header(s) {
        Ok(None) => Dec::More,
        Err(e) => Dec::Bad(e),
        Ok(Some((h, n))) => if s.len() < h + n { Dec::More } else { match dec_body(s[0], &s[h..h + n]) { Ok(p) => Dec::Ok(p, h + n), Err(e) => Dec::Bad(e) } },
    }
}
pub fn dec_body(b1: u8, b: &[u8]) -> R<Pk> {
    let mut r = Rd { s: b };
    let ty = b1 >> 4;
    let rc = |x: u8| if rc_of(ty).contains(&x) { Ok(x) } else { Err(Why::Reason) };
    let p = match ty {
        1 => {
            if r.str()? != "MQTT" || r.u8()? != 5 { return Err(Why::Name); }
            let flags = r.u8()?;
            if !cf_ok(flags) { return Err(Why::Flags); }
            let ka = r.u16()?;
            let props = r.props(Connect)?;
            let id = r.str()?;
            let will = if flags & 4 != 0 { Some(WillP { props: r.props(Will)?, topic: r.str()?, payload: r.bin()? }) } else { None };
            let user = if flags & 0x80 != 0 { Some(r.str()?) } else { None };
            let pass = if flags & 0x40 != 0 { Some(r.bin()?) } else { None };
            Pk::Connect { flags, ka, props, id, will, user, pass }
        }
        2 => { let flags = r.u8()?; if flags > 1 { return Err(Why::Flags); } Pk::ConnAck { flags, rc: rc(r.u8()?)?, props: r.props(ConnAck)? } }
        3 => {
            let flags = b1 & 15;
            if flags & 6 == 6 { return Err(Why::Flags); }
            let topic = r.str()?;
            if !topic_ok(&topic) { return Err(Why::Topic); }
            let id = if flags & 6 != 0 { Some(r.u16()?) } else { None };
            let props = r.props(Publish)?;
            let payload = r.take(r.s.len())?.to_vec();
            Pk::Publish { flags, topic, id, props, payload }
        }
        4 | 5 | 6 | 7 => Pk::Ack { ty, id: r.u16()?, rc: rc(r.u8()?)?, props: r.props(ty_owner(ty))? },
        8 => {
            let (id, props) = (r.u16()?, r.props(Subscribe)?);
            let mut topics = vec![];
            while !r.s.is_empty() { let t = r.filter()?; let f = r.u8()?; if !so_ok(f) { return Err(Why::Flags); } topics.push((t, f)); }
            if topics.is_empty() { return Err(Why::Empty); }
            Pk::Subscribe { id, props, topics }
        }
        9 | 11 => {
            let (id, props) = (r.u16()?, r.props(ty_owner(ty))?);
            let rcs = r.take(r.s.len())?.iter().map(|x| rc(*x)).collect::<R<Vec<u8>>>()?;
            if rcs.is_empty() { return Err(Why::Empty); }
            Pk::Rcs { ty, id, props, rcs }
        }
        10 => {
            let (id, props) = (r.u16()?, r.props(Unsubscribe)?);
            let mut topics = vec![];
            while !r.s.is_empty() { topics.push(r.filter()?); }
            if topics.is_empty() { return Err(Why::Empty); }
            Pk::Unsubscribe { id, props, topics }
        }
        12 => Pk::PingReq,
        13 => Pk::PingRes,
        14 => Pk::Disconnect { rc: rc(r.u8()?)?, props: r.props(Disconnect)? },
        15 => Pk::Auth { rc: rc(r.u8()?)?, props: r.props(Auth)? },
        _ => return Err(Why::Type),
    };
    if !r.s.is_empty() { return Err(Why::Trailing); }
    Ok(p)
}
