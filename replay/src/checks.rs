//! Runs the code under test against the executable specification and reports every difference.
use crate::gen::*;
use crate::real::*;
use crate::spec::{self, *};
use apiformes_packet::prelude::{self as ap, DataParseError, MqttPropValue, MqttTopic, Packet};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{atomic::Ordering, Mutex};
use std::time::{Duration, Instant};

pub static PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Stats { prop: String, case: String, input: String, evals: u64, nontrivial: u64, fams: std::collections::BTreeMap<String, u64>, samples: Vec<String>, failure: Option<(String, String, String, String)>, others: u64, other_samples: Vec<String>, exhausted: Vec<String> }
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn hex(b: &[u8]) -> String {
    let n = b.len().min(600);
    b[..n].iter().map(|x| format!("{x:02x}")).collect::<String>() + &if n < b.len() { format!("...({} bytes)", b.len()) } else { String::new() }
}
fn short(s: String) -> String { if s.chars().count() > 900 { s.chars().take(900).collect::<String>() + "..." } else { s } }
impl Stats {
    pub fn new(p: &str) -> Stats { Stats { prop: p.into(), case: String::new(), input: String::new(), evals: 0, nontrivial: 0, fams: Default::default(), samples: vec![], failure: None, others: 0, other_samples: vec![], exhausted: vec![] } }
    pub fn done(&self) -> bool { self.failure.is_some() }
    /// `labels`: the properties this difference breaks
    pub fn fail(&mut self, labels: &str, what: &str, input: &str) {
        let what = short(what.to_string());
        if labels.split(' ').any(|l| l == self.prop) {
            if self.failure.is_none() { self.failure = Some((self.case.clone(), what, short(input.to_string()), labels.to_string())); }
        } else {
            self.others += 1;
            if self.other_samples.len() < 3 { self.other_samples.push(format!("[{labels}] {} {what}", self.case)); }
        }
    }
    fn hit(&mut self, nontrivial: bool) { self.evals += 1; if nontrivial { self.nontrivial += 1; } *self.fams.entry(self.case.split(':').next().unwrap().to_string()).or_insert(0) += 1; }
    pub fn report(&self, out: &str, secs: f64, hang: bool) -> bool {
        let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
        let fams = self.fams.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
        let f = match &self.failure { Some((c, w, i, l)) => format!("{{\"case\": {}, \"what\": {}, \"input\": {}, \"breaks\": {}, \"hang\": {}}}", esc(c), esc(w), esc(i), esc(l), hang), None => "null".into() };
        let s = format!("{{\"property\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"families\": {{{}}}, \"exhausted\": [{}], \"samples\": [{}], \"seconds\": {:.2}, \"other_failures\": {}, \"other_samples\": [{}], \"failure\": {}}}\n",
            esc(&self.prop), self.evals, self.nontrivial, fams, list(&self.exhausted), list(&self.samples), secs, self.others, list(&self.other_samples), f);
        if out.is_empty() { print!("{s}"); } else { std::fs::write(out, &s).unwrap(); }
        self.failure.is_some()
    }
    fn begin(&mut self, input: impl FnOnce() -> String) {
        self.input = input();
        if let Ok(mut c) = crate::CURRENT.lock() { c.clear(); c.push_str(&self.case); c.push(' '); let n = self.input.len().min(2000); c.push_str(self.input.get(..n).unwrap_or("")); }
        // survives a crash of the process
        if let Ok(f) = crate::CURFILE.lock() { if let Some(f) = f.as_ref() {
            let mut b = [b' '; 400];
            let t = format!("{} {}", self.case, self.input.get(..300.min(self.input.len())).unwrap_or(""));
            let n = t.len().min(399);
            b[..n].copy_from_slice(&t.as_bytes()[..n]);
            b[399] = b'\n';
            let _ = std::os::unix::fs::FileExt::write_at(f, &b, 0);
        } }
        crate::BEAT.fetch_add(1, Ordering::SeqCst);
    }
    fn want(&self, l: &str) -> bool { l.split(' ').any(|l| l == self.prop) }
}
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.lock().map(|m| m.clone()).unwrap_or_default())
}

/// what a decode did
enum Out { Ok(Packet, usize), Err(DataParseError, usize), Panic(String) }
fn decode<B: Buf>(mut b: B) -> Out {
    let n = b.remaining();
    let r = quiet(|| { let r = Packet::from_bytes(&mut b); (r, n - b.remaining()) });
    match r { Ok((Ok(p), n)) => Out::Ok(p, n), Ok((Err(e), n)) => Out::Err(e, n), Err(m) => Out::Panic(m) }
}
fn has_wide_bool(p: &Pk) -> bool {
    let wide = |ps: &Props| ps.iter().any(|(_, v)| matches!(v, Val::Bool(b) if *b > 1));
    let mut q = p.clone();
    (if let Pk::Connect { will: Some(w), .. } = p { wide(&w.props) } else { false }) || q.props_mut().map(|x| wide(x)).unwrap_or(false)
}
fn insuff(e: &DataParseError) -> bool { matches!(e, DataParseError::InsufficientBuffer { .. }) }
fn odd_header(s: &[u8]) -> bool { matches!(spec::header(s), Err(_)) }

/// one byte sequence, through every way of reading it that matters for the property
fn bytes_case(st: &mut Stats, r: &mut Rng, s: &[u8]) {
    st.begin(|| hex(s));
    let want = spec::dec(s);
    st.hit(!matches!(want, Dec::More));
    if st.samples.len() < 12 && s.len() > 3 && s.len() < 60 && r.chance(200) { let h = hex(s); st.samples.push(h); }
    if let Dec::Ok(p, _) = &want { if has_wide_bool(p) { return; } }
    let case = st.input.clone();
    let got = decode(s);
    let limit = match spec::header(s) { Ok(Some((h, n))) => h.saturating_add(n), _ => s.len() };
    match (&want, &got) {
        (_, Out::Panic(m)) => { let l = if matches!(want, Dec::Ok(..)) { "C01 C02 C06" } else { "C01" }; st.fail(l, &format!("decoding panicked: {m}"), &case) }
        (Dec::Ok(..), Out::Err(e, _)) => {
            let l = match e { e if insuff(e) => "C02 C05 C06", DataParseError::BadTopic => "C02 C06 C09", _ => "C02 C06" };
            st.fail(l, &format!("a well-formed frame was refused: {e:?}"), &case)
        }
        (Dec::Bad(w), Out::Ok(..)) if odd_header(s) => st.fail("C06", &format!("malformed ({w:?}) but decoded"), &case),
        (Dec::Bad(w), Out::Ok(..)) => { let l = match w { Why::Topic => "C06 C09", Why::Trailing | Why::Truncated => "C04 C06", _ => "C06" }; st.fail(l, &format!("malformed ({w:?}) but decoded"), &case) }
        (Dec::More, Out::Ok(..)) => st.fail("C05 C06", "an incomplete frame decoded", &case),
        // with a header that can no longer become valid both answers are right
        (Dec::Bad(w), Out::Err(e, _)) if insuff(e) && !odd_header(s) => st.fail("C05", &format!("the frame is complete but malformed ({w:?}), yet the answer asks for more: {e:?}"), &case),
        (Dec::Bad(w), Out::Err(e, _)) if insuff(e) && s.len() >= 6 => st.fail("C05", &format!("the header is complete but malformed ({w:?}), yet the answer asks for more: {e:?}"), &case),
        (Dec::More, Out::Err(e, _)) if !insuff(e) && still_open(s) => st.fail("C05", &format!("the frame is incomplete, but the answer is {e:?}"), &case),
        _ => (),
    }
    if let Out::Err(_, n) | Out::Ok(_, n) = &got { if *n > limit { st.fail("C01 C04", &format!("{n} bytes were taken from the input, the frame has {limit}"), &case); } }
    if let Out::Ok(p, n) = &got {
        let h = spec::header(s).ok().flatten();
        if let Some((h, len)) = h { if *n != h + len { st.fail("C04", &format!("{n} bytes consumed, the frame has {}", h + len), &case); } }
        match quiet(|| p.frame_len()) { Ok(l) if l == *n => (), Ok(l) => st.fail("C03 C04", &format!("decoded packet says {l} bytes, the frame has {n}"), &case), Err(m) => st.fail("C03", &format!("frame_len panicked: {m}"), &case) }
        match quiet(|| observe(p)) {
            Err(m) => st.fail("C02 C06", &format!("reading the decoded packet panicked: {m}"), &case),
            Ok(o) => if let Dec::Ok(v, _) = &want {
                let (o, v) = (o.canon(), v.clone().canon());
                if o != v { st.fail("C02 C06", &format!("decoded {o:?}\nbut the bytes say {v:?}"), &case); }
                packet_case_inner(st, p, &v, &case, false);
            },
        }
    }
    // the same bytes in pieces
    if st.want("C10 C01") {
        for k in 0..3 {
            let cuts: Vec<usize> = match k { 0 => (1..s.len().min(3000)).collect(), 1 => { let n = r.below(4) + 1; let mut c: Vec<usize> = (0..n).map(|_| r.below(s.len() + 1)).collect(); c.sort(); c } _ => { let d = 2 + r.below(3); (1..s.len().min(9000)).filter(|i| i % d == 0).collect() } };
            let got2 = decode(Chunks::new(s, &cuts));
            compare(st, &got, &got2, &format!("cut at {:?}", &cuts[..cuts.len().min(20)]), &case);
        }
        let got2 = decode(Bytes::copy_from_slice(s));
        compare(st, &got, &got2, "as Bytes", &case);
        let m = if s.is_empty() { 0 } else { r.below(s.len() + 1) };
        let got2 = decode((&s[..m]).chain(&s[m..]));
        compare(st, &got, &got2, &format!("chained at {m}"), &case);
    }
    // bytes after the frame
    if st.want("C04") {
        if let Dec::Ok(_, n) = &want {
            let base = decode(&s[..*n]);
            let mut t = s[..*n].to_vec();
            t.extend((0..1 + r.below(40)).map(|_| r.byte()));
            let more = decode(&t[..]);
            let same = match (&base, &more) { (Out::Ok(a, x), Out::Ok(b, y)) => x == y && quiet(|| observe(a).canon() == observe(b).canon()).unwrap_or(false), (Out::Err(a, _), Out::Err(b, _)) => a == b, (Out::Panic(_), Out::Panic(_)) => true, _ => false };
            if !same { st.fail("C04", &format!("bytes after the frame change the result: with {} of them {}, without {}", t.len() - n, show(&more), show(&base)), &hex(&t)); }
        }
    }
}
/// an incomplete header or frame that some continuation makes well-formed, as far as the header goes
fn still_open(s: &[u8]) -> bool { !(s.len() >= 5 && spec::header(s).ok().flatten().is_none()) }
fn show(o: &Out) -> String { match o { Out::Ok(p, n) => format!("{:?} ({n} bytes)", quiet(|| observe(p)).ok()), Out::Err(e, n) => format!("{e:?} ({n} bytes)"), Out::Panic(m) => format!("panic {m}") } }
fn compare(st: &mut Stats, a: &Out, b: &Out, how: &str, case: &str) {
    match (a, b) {
        (Out::Ok(p, n), Out::Ok(q, m)) => {
            let same = quiet(|| observe(p).canon() == observe(q).canon()).unwrap_or(false);
            if n != m || !same { st.fail("C10", &format!("{how}: {} ; in one piece: {}", show(b), show(a)), case); }
        }
        (Out::Err(e, n), Out::Err(f, m)) => {
            if e != f && !(insuff(e) && insuff(f)) { st.fail("C10", &format!("{how}: {f:?}, in one piece: {e:?}"), case); }
            else if n != m { st.fail("C10", &format!("{how}: {m} bytes taken, in one piece: {n}, both refuse with {e:?}"), case); }
        }
        (Out::Panic(_), Out::Panic(_)) => (),
        (_, Out::Panic(m)) => st.fail("C01 C10", &format!("{how}: decoding panicked: {m}"), case),
        _ => st.fail("C10", &format!("{how}: {} ; in one piece: {}", show(b), show(a)), case),
    }
}
/// an output buffer made of small pieces
struct Seg { v: Vec<u8>, at: usize, piece: usize }
unsafe impl BufMut for Seg {
    fn remaining_mut(&self) -> usize { self.v.len() - self.at }
    unsafe fn advance_mut(&mut self, n: usize) { assert!(n <= self.v.len() - self.at, "advanced past the end of the output"); self.at += n; }
    fn chunk_mut(&mut self) -> &mut bytes::buf::UninitSlice {
        let end = self.v.len().min((self.at / self.piece + 1) * self.piece);
        let s = &mut self.v[self.at..end];
        unsafe { bytes::buf::UninitSlice::from_raw_parts_mut(s.as_mut_ptr(), s.len()) }
    }
}
/// encoding of a packet whose value is known
fn packet_case_inner(st: &mut Stats, p: &Packet, v: &Pk, case: &str, built: bool) {
    let want_len = spec::enc(v).len();
    let also = |l: &str| if built { format!("{l} C07") } else { l.to_string() };
    match quiet(|| p.frame_len()) {
        Ok(n) if n == want_len => (),
        Ok(n) => st.fail(&also("C03"), &format!("frame_len is {n}, the encoding of {v:?} has {want_len} bytes"), case),
        Err(m) => st.fail("C03", &format!("frame_len panicked: {m}"), case),
    }
    let mut out: Vec<u8> = vec![0xa5, 0x5a];
    if let Err(m) = quiet(|| p.to_bytes(&mut out)) { st.fail("C02 C03 C08", &format!("encoding panicked: {m}"), case); return; }
    if out.len() < 2 || out[..2] != [0xa5, 0x5a] { st.fail("C03", "encoding changed what was in the buffer", case); return; }
    let enc = out[2..].to_vec();
    if enc.len() != want_len || quiet(|| p.frame_len()).ok() != Some(enc.len()) { st.fail("C03", &format!("{} bytes written, frame_len says {:?}, right would be {want_len}: {}", enc.len(), quiet(|| p.frame_len()).ok(), hex(&enc)), case); }
    match spec::header(&enc) {
        Ok(Some((h, n))) if h + n == enc.len() => (),
        _ => st.fail("C03 C08", &format!("the remaining length in the encoding is wrong or not minimal: {}", hex(&enc)), case),
    }
    match spec::dec(&enc) {
        Dec::Ok(w, _) if w.clone().canon() == v.clone().canon() => (),
        Dec::Ok(w, _) => st.fail("C08", &format!("the encoding {} says {w:?}\nbut the packet is {v:?}", hex(&enc)), case),
        Dec::Bad(w) => st.fail("C08", &format!("the encoding {} is malformed ({w:?})", hex(&enc)), case),
        Dec::More => st.fail("C08 C03", &format!("the encoding {} is cut short", hex(&enc)), case),
    }
    if built {
        let l = "C02";
        match decode(&enc[..]) {
            Out::Ok(q, _) => match quiet(|| observe(&q)) { Ok(o) => { if o.clone().canon() != v.clone().canon() { st.fail(l, &format!("{v:?}\nencoded and decoded again is {o:?}"), case) } } Err(m) => st.fail(l, &format!("reading the packet panicked: {m}"), case) },
            Out::Err(e, _) => { let l = if insuff(&e) { "C02 C05" } else { l }; st.fail(l, &format!("the encoding {} of {v:?} does not decode: {e:?}", hex(&enc)), case) }
            Out::Panic(m) => st.fail("C01 C02", &format!("decoding the encoding panicked: {m}"), case),
        }
        if st.want("C10 C03") && enc.len() < 100000 {
            let mut bm = BytesMut::new();
            if quiet(|| p.to_bytes(&mut bm)).is_err() || bm[..] != enc[..] { st.fail("C10", "encoding into BytesMut differs", case); }
            let mut exact = vec![0u8; enc.len()];
            match quiet(|| { let mut s = &mut exact[..]; p.to_bytes(&mut s); s.len() }) {
                Ok(0) => if exact != enc { st.fail("C10", "encoding into a slice differs", case) },
                Ok(n) => st.fail("C03 C10", &format!("encoding into a slice of the right length leaves {n} bytes"), case),
                Err(m) => st.fail("C03 C10", &format!("encoding into a slice of exactly frame_len bytes panicked: {m}"), case),
            }
            for piece in [1, 2, 3, 7] {
                let mut sg = Seg { v: vec![0; enc.len() + 8], at: 0, piece };
                match quiet(|| p.to_bytes(&mut sg)) { Ok(()) => if sg.v[..sg.at] != enc[..] { st.fail("C10", &format!("encoding into pieces of {piece} bytes differs"), case); break; }, Err(m) => { st.fail("C10", &format!("encoding into pieces of {piece} bytes panicked: {m}"), case); break; } }
            }
        }
    }
}
/// a packet made through the public interface
fn built_case(st: &mut Stats, v: &Pk) {
    st.begin(|| short(format!("{v:?}")));
    st.hit(true);
    let case = st.input.clone();
    if st.samples.len() < 6 && case.len() < 200 { st.samples.push(case.clone()); }
    let p = match quiet(|| build(v)) {
        Ok(Ok(p)) => p,
        Ok(Err(m)) => { let l = if m.contains("property") { "C11 C07" } else if m.contains("topic") || m.contains("filter") { "C09 C07" } else { "C07" }; st.fail(l, &m, &case); return; }
        Err(m) => { st.fail("C07", &format!("building panicked: {m}"), &case); return; }
    };
    match quiet(|| observe(&p)) {
        Ok(o) => if o.clone().canon() != v.clone().canon() { st.fail("C07", &format!("built {v:?}\nreads back as {o:?}"), &case); },
        Err(m) => st.fail("C07", &format!("reading back panicked: {m}"), &case),
    }
    packet_case_inner(st, &p, v, &case, true);
}

// ---------------------------------------------------------------------------- histories of setters
/// the property table of a packet against its model: get for every identifier, and the iterator
fn props_case<H: Host>(st: &mut Stats, h: &H, m: &Props, case: &str) {
    for (id, _, _) in TABLE.iter() {
        let want: Vec<Val> = m.iter().filter(|p| p.0 == *id).map(|p| p.1.clone()).collect();
        let got = h.get(*id);
        let ok = match &got { None => want.is_empty(), Some(g) => *g == want && !want.is_empty() };
        if !ok { st.fail("C11", &format!("property {id:#x} should be {want:?}, lookup gives {got:?}"), case); return; }
    }
    let (mut a, mut b) = (h.list(), m.clone());
    a.sort(); b.sort();
    if a != b { st.fail("C11", &format!("stored are {b:?}, the iterator yields {a:?}"), case); }
    let mut l = h.list();
    l.sort_by_key(|p| p.0);
    let mut c = m.clone();
    c.sort_by_key(|p| p.0);
    if l != c { st.fail("C11", &format!("the iterator yields {l:?}, in order it would be {c:?}"), case); }
}
fn madd(m: &mut Props, o: Owner, id: u32, v: &Val) -> bool {
    let (k, ow) = prop(id).unwrap();
    let fits = matches!((k, v), (Kind::Bool, Val::Bool(_)) | (Kind::Byte, Val::Byte(_)) | (Kind::U16, Val::U16(_)) | (Kind::U32, Val::U32(_)) | (Kind::Var, Val::Var(_)) | (Kind::Str, Val::Str(_)) | (Kind::Data, Val::Data(_)));
    if !fits || !ow.contains(&o) { return false; }
    if id != 0x26 { m.retain(|p| p.0 != id); }
    m.push((id, v.clone()));
    true
}
/// one random addition, wrong ones included; returns what was done
fn add_case<H: Host>(st: &mut Stats, r: &mut Rng, h: &mut H, m: &mut Props, o: Owner, log: &mut Vec<String>) {
    let mut id = r.pick(&TABLE).0;
    if r.chance(2) { let l: Vec<u32> = TABLE.iter().filter(|t| t.2.contains(&o)).map(|t| t.0).collect(); id = r.pick(&l); }
    if r.chance(4) && !m.is_empty() { id = r.pick(m).0; }
    let v = if r.chance(4) { gany(r) } else { gval(r, prop(id).unwrap().0) };
    log.push(short(format!("add_prop({id:#x}, {v:?})")));
    let case = log.join("; ");
    let Some(rv) = rval(&v) else { st.fail("C11", &format!("value {v:?} refused"), &case); return; };
    let before = h.list().len();
    let want = madd(m, o, id, &v);
    let got = h.add(rprop(id), rv);
    if want != got { st.fail("C11 C07", &format!("{o:?}: adding {id:#x} = {v:?} should {}, but {}", if want { "succeed" } else { "fail" }, if got { "succeeds" } else { "fails" }), &case); }
    if !got && h.list().len() != before { st.fail("C11 C07", "a refused addition changed the table", &case); }
}
fn expect(st: &mut Stats, what: &str, want: bool, got: Result<bool, String>, log: &[String], labels: &str) {
    match got {
        Ok(g) if g == want => (),
        Ok(g) => st.fail(labels, &format!("{what} should {}, but {}", if want { "succeed" } else { "fail" }, if g { "succeeds" } else { "fails" }), &log.join("; ")),
        Err(m) => st.fail(labels, &format!("{what} panicked: {m}"), &log.join("; ")),
    }
}
fn anystr(r: &mut Rng) -> String { match r.below(3) { 0 => gbad(r), 1 => gstr(r), _ => gtopic(r) } }
fn bytes_maybe_long(r: &mut Rng) -> Vec<u8> { match r.below(12) { 0 => vec![1; 65535], 1 => vec![1; 65536], 2 => vec![1; 65536 + r.below(70000)], _ => gbytes(r) } }
/// a random history of calls on one packet, compared with a model after each call
fn history_case(st: &mut Stats, r: &mut Rng) {
    let ty = r.pick(&[1u8, 1, 1, 3, 3, 3, 2, 4, 5, 6, 7, 8, 8, 9, 10, 10, 11, 14, 15, 99]);
    let n = 1 + r.below(14);
    let mut log: Vec<String> = vec![];
    st.hit(n > 1);
    st.begin(|| format!("type {ty}"));
    macro_rules! simple { ($v:expr, $model:expr, $props:ident, $o:expr, $p:ident, $extra:expr) => {{
        let mut $p = $v;
        let mut model = $model;
        for _ in 0..n {
            if st.done() { return; }
            if r.chance(2) { let mut mm = model.props_mut().unwrap().clone(); add_case(st, r, &mut $p, &mut mm, $o, &mut log); *model.props_mut().unwrap() = mm; }
            else { let f: fn(&mut Stats, &mut Rng, &mut _, &mut Pk, &mut Vec<String>) = $extra; f(st, r, &mut $p, &mut model, &mut log); }
            let case = log.join("; ");
            let mut mm = model.clone();
            props_case(st, &$p, mm.props_mut().unwrap(), &case);
            let pk = $p.clone().build();
            check_model(st, &pk, &model, &case);
        }
    }} }
    match ty {
        1 => {
            let id = anystr(r);
            log.push(short(format!("Connect::new({id:?})")));
            let c = quiet(|| ap::Connect::new(arc(&id)));
            expect(st, "Connect::new", str_ok(&id), c.as_ref().map(|x| x.is_ok()).map_err(|e| e.clone()), &log, "C07");
            let Ok(Ok(c)) = c else { return };
            simple!(c, Pk::Connect { flags: 0, ka: 0, props: vec![], id: id.clone(), will: None, user: None, pass: None }, props, Owner::Connect, c, |st, r, c, m, log| {
                let Pk::Connect { flags, ka, will, user, pass, .. } = m else { unreachable!() };
                let c: &mut ap::Connect = c;
                match r.below(7) {
                    0 => { c.set_clean_start(); *flags |= 2; log.push("set_clean_start".into()); }
                    1 => { *ka = g16(r); c.set_keep_alive(*ka); log.push(format!("set_keep_alive({ka})")); }
                    2 => { let s = anystr(r); log.push(short(format!("set_username({s:?})"))); let ok = str_ok(&s); let g = quiet(|| c.set_username(arc(&s)).is_ok()); if ok { *user = Some(s); *flags |= 0x80; } expect(st, "set_username", ok, g, log, "C07"); }
                    3 => { let s = bytes_maybe_long(r); log.push(format!("set_password({} bytes)", s.len())); let ok = s.len() <= 65535; let g = quiet(|| c.set_password(Bytes::from(s.clone())).is_ok()); if ok { *pass = Some(s); *flags |= 0x40; } expect(st, "set_password", ok, g, log, "C07"); }
                    4 => { log.push("set_will_retain".into()); let ok = *flags & 4 != 0; let g = quiet(|| c.set_will_retain().is_ok()); if ok { *flags |= 0x20; } expect(st, "set_will_retain", ok, g, log, "C07"); }
                    5 => { let q = r.below(3) as u8; log.push(format!("set_will_qos({q})")); let ok = *flags & 4 != 0; let g = quiet(|| c.set_will_qos(qos(q)).is_ok()); if ok { *flags = *flags & !0x18 | q << 3; } expect(st, "set_will_qos", ok, g, log, "C07"); }
                    _ => {
                        let (t, d) = (anystr(r), bytes_maybe_long(r));
                        log.push(short(format!("Will::new({t:?}, {} bytes)", d.len())));
                        let ok = str_ok(&t) && d.len() <= 65535;
                        let w = quiet(|| ap::Will::new(arc(&t), Bytes::from(d.clone())));
                        expect(st, "Will::new", ok, w.as_ref().map(|x| x.is_ok()).map_err(|e| e.clone()), log, "C07");
                        if let Ok(Ok(mut w)) = w {
                            let mut mw = WillP { props: vec![], topic: t, payload: d };
                            for _ in 0..r.below(5) {
                                if r.chance(3) { let t = anystr(r); log.push(short(format!("will.set_topic({t:?})"))); let ok = str_ok(&t); let g = quiet(|| w.set_topic(arc(&t)).is_ok()); if ok { mw.topic = t; } expect(st, "Will::set_topic", ok, g, log, "C07"); }
                                else if r.chance(3) { let d = bytes_maybe_long(r); log.push(format!("will.set_payload({} bytes)", d.len())); let ok = d.len() <= 65535; let g = quiet(|| w.set_payload(Bytes::from(d.clone())).is_ok()); if ok { mw.payload = d; } expect(st, "Will::set_payload", ok, g, log, "C07"); }
                                else { add_case(st, r, &mut w, &mut mw.props, Owner::Will, log); }
                                let case = log.join("; ");
                                props_case(st, &w, &mw.props, &case);
                            }
                            c.set_will(w);
                            log.push("set_will".into());
                            *will = Some(mw);
                            *flags |= 4;
                        }
                    }
                }
            })
        }
        3 => {
            let (t, d) = (if r.chance(3) { anystr(r) } else { gfilter(r) }, gbytes(r));
            log.push(short(format!("Publish::new({t:?}, {} bytes)", d.len())));
            let c = quiet(|| ap::Publish::new(arc(&t), Bytes::from(d.clone())));
            expect(st, "Publish::new", topic_ok(&t), c.as_ref().map(|x| x.is_ok()).map_err(|e| e.clone()), &log, "C07 C09");
            let Ok(Ok(c)) = c else { return };
            simple!(c, Pk::Publish { flags: 0, topic: t.clone(), id: None, props: vec![], payload: d.clone() }, props, Owner::Publish, c, |st, r, c, m, log| {
                let Pk::Publish { flags, id, payload, .. } = m else { unreachable!() };
                let c: &mut ap::Publish = c;
                match r.below(6) {
                    0 => { c.set_retain(); *flags |= 1; log.push("set_retain".into()); }
                    1 => { c.set_dup(); *flags |= 8; log.push("set_dup".into()); }
                    2 => { let i = g16(r); log.push(format!("set_packet_identifier({i})")); let ok = *flags & 6 != 0; let g = quiet(|| c.set_packet_identifier(i).is_ok()); if ok { *id = Some(i); } expect(st, "set_packet_identifier", ok, g, log, "C07"); }
                    3 => { let q = r.below(3) as u8; log.push(format!("set_qos({q})")); let _ = quiet(|| c.set_qos(qos(q))); *flags = *flags & !6 | q << 1; if q == 0 { *id = None; } }
                    4 => { let d = gbytes(r); log.push(format!("set_payload({} bytes)", d.len())); let cuts: Vec<usize> = (0..2).map(|i| (i + 1) * d.len() / 3).collect(); c.set_payload(Chunks::new(&d, &cuts)); *payload = d; }
                    _ => { let d = gbytes(r); log.push(format!("set_payload_bytes({} bytes)", d.len())); c.set_payload_bytes(Bytes::from(d.clone())); *payload = d; }
                }
                if quiet(|| c.qos()).map(|q| q == qos(*flags >> 1 & 3)) != Ok(true) { st.fail("C07", "qos() is wrong", &log.join("; ")); }
            })
        }
        2 => simple!(ap::ConnAck::new(), Pk::ConnAck { flags: 0, rc: 0, props: vec![] }, props, Owner::ConnAck, c, |_st, r, c, m, log| {
            let Pk::ConnAck { flags, rc, .. } = m else { unreachable!() };
            let c: &mut ap::ConnAck = c;
            if r.chance(2) { c.set_session_present(); *flags |= 1; log.push("set_session_present".into()); } else { *rc = r.pick(CONNACK_RC); c.set_reason_code(connack_rc(*rc)); log.push(format!("set_reason_code({rc:#x})")); }
        }),
        4 => { let id = g16(r); simple!(ap::PubAck::new(id), Pk::Ack { ty: 4, id, rc: 0, props: vec![] }, props, Owner::PubAck, c, |_st, r, c, m, log| { let Pk::Ack { rc, .. } = m else { unreachable!() }; let c: &mut ap::PubAck = c; *rc = r.pick(PUBACK_RC); c.set_reason_code(puback_rc(*rc)); log.push(format!("set_reason_code({rc:#x})")); }) }
        5 => { let id = g16(r); simple!(ap::PubRec::new(id), Pk::Ack { ty: 5, id, rc: 0, props: vec![] }, props, Owner::PubRec, c, |_st, r, c, m, log| { let Pk::Ack { rc, .. } = m else { unreachable!() }; let c: &mut ap::PubRec = c; *rc = r.pick(PUBACK_RC); c.set_reason_code(puback_rc(*rc)); log.push(format!("set_reason_code({rc:#x})")); }) }
        6 => { let id = g16(r); simple!(ap::PubRel::new(id), Pk::Ack { ty: 6, id, rc: 0, props: vec![] }, props, Owner::PubRel, c, |_st, r, c, m, log| { let Pk::Ack { rc, .. } = m else { unreachable!() }; let c: &mut ap::PubRel = c; *rc = r.pick(PUBREL_RC); c.set_reason_code(pubrel_rc(*rc)); log.push(format!("set_reason_code({rc:#x})")); }) }
        7 => { let id = g16(r); simple!(ap::PubComp::new(id), Pk::Ack { ty: 7, id, rc: 0, props: vec![] }, props, Owner::PubComp, c, |_st, r, c, m, log| { let Pk::Ack { rc, .. } = m else { unreachable!() }; let c: &mut ap::PubComp = c; *rc = r.pick(PUBREL_RC); c.set_reason_code(pubrel_rc(*rc)); log.push(format!("set_reason_code({rc:#x})")); }) }
        8 => { let id = g16(r); simple!(ap::Subscribe::new(id), Pk::Subscribe { id, props: vec![], topics: vec![] }, props, Owner::Subscribe, c, |st, r, c, m, log| {
            let Pk::Subscribe { topics, .. } = m else { unreachable!() };
            let c: &mut ap::Subscribe = c;
            let t = if r.chance(3) { anystr(r) } else { gfilter(r) };
            let o = opts(if r.chance(3) { r.byte() } else { gopts(r) }).bits();
            log.push(short(format!("add_topic({t:?}, {o:#x})")));
            let ok = filter_ok(&t) && so_ok(o);
            let g = quiet(|| c.add_topic(arc(&t), opts(o)).is_ok());
            if ok { topics.push((t.clone(), o)); }
            expect(st, "Subscribe::add_topic", ok, g, log, if so_ok(o) { "C07 C09" } else { "C07" });
        }) }
        10 => { let id = g16(r); simple!(ap::Unsubscribe::new(id), Pk::Unsubscribe { id, props: vec![], topics: vec![] }, props, Owner::Unsubscribe, c, |st, r, c, m, log| {
            let Pk::Unsubscribe { topics, .. } = m else { unreachable!() };
            let c: &mut ap::Unsubscribe = c;
            let t = if r.chance(3) { anystr(r) } else { gfilter(r) };
            log.push(short(format!("add_topic({t:?})")));
            let ok = filter_ok(&t);
            let g = quiet(|| c.add_topic(arc(&t)).is_ok());
            if ok { topics.push(t.clone()); }
            expect(st, "Unsubscribe::add_topic", ok, g, log, "C07 C09");
        }) }
        9 => { let id = g16(r); simple!(ap::SubAck::new(id), Pk::Rcs { ty: 9, id, props: vec![], rcs: vec![] }, props, Owner::SubAck, c, |_st, r, c, m, log| { let Pk::Rcs { rcs, .. } = m else { unreachable!() }; let c: &mut ap::SubAck = c; let x = r.pick(SUBACK_RC); rcs.push(x); c.add_reason_code(suback_rc(x)); log.push(format!("add_reason_code({x:#x})")); }) }
        11 => { let id = g16(r); simple!(ap::UnsubAck::new(id), Pk::Rcs { ty: 11, id, props: vec![], rcs: vec![] }, props, Owner::UnsubAck, c, |_st, r, c, m, log| { let Pk::Rcs { rcs, .. } = m else { unreachable!() }; let c: &mut ap::UnsubAck = c; let x = r.pick(UNSUBACK_RC); rcs.push(x); c.add_reason_code(unsuback_rc(x)); log.push(format!("add_reason_code({x:#x})")); }) }
        14 => { let rc = r.pick(DISCONNECT_RC); simple!(ap::Disconnect::new(disconnect_rc(rc)), Pk::Disconnect { rc, props: vec![] }, props, Owner::Disconnect, c, |_st, _r, _c, _m, _log| ()) }
        15 => { let rc = r.pick(AUTH_RC); simple!(ap::Auth::new(auth_rc(rc)), Pk::Auth { rc, props: vec![] }, props, Owner::Auth, c, |_st, _r, _c, _m, _log| ()) }
        _ => value_case(st, r),
    }
    let text = log.join("; ");
    st.begin(|| text);
}
fn check_model(st: &mut Stats, p: &Packet, m: &Pk, case: &str) {
    match quiet(|| observe(p)) {
        Ok(o) => {
            let (a, b) = (o.canon(), m.clone().canon());
            if a != b {
                // which part differs decides which property it breaks
                let (mut a2, mut b2) = (a.clone(), b.clone());
                if let Some(x) = a2.props_mut() { x.clear(); }
                if let Some(x) = b2.props_mut() { x.clear(); }
                let l = if a2 == b2 { "C11 C07" } else { "C07" };
                st.fail(l, &format!("the packet is {a:?}\nbut should be {b:?}"), case);
            }
        }
        Err(e) => st.fail("C07", &format!("reading the packet panicked: {e}"), case),
    }
    match quiet(|| p.frame_len()) { Ok(n) => { let w = spec::enc(m).len(); if n != w { st.fail("C03 C07 C11", &format!("frame_len is {n}, right would be {w}"), case); } } Err(e) => st.fail("C03 C07", &format!("frame_len panicked: {e}"), case) }
}
/// constructors and readers of property values
fn value_case(st: &mut Stats, r: &mut Rng) {
    let v = gany(r);
    let case = short(format!("value {v:?}"));
    let Some(x) = rval(&v) else { st.fail("C11 C07", "value refused", &case); return; };
    let want: [Option<String>; 6] = [
        if let Val::Bool(b) = &v { Some(format!("{}", *b == 1)) } else { None },
        if let Val::Byte(b) = &v { Some(format!("{b}")) } else { None },
        if let Val::U16(b) = &v { Some(format!("{b}")) } else { None },
        match &v { Val::U32(b) | Val::Var(b) => Some(format!("{b}")), _ => None },
        if let Val::Str(s) = &v { Some(s.clone()) } else { None },
        if let Val::Data(d) = &v { Some(format!("{d:?}")) } else { None },
    ];
    let got: [Option<String>; 6] = [x.into_bool().map(|b| format!("{b}")), x.into_u8().map(|b| format!("{b}")), x.into_u16().map(|b| format!("{b}")), x.into_u32().map(|b| format!("{b}")), x.into_str().map(|s| s.to_string()), x.into_data().map(|d| format!("{:?}", d.to_vec()))];
    if want != got { st.fail("C11", &format!("reads back as {got:?}, should be {want:?}"), &case); }
    let pair = x.into_str_pair().map(|(a, b)| (a.to_string(), b.to_string()));
    let wp = if let Val::Pair(a, b) = &v { Some((a.clone(), b.clone())) } else { None };
    if pair != wp { st.fail("C11", &format!("reads back as {pair:?}, should be {wp:?}"), &case); }
    let s = anystr(r);
    if quiet(|| MqttPropValue::new_string(arc(&s)).is_ok()) != Ok(str_ok(&s)) { st.fail("C07", "new_string", &short(format!("{s:?}"))); }
    let t = anystr(r);
    if quiet(|| MqttPropValue::new_string_pair(arc(&s), arc(&t)).is_ok()) != Ok(str_ok(&s) && str_ok(&t)) { st.fail("C07", "new_string_pair", &short(format!("{s:?} {t:?}"))); }
    let d = bytes_maybe_long(r);
    if quiet(|| MqttPropValue::new_data(Bytes::from(d.clone())).is_ok()) != Ok(d.len() <= 65535) { st.fail("C07", "new_data", &format!("{} bytes", d.len())); }
    let n = gvar(r);
    let n = r.pick(&[268435455, 268435456, u32::MAX, n]);
    if quiet(|| MqttPropValue::new_varint(n).is_ok()) != Ok(n < 268435456) { st.fail("C07", "new_varint", &format!("{n}")); }
}
// ------------------------------------------------------------------------------------------ topics
fn topic_case(st: &mut Stats, r: &mut Rng, s: &str) {
    st.begin(|| short(format!("{s:?}")));
    st.hit(!s.is_empty());
    let case = st.input.clone();
    let (f, t) = (filter_ok(s), topic_ok(s));
    let say = |st: &mut Stats, what: &str, want: bool, got: Result<bool, String>, lab: &str| match got {
        Ok(g) if g == want => (),
        Ok(g) => st.fail(lab, &format!("{what} {} {case}", if g { "accepts" } else { "refuses" }), &case),
        Err(m) => st.fail(lab, &format!("{what} panicked: {m}"), &case),
    };
    say(st, "MqttTopic::new", f, quiet(|| MqttTopic::new(arc(s)).is_ok()), "C09");
    if f {
        if let Ok(Ok(x)) = quiet(|| MqttTopic::new(arc(s))) {
            say(st, "is_wildcard", !t, quiet(|| x.is_wildcard()), "C09");
            say(st, "inner equals the string", true, quiet(|| &**x.inner() == s), "C09");
            say(st, "unwrap equals the string", true, quiet(|| &*x.clone().unwrap() == s), "C09");
        }
    }
    say(st, "Publish::new", t, quiet(|| ap::Publish::new(arc(s), Bytes::new()).is_ok()), "C09 C07");
    say(st, "Subscribe::add_topic", f, quiet(|| ap::Subscribe::new(1).add_topic(arc(s), opts(0)).is_ok()), "C09 C07");
    say(st, "Unsubscribe::add_topic", f, quiet(|| ap::Unsubscribe::new(1).add_topic(arc(s)).is_ok()), "C09 C07");
    if s.len() <= 65535 && (s.len() < 3000 || r.chance(4)) {
        let e = |p: Pk| spec::enc(&p);
        let ok = |b: Vec<u8>| quiet(|| Packet::from_bytes(&mut &b[..]).is_ok());
        say(st, "decoding a PUBLISH", t, ok(e(Pk::Publish { flags: 0, topic: s.into(), id: None, props: vec![], payload: vec![] })), "C09 C06");
        say(st, "decoding a SUBSCRIBE", f, ok(e(Pk::Subscribe { id: 1, props: vec![], topics: vec![(s.into(), 0)] })), "C09 C06");
        say(st, "decoding an UNSUBSCRIBE", f, ok(e(Pk::Unsubscribe { id: 1, props: vec![], topics: vec!["a".into(), s.into()] })), "C09 C06");
    }
}
fn topic_strings() -> Vec<String> {
    let mut all: Vec<String> = vec![String::new()];
    let mut last: Vec<String> = vec![String::new()];
    for _ in 0..7 {
        let mut next = vec![];
        for p in &last { for c in ["a", "/", "+", "#"] { next.push(format!("{p}{c}")); } }
        all.extend(next.iter().cloned());
        last = next;
    }
    for c in (0..0x100u32).chain([0x2028, 0xfffd, 0xfeff, 0x10ffff, 0xd7ff, 0xe000]) { if let Some(c) = char::from_u32(c) { for f in ["{}", "a{}", "{}/#", "+/{}", "a/{}/b"] { all.push(f.replace("{}", &c.to_string())); } } }
    for n in [65530usize, 65533, 65534, 65535, 65536, 65537, 70000, 131072] { all.push("a".repeat(n)); all.push("é".repeat(n / 2)); all.push("a".repeat(n - 2) + "/#"); all.push("+/".repeat(n / 2)); all.push("a".repeat(n - 1) + "#"); }
    for s in ["$SYS/#", "$share/g/a", "a//b", "//", "/#", "+/+/+/#", "a/#/", "a/+b", "a/b+/c", "#a", "é+", "é/+", "é#", "漢/#", "#/", "a/##", "😀/+/😀"] { all.push(s.into()); }
    all
}

// --------------------------------------------------------------------------------------------- run
fn big_packets() -> Vec<Pk> {
    let mut v = vec![];
    for n in [126usize, 127, 128, 129, 16382, 16383, 16384, 16385, 2097150, 2097151, 2097152, 2097153] {
        let p = Pk::Publish { flags: 0, topic: "t".into(), id: None, props: vec![], payload: vec![] };
        let have = spec::body(&p).len();
        v.push(Pk::Publish { flags: 0, topic: "t".into(), id: None, props: vec![], payload: vec![3; n - have] });
        // the property section and the whole at a boundary
        for over in 0..6usize {
            let (mut left, mut ps) = (n - over.min(n), vec![]);
            while left > 3 { let k = (left - 3).min(60000); let k = if left - 3 - k > 0 && left - 3 - k < 4 { k - 4 } else { k }; ps.push((0x26, Val::Str("p".repeat(k)))); left -= 3 + k; }
            if n > 100000 && over > 0 { continue; }
            v.push(Pk::Auth { rc: 0, props: ps.clone() });
            v.push(Pk::Disconnect { rc: 0x80, props: ps });
        }
        if n < 20000 {
            for d in 0..8 { v.push(Pk::Rcs { ty: 9, id: 1, props: vec![], rcs: vec![1; n - d] }); v.push(Pk::Rcs { ty: 11, id: 1, props: vec![], rcs: vec![0; n - d] }); }
            for d in 0..8 { let k = (n.saturating_sub(d)).min(65535); v.push(Pk::Unsubscribe { id: 1, props: vec![], topics: vec!["a".repeat(k)] }); v.push(Pk::Subscribe { id: 1, props: vec![], topics: vec![("b".repeat(k), 2)] });
                v.push(Pk::Connect { flags: 0x84, ka: 0, props: vec![], id: "c".repeat(k), will: Some(WillP { props: vec![(3, Val::Str("x".repeat(k)))], topic: String::new(), payload: vec![] }), user: Some(String::new()), pass: None }); }
        }
    }
    v
}
fn huge(st: &mut Stats) {
    st.case = "huge:0".into();
    for n in [268435455usize] {
        st.begin(|| format!("PUBLISH with remaining length {n}"));
        st.hit(true);
        let case = st.input.clone();
        let Ok(p) = ap::Publish::new(arc("t"), Bytes::from(vec![0u8; n - 4])) else { continue };
        let p = p.build();
        let mut v: Vec<u8> = Vec::with_capacity(n + 10);
        match quiet(|| { p.to_bytes(&mut v); p.frame_len() }) {
            Ok(l) => if l != n + 5 || v.len() != l || v[..5] != [0x30, 0xff, 0xff, 0xff, 0x7f] { st.fail("C03 C08", &format!("frame_len {l}, {} bytes written, {}", v.len(), hex(&v[..8])), &case); },
            Err(m) => st.fail("C02 C03", &format!("panicked: {m}"), &case),
        }
        match decode(Bytes::from(v)) { Out::Ok(_, l) if l == n + 5 => (), o => st.fail("C02", &format!("does not decode: {}", match o { Out::Err(e, _) => format!("{e:?}"), Out::Panic(m) => m, _ => "wrong length".into() }), &case) }
    }
}
type Fam = (&'static str, u64);
/// the families of cases that can show a violation of each property, with weights
fn families(p: &str) -> Vec<Fam> {
    match p {
        "C01" => vec![("mutants", 0), ("short", 0), ("mutant", 6), ("valid", 2), ("noise", 2)],
        "C02" => vec![("big", 0), ("built", 6), ("valid", 3)],
        "C03" => vec![("big", 0), ("built", 6), ("valid", 2), ("history", 2)],
        "C04" => vec![("mutants", 0), ("valid", 5), ("mutant", 3)],
        "C05" => vec![("prefixes", 0), ("mutants", 0), ("prefix", 5), ("mutant", 4), ("short", 0), ("noise", 1)],
        "C06" => vec![("mutants", 0), ("short", 0), ("valid", 3), ("mutant", 6), ("topics", 0)],
        "C07" => vec![("topics", 0), ("history", 8), ("built", 2)],
        "C08" => vec![("big", 0), ("built", 7), ("valid", 2)],
        "C09" => vec![("topics", 0), ("topic", 4), ("history", 2), ("valid", 1), ("mutant", 2)],
        "C10" => vec![("mutants", 0), ("valid", 4), ("mutant", 4), ("built", 2), ("prefix", 1)],
        "C11" => vec![("history", 8), ("values", 1), ("built", 1)],
        _ => vec![],
    }
}
fn enumerated(st: &mut Stats, fam: &str, seed: u64, end: Instant, only: Option<u64>) {
    let mut r = Rng::new(seed, 0xe000 + fam.len() as u64, 0);
    let mut i = 0u64;
    let mut cut = false;
    let mut go = |st: &mut Stats, f: &mut dyn FnMut(&mut Stats)| {
        if only.map(|o| o == i).unwrap_or(!st.done() && !cut) { st.case = format!("{fam}:{i}"); f(st); }
        i += 1;
        if i % 64 == 0 && only.is_none() && Instant::now() > end { cut = true; }
    };
    match fam {
        "mutants" => for p in bases() { mutants(&p, &mut |s| go(st, &mut |st| bytes_case(st, &mut r, &s))); },
        "short" => {
            go(st, &mut |st| bytes_case(st, &mut r, &[]));
            for a in 0..=255u8 { go(st, &mut |st| bytes_case(st, &mut r, &[a])); }
            for a in 0..=255u8 { for b in 0..=255u8 { go(st, &mut |st| bytes_case(st, &mut r, &[a, b])); } }
            // every type with every small body: length 1 to 3 with telling bytes
            for t in 0..=15u8 { for f in [0u8, 2] { for x in 0..=255u8 { go(st, &mut |st| bytes_case(st, &mut r, &[t << 4 | f, 1, x])); for y in [0u8, 1, 2, 0x80, 0xff] { go(st, &mut |st| bytes_case(st, &mut r, &[t << 4 | f, 2, x, y])); for z in [0u8, 1, 0x1f, 0x80, 0xff] { go(st, &mut |st| bytes_case(st, &mut r, &[t << 4 | f, 3, y, x, z])); } } } } }
            for t in 0..=15u8 { for a in [0x80u8, 0x81, 0xff] { for b in [0u8, 1, 0x7f, 0x80, 0xff] { for c in [0u8, 1, 0x7f, 0x80, 0xff] { for d in [0u8, 1, 0x7f, 0x80, 0xff] { for e in [0u8, 1, 0xff] { let s = [t << 4 | spec::fixed_flags(t), a, b, c, d, e]; for n in 3..=6 { go(st, &mut |st| bytes_case(st, &mut r, &s[..n])); } } } } } } }
        }
        "prefixes" => for p in bases() { let e = spec::enc(&p); for n in 0..e.len() { go(st, &mut |st| prefix_case(st, &e, n)); } },
        "topics" => for s in topic_strings() { go(st, &mut |st| topic_case(st, &mut r, &s)); },
        "big" => for p in big_packets() { go(st, &mut |st| built_case(st, &p)); },
        _ => (),
    }
    if !cut && !st.done() && only.is_none() { st.exhausted.push(fam.to_string()); }
}
fn prefix_case(st: &mut Stats, e: &[u8], n: usize) {
    st.begin(|| hex(&e[..n]));
    st.hit(n > 0);
    let case = st.input.clone();
    match decode(&e[..n]) {
        Out::Err(x, _) if insuff(&x) => (),
        Out::Err(x, _) => st.fail("C05", &format!("the first {n} bytes of a well-formed frame of {} give {x:?}", e.len()), &case),
        Out::Ok(..) => st.fail("C05 C06", &format!("the first {n} bytes of a frame of {} decode", e.len()), &case),
        Out::Panic(m) => st.fail("C01", &format!("decoding panicked: {m}"), &case),
    }
}
fn random(st: &mut Stats, fam: &str, seed: u64, i: u64) {
    let mut r = Rng::new(seed, fam.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)), i);
    st.case = format!("{fam}:{i}");
    match fam {
        "valid" => {
            let p = gpacket(&mut r);
            if matches!(p.clone(), Pk::PingReq | Pk::PingRes) && i > 200 { return; }
            let mut s = spec::enc(&p);
            if r.chance(2) { s.extend((0..1 + r.below(20)).map(|_| r.byte())); }
            bytes_case(st, &mut r, &s)
        }
        "mutant" => { let s = gmutant(&mut r); bytes_case(st, &mut r, &s) }
        "noise" => {
            let n = r.below(40);
            let mut s: Vec<u8> = (0..n).map(|_| if r.chance(3) { r.pick(&[0u8, 1, 2, 4, 0x26, 0x1f, 0x80, 0xff]) } else { r.byte() }).collect();
            if r.chance(2) && n > 2 { let t = r.pick(&TYPES); s[0] = t << 4 | spec::fixed_flags(t); s[1] = (n - 2) as u8; }
            bytes_case(st, &mut r, &s)
        }
        "prefix" => {
            let p = gpacket(&mut r);
            let e = spec::enc(&p);
            if e.len() < 80 { for n in 0..e.len() { if st.done() { return; } prefix_case(st, &e, n); } } else { for n in [1, 2, 3, 4, e.len() - 1, e.len() - 2] { prefix_case(st, &e, n); } for _ in 0..6 { let n = r.below(e.len()); prefix_case(st, &e, n); } }
        }
        "built" => { let p = gpacket(&mut r); built_case(st, &p) }
        "history" => history_case(st, &mut r),
        "values" => { st.begin(|| "property values".into()); st.hit(true); value_case(st, &mut r) }
        "topic" => {
            let n = r.below(12);
            let s: String = if r.chance(6) { anystr(&mut r) } else { (0..n).map(|_| r.pick(&["a", "/", "/", "+", "#", "é", "$", "\u{7f}", " "])).collect() };
            topic_case(st, &mut r, &s)
        }
        _ => (),
    }
}
/// the recorded deviations from the standard: does each still fail?
pub fn probe() {
    let dec = |b: &[u8]| Packet::from_bytes(&mut &b[..]);
    // user property: the standard wants two strings, the code writes and reads one
    let pair = MqttPropValue::new_string_pair(arc("k"), arc("v")).unwrap();
    let mut a = ap::Auth::new(ap::AuthReasonCode::Success);
    if a.add_prop(ap::Property::UserProperty, pair).is_err() { println!("user-property-single-string"); }
    if dec(&[0xf0, 9, 0, 7, 0x26, 0, 1, b'k', 0, 1, b'v']).is_err() { println!("user-property-pair-refused"); }
    // 3.4.2.1, 3.14.2.1, 3.15.2.1: reason code and properties may be left out
    if dec(&[0x40, 2, 0, 1]).is_err() && dec(&[0x50, 2, 0, 1]).is_err() && dec(&[0x62, 2, 0, 1]).is_err() && dec(&[0x70, 2, 0, 1]).is_err() { println!("short-acks-refused"); }
    if dec(&[0xe0, 0]).is_err() && dec(&[0xf0, 0]).is_err() { println!("short-disconnect-refused"); }
    // 3.1.2.11.6: only 0 and 1
    if dec(&[0x10, 15, 0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 0, 2, 0x17, 2, 0, 0]).is_ok() { println!("boolean-property-2-accepted"); }
}
pub fn run(st: &mut Stats, seed: u64, seconds: f64, only: &str) {
    if !only.is_empty() {
        let (f, i) = only.split_once(':').unwrap();
        let i: u64 = i.parse().unwrap();
        if f == "huge" { huge(st); } else { enumerated(st, f, seed, Instant::now() + Duration::from_secs(600), Some(i)); random(st, f, seed, i); }
        return;
    }
    let start = Instant::now();
    let end = start + Duration::from_secs_f64(seconds);
    let fams = families(&st.prop);
    let ne = fams.iter().filter(|f| f.1 == 0).count() as f64;
    for (k, (f, w)) in fams.iter().filter(|f| f.1 == 0).enumerate() {
        debug_assert!(*w == 0);
        if st.done() { return; }
        enumerated(st, f, seed, start + Duration::from_secs_f64(seconds * 0.6 * (k + 1) as f64 / ne), None);
    }
    if seconds >= 60.0 && st.want("C02 C03") { huge(st); }
    let rnd: Vec<Fam> = fams.into_iter().filter(|f| f.1 > 0).collect();
    let mut next = vec![0u64; rnd.len()];
    while Instant::now() < end && !st.done() && !rnd.is_empty() {
        for (k, (f, w)) in rnd.iter().enumerate() {
            for _ in 0..*w * 4 { if st.done() { return; } random(st, f, seed, next[k]); next[k] += 1; }
        }
    }
}
