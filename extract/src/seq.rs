//! SEQUENTIAL READING (server part): the token-level changes that turn the asynchronous, lock-protected
//! code of the server library into the sequential code it is between two lock acquisitions.
//!
//!  S1  `async`, `.await`, `async move { .. }`, `Box::pin(..)`, `BoxFuture<T>`: dropped
//!  S2  `RwLock<T>`, `Arc<RwLock<T>>`, `Arc<C>` for a type C that holds a lock: `T`, `T`, `C`
//!  S3  `x.read()`, `x.write()` on a lock, functions that only return such a guard, and the names bound
//!      to such guards: the place the lock protects
//!  S4  a function that writes through a lock, sends on a channel or calls one that does: `&self` becomes
//!      `&mut self`, its parameters of lock-holding types `&mut`, its lookups of lock-holding values `get_mut`
//!  S5  `match m.entry(k) { Vacant.., Occupied.. }` and `m.entry(k).or_insert(..)`: tests and lookups
//!  S6  string literals in patterns: guards
//!  S7  `S: Iterator<Item = &str>`, `split`, `once(..).chain(..)`: the cursor type `VStrs`; `s.parse()`: `v_parse`
//!  S9  `e?` in a function that returns a `Result`: the `match` it stands for, with `From::from` on the error
//!  S8  `select! { p = f() => body, .. }`: a choice between the branches
//!  S10 `tokio::spawn(f)`: `v_spawn(f)`, a handle to what `f` comes to
//!  S11 `&x[..]`, `&x[..n]`, `&x[n..]`: named functions; values whose methods need `&mut` in the
//!      sequential reading (channel ends, Notify) are bound mutably
//!  S13 a parameter with the name of its function: another name
//!  S12 in a function with an `await` section, that text stands before each `.await`: what has to hold
//!      when the future is dropped there
//!  S15 (part `shared`) instead of S2, S3: locks stay, each acquisition is `v_acq()`, which yields what the lock
//!      protects as the other tasks have left it; and S4 takes an acquisition for a write
//!  S14 a function that calls `notified()`, or has an `exit` section: a ghost record `__task` of the notices it takes
//!      and gives and of the waits it makes; in a `select!` every other branch waits beside the notices of
//!      the branches that are `x.notified()`
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct SeqCx {
    pub fields: BTreeMap<String, String>,
    pub locks: BTreeSet<String>,
    pub senders: BTreeSet<String>,
    pub cells: BTreeSet<String>,
    pub cell_maps: BTreeSet<String>,
    /// other tasks act between two critical sections (S15)
    pub shared: bool,
    /// names of functions that change what is behind a `&self`
    pub muts: BTreeSet<String>,
    /// (receiver type, name) -> the guard expression in terms of `self`
    pub accessors: BTreeMap<String, Expr>,
}

fn ks(t: &impl ToTokens) -> String { t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect() }

fn mentions(ty: &str, name: &str) -> bool {
    let b = ty.as_bytes();
    let mut at = 0;
    while let Some(p) = ty[at..].find(name) {
        let (s, e) = (at + p, at + p + name.len());
        let w = |i: usize| b.get(i).map(|c| c.is_ascii_alphanumeric() || *c == b'_').unwrap_or(false);
        if (s == 0 || !w(s - 1)) && !w(e) { return true; }
        at = e;
    }
    false
}

/// S1
struct Deasync;
impl VisitMut for Deasync {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Await(a) => { *e = (*a.base).clone(); }
            Expr::Async(a) => { let b = &a.block; *e = if b.stmts.len() == 1 { if let Stmt::Expr(x, None) = &b.stmts[0] { x.clone() } else { parse_quote!(#b) } } else { parse_quote!(#b) }; }
            Expr::Call(c) if ks(&c.func) == "Box::pin" && c.args.len() == 1 => { *e = c.args[0].clone(); }
            Expr::Call(c) if matches!(ks(&c.func).as_str(), "tokio::spawn" | "spawn" | "tokio::task::spawn" | "task::spawn") => { c.func = parse_quote!(v_spawn); }
            _ => (),
        }
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) { s.asyncness = None; visit_mut::visit_signature_mut(self, s); }
}

/// S13
struct Renamed { from: Ident, to: Ident }
impl VisitMut for Renamed {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident(&self.from) { p.path = Path::from(self.to.clone()); } }
}

/// S8: one branch of a `select!`
struct Branch { pat: Pat, fut: Expr, body: Expr }
fn parse_select(t: proc_macro2::TokenStream) -> Result<Vec<Branch>> {
    use syn::parse::{ParseStream, Parser};
    let p = |input: ParseStream| -> Result<Vec<Branch>> {
        let mut v = vec![];
        if input.peek(Ident) && input.peek2(Token![;]) {
            let i: Ident = input.parse()?;
            if i != "biased" { return Err(Error::new(i.span(), "select")); }
            let _: Token![;] = input.parse()?;
        }
        while !input.is_empty() {
            if input.peek(Token![else]) {
                let _: Token![else] = input.parse()?;
                let _: Token![=>] = input.parse()?;
                let body: Expr = input.parse()?;
                v.push(Branch { pat: parse_quote!(_), fut: parse_quote!(()), body });
            } else {
                let pat = Pat::parse_single(input)?;
                let _: Token![=] = input.parse()?;
                let fut: Expr = input.parse()?;
                if input.peek(Token![,]) { return Err(input.error("select with a condition")); }
                let _: Token![=>] = input.parse()?;
                let body: Expr = Expr::parse_with_earlier_boundary_rule(input)?;
                v.push(Branch { pat, fut, body });
            }
            if input.peek(Token![,]) { let _: Token![,] = input.parse()?; }
        }
        Ok(v)
    };
    p.parse2(t)
}
fn select_expr(m: &Macro) -> Option<Expr> {
    if m.path.segments.last()?.ident != "select" { return None; }
    let b = parse_select(m.tokens.clone()).ok()?;
    let n = b.len() as u8;
    let mut arms: Vec<Arm> = vec![];
    for (i, b) in b.iter().enumerate() {
        let (p, f, e) = (&b.pat, &b.fut, &b.body);
        let i = i as u8;
        arms.push(if i + 1 == n { parse_quote!(_ => { let #p = #f; #e }) } else { parse_quote!(#i => { let #p = #f; #e }) });
    }
    Some(parse_quote!(match v_choice(#n) { #(#arms)* }))
}
/// S14
fn notice(e: &Expr) -> Option<Expr> {
    match e {
        Expr::MethodCall(m) if m.method == "notified" && m.args.is_empty() => Some((*m.receiver).clone()),
        Expr::Await(a) => notice(&a.base),
        Expr::Paren(p) => notice(&p.expr),
        Expr::Async(a) => match a.block.stmts.first()? { Stmt::Expr(x @ Expr::Await(_), _) => notice(x), _ => None },
        _ => None,
    }
}
/// whether a notice is awaited somewhere in here
pub struct Notices { pub found: bool }
impl VisitMut for Notices {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e { if m.method == "notified" && m.args.is_empty() { self.found = true; } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Some(mut e) = select_expr(m) { self.visit_expr_mut(&mut e); }
    }
}
#[derive(Default)]
struct TaskView { odd: bool }
impl TaskView {
    fn select(&mut self, m: &Macro) -> Option<Expr> {
        if m.path.segments.last()?.ident != "select" { return None; }
        let mut b = parse_select(m.tokens.clone()).ok()?;
        let n = b.len() as u8;
        let heard: Vec<Expr> = b.iter().filter_map(|b| notice(&b.fut)).collect();
        let mut arms: Vec<Arm> = vec![];
        for (i, b) in b.iter_mut().enumerate() {
            let own = notice(&b.fut);
            // what is awaited inside the future of a branch is not a wait of its own
            if own.is_none() { Deasync.visit_expr_mut(&mut b.fut); let mut q = Notices { found: false }; q.visit_expr_mut(&mut b.fut); if q.found { self.odd = true; } }
            else if !matches!(&b.fut, Expr::MethodCall(_)) { self.visit_expr_mut(&mut b.fut); }
            self.visit_expr_mut(&mut b.body);
            let (p, f, e) = (&b.pat, &b.fut, &b.body);
            let inner: Vec<Stmt> = match (&own, f) {
                (Some(x), Expr::MethodCall(_)) => parse_quote!(let #p = #x.v_take(Tracked(&mut __task));),
                (Some(_), _) => parse_quote!(let #p = #f;),
                (None, _) => parse_quote!(#(#heard.v_beside(Tracked(&mut __task));)* v_waited(Tracked(&mut __task)); let #p = #f;),
            };
            let i = i as u8;
            arms.push(if i + 1 == n { parse_quote!(_ => { #(#inner)* #e }) } else { parse_quote!(#i => { #(#inner)* #e }) });
        }
        Some(parse_quote!(match v_choice(#n) { #(#arms)* }))
    }
}
impl VisitMut for TaskView {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s { if let Some(e) = self.select(&m.mac) { *s = Stmt::Expr(e, m.semi_token); return; } }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(x) = self.select(&m.mac) { *e = x; return; } }
        if let Expr::Await(a) = e {
            if let Expr::MethodCall(m) = &mut *a.base {
                if m.method == "notified" && m.args.is_empty() { let r = &m.receiver; *e = parse_quote!(#r.v_take(Tracked(&mut __task))); return; }
                // a lock is held for a step at a time
                if matches!(m.method.to_string().as_str(), "read" | "write" | "lock") && m.args.is_empty() { visit_mut::visit_expr_mut(self, e); return; }
            }
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Await(a) = e { let b = &a.base; *e = if matches!(&**b, Expr::Path(_)) { parse_quote!(#b.v_join(Tracked(&mut __task))) } else { parse_quote!({ v_wait(Tracked(&mut __task)); #b }) }; }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.args.is_empty() {
                let r = &m.receiver;
                match m.method.to_string().as_str() {
                    "notify_one" => *e = parse_quote!(#r.v_give(Tracked(&mut __task))),
                    "notify_waiters" => *e = parse_quote!(#r.v_wake(Tracked(&mut __task))),
                    "notified" => self.odd = true,
                    _ => (),
                }
            }
        }
    }
    fn visit_expr_async_mut(&mut self, a: &mut ExprAsync) { let mut q = Notices { found: false }; q.visit_block_mut(&mut a.block); if q.found { self.odd = true; } }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { let mut q = Notices { found: false }; q.visit_expr_mut(&mut c.body); if q.found { self.odd = true; } }
}
struct Select;
impl VisitMut for Select {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = select_expr(&m.mac) { *s = Stmt::Expr(e, m.semi_token); }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(x) = select_expr(&m.mac) { *e = x; } }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// S12
struct Awaits;
impl VisitMut for Awaits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Await(a) = e { let b = &a.base; *e = parse_quote!({ __vp_await(); #b }); }
    }
}
/// S11
struct Slices;
impl VisitMut for Slices {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() { return; }
            if let Expr::Index(ix) = &*r.expr {
                if let Expr::Range(g) = &*ix.index {
                    let x = &ix.expr;
                    if !matches!(g.limits, RangeLimits::HalfOpen(_)) { return; }
                    match (&g.start, &g.end) {
                        (None, None) => *e = parse_quote!((#x).v_all()),
                        (None, Some(b)) => *e = parse_quote!((#x).v_to(#b)),
                        (Some(a), None) => *e = parse_quote!((#x).v_from(#a)),
                        (Some(a), Some(b)) => *e = parse_quote!((#x).v_from_to(#a, #b)),
                    }
                }
            }
        }
    }
}
/// S11: channel ends are bound mutably
fn bound_mut(t: &Type) -> bool {
    let s = ks(t);
    let s = s.strip_prefix("Arc<").unwrap_or(&s).to_string();
    ["UnboundedSender<", "Sender<", "UnboundedReceiver<", "Receiver<"].iter().any(|p| s.starts_with(p))
}

fn each_key(module: &str, f: &mut File, k: &mut dyn FnMut(&[String], &mut Block)) {
    let m = module.strip_prefix("s_").unwrap_or(module).to_string();
    for i in &mut f.items {
        if let Item::Impl(im) = i {
            let ty = ks(&im.self_ty);
            for x in &mut im.items { if let ImplItem::Fn(f) = x { k(&[format!("{ty}::{}", f.sig.ident), format!("{m}::{ty}::{}", f.sig.ident)], &mut f.block); } }
        } else if let Item::Fn(f) = i { k(&[f.sig.ident.to_string(), format!("{m}::{}", f.sig.ident)], &mut f.block); }
    }
}

pub fn prepare(files: &mut [(String, String, File)], cx: &mut SeqCx, awaits: &BTreeSet<String>, exits: &BTreeSet<String>, notes: &mut Vec<String>) {
    for (m, _, f) in files.iter_mut() {
        let m = m.clone();
        each_key(&m, f, &mut |keys, b| {
            let has = keys.iter().any(|k| exits.contains(k));
            let mut q = Notices { found: false };
            q.visit_block_mut(b);
            if !has && !q.found { return; }
            if !has { notes.push(format!("NOTICE-TAKEN {}", keys[0])); }
            let mut v = TaskView::default();
            v.visit_block_mut(b);
            if v.odd { notes.push(format!("NOTICE-SHAPE {}", keys[0])); }
            b.stmts.insert(0, parse_quote!(let __vp_task = ();));
        });
    }
    for (_, _, f) in files.iter_mut() {
        Select.visit_file_mut(f);
        for i in &mut f.items {
            if let Item::Impl(im) = i {
                let ty = ks(&im.self_ty);
                for m in &mut im.items { if let ImplItem::Fn(f) = m { if awaits.contains(&format!("{ty}::{}", f.sig.ident)) { Awaits.visit_block_mut(&mut f.block); } } }
            } else if let Item::Fn(f) = i { if awaits.contains(&f.sig.ident.to_string()) { Awaits.visit_block_mut(&mut f.block); } }
        }
        Deasync.visit_file_mut(f);
        Slices.visit_file_mut(f);
        each_fn(f, &mut |sig, b| {
            let same = sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if matches!(&*t.pat, Pat::Ident(p) if p.ident == sig.ident)));
            if same {
                let n = sig.ident.clone();
                let mut r = Renamed { from: n.clone(), to: format_ident!("__p_{}", n) };
                for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &mut *t.pat { if p.ident == n { p.ident = r.to.clone(); } } } }
                r.visit_block_mut(b);
            }
            for a in sig.inputs.iter().rev() {
                if let FnArg::Typed(t) = a {
                    if let Pat::Ident(p) = &*t.pat { if p.mutability.is_none() && bound_mut(&t.ty) { let n = &p.ident; b.stmts.insert(0, parse_quote!(let mut #n = #n;)); } }
                }
            }
        });
    }
    let mut structs: Vec<(String, Vec<(String, String)>)> = vec![];
    for (_, _, f) in files.iter() {
        for i in &f.items {
            if let Item::Struct(s) = i {
                structs.push((s.ident.to_string(), s.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), ks(&f.ty))).collect()));
            }
        }
    }
    for (_, fs) in &structs {
        for (n, t) in fs {
            cx.fields.insert(n.clone(), t.clone());
            let t0 = t.strip_prefix("Arc<").unwrap_or(t);
            if t0.starts_with("RwLock<") || t0.starts_with("Mutex<") { cx.locks.insert(n.clone()); }
            if t0.starts_with("UnboundedSender<") { cx.senders.insert(n.clone()); }
        }
    }
    loop {
        let mut more = false;
        for (s, fs) in &structs {
            if cx.cells.contains(s) { continue; }
            if fs.iter().any(|(_, t)| mentions(t, "RwLock") || mentions(t, "Mutex") || mentions(t, "UnboundedSender") || cx.cells.iter().any(|c| mentions(t, c))) {
                cx.cells.insert(s.clone());
                more = true;
            }
        }
        if !more { break; }
    }
    for (_, fs) in &structs {
        for (n, t) in fs { if mentions(t, "HashMap") && cx.cells.iter().any(|c| mentions(t, c)) { cx.cell_maps.insert(n.clone()); } }
    }
    // guard accessors
    for (_, _, f) in files.iter() {
        for i in &f.items {
            if let Item::Impl(im) = i {
                for m in &im.items {
                    if let ImplItem::Fn(f) = m {
                        if ks(&f.sig.output).contains("Guard") && f.sig.inputs.len() == 1 && f.block.stmts.len() == 1 {
                            if let Stmt::Expr(e, None) = &f.block.stmts[0] { cx.accessors.insert(f.sig.ident.to_string(), e.clone()); }
                        }
                    }
                }
            }
        }
    }
    for (_, _, f) in files.iter_mut() {
        for i in &mut f.items {
            if let Item::Impl(im) = i { im.items.retain(|m| !matches!(m, ImplItem::Fn(f) if ks(&f.sig.output).contains("Guard") && cx.accessors.contains_key(&f.sig.ident.to_string()))); }
        }
    }
    // S4: names
    loop {
        let mut more = false;
        for (_, _, f) in files.iter_mut() {
            each_fn(f, &mut |sig, b| {
                if !writes(b, cx) { return; }
                let byref = sig.inputs.iter().any(|a| match a { FnArg::Receiver(r) => r.reference.is_some() && r.mutability.is_none(), FnArg::Typed(t) => is_cell_ref(&t.ty, cx) });
                if byref && cx.muts.insert(sig.ident.to_string()) { more = true; }
            });
        }
        if !more { break; }
    }
    // S3, S4, S5
    for (_, _, f) in files.iter_mut() {
        each_fn(f, &mut |sig, b| {
            let m = cx.muts.contains(&sig.ident.to_string()) || writes(b, cx);
            Places { cx, m, refs: m }.visit_block_mut(b);
            Entries { n: 0 }.visit_block_mut(b);
            if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
                if r.reference.is_none() && r.mutability.is_some() {
                    // `mut self`: a local of its own
                    r.mutability = None;
                    SelfSub(&parse_quote!(__self)).visit_block_mut(b);
                    b.stmts.insert(0, parse_quote!(let mut __self = self;));
                }
            }
            if ks(&sig.output).starts_with("->Result<") { Tries.visit_block_mut(b); }
            if m {
                for a in sig.inputs.iter_mut() {
                    match a {
                        FnArg::Receiver(r) => if r.reference.is_some() && r.mutability.is_none() {
                            r.mutability = Some(Default::default());
                            *r.ty = parse_quote!(&mut Self);
                        },
                        FnArg::Typed(t) => if is_cell_ref(&t.ty, cx) { if let Type::Reference(r) = &mut *t.ty { r.mutability = Some(Default::default()); } },
                    }
                }
            }
        });
        Types { cx, iters: vec![] }.visit_file_mut(f);
        Lits { n: 0 }.visit_file_mut(f);
    }
}

fn each_fn(f: &mut File, k: &mut dyn FnMut(&mut Signature, &mut Block)) {
    for i in &mut f.items {
        match i {
            Item::Fn(f) => k(&mut f.sig, &mut f.block),
            Item::Impl(im) => for m in &mut im.items { if let ImplItem::Fn(f) = m { k(&mut f.sig, &mut f.block); } },
            _ => (),
        }
    }
}

fn is_cell_ref(t: &Type, cx: &SeqCx) -> bool {
    if let Type::Reference(r) = t { if r.mutability.is_none() { let s = ks(&r.elem); return cx.cells.contains(&s); } }
    false
}

/// S9
struct Tries;
impl VisitMut for Tries {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) { }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(From::from(__e)), });
        }
    }
}

fn last_field(e: &Expr) -> Option<String> {
    match e {
        Expr::Field(f) => Some(f.member.to_token_stream().to_string()),
        Expr::Paren(p) => last_field(&p.expr),
        Expr::Reference(r) => last_field(&r.expr),
        Expr::Unary(u) => last_field(&u.expr),
        _ => None,
    }
}
fn is_lock_place(e: &Expr, cx: &SeqCx) -> bool { last_field(e).map(|f| cx.locks.contains(&f)).unwrap_or(false) }

struct Writes<'a> { cx: &'a SeqCx, found: bool }
impl VisitMut for Writes<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if n == "write" && m.args.is_empty() { self.found = true; }
            if self.cx.shared && n == "read" && m.args.is_empty() { self.found = true; }
            if n == "lock" && is_lock_place(&m.receiver, self.cx) { self.found = true; }
            if n == "send" && last_field(&m.receiver).map(|f| self.cx.senders.contains(&f)).unwrap_or(false) { self.found = true; }
            if self.cx.muts.contains(&n) { self.found = true; }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func { if let Some(s) = p.path.segments.last() { if self.cx.muts.contains(&s.ident.to_string()) { self.found = true; } } }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn writes(b: &Block, cx: &SeqCx) -> bool { let mut b = b.clone(); let mut w = Writes { cx, found: false }; w.visit_block_mut(&mut b); w.found }

/// replace `self` in an accessor
struct SelfSub<'a>(&'a Expr);
impl VisitMut for SelfSub<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = self.0.clone(); } }
    }
}
struct NameSub<'a> { name: &'a str, by: &'a Expr }
impl VisitMut for NameSub<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if matches!(&**expr, Expr::Path(p) if p.path.is_ident(self.name)) { *e = self.by.clone(); return; }
        }
        if let Expr::Call(c) = e {
            if ks(&c.func).ends_with("drop") && c.args.len() == 1 && matches!(&c.args[0], Expr::Path(p) if p.path.is_ident(self.name)) { *e = parse_quote!(()); return; }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e { if p.path.is_ident(self.name) { *e = self.by.clone(); } }
    }
}

/// S3 and the part of S4 inside bodies
struct Places<'a> { cx: &'a SeqCx, m: bool, refs: bool }
impl Places<'_> {
    fn guard(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) if m.args.is_empty() => {
                let n = m.method.to_string();
                if matches!(n.as_str(), "read" | "write" | "lock" | "try_read" | "try_write") && is_lock_place(&m.receiver, self.cx) {
                    let r = &m.receiver;
                    return Some(if self.cx.shared { parse_quote!(#r.v_acq()) } else { (**r).clone() });
                }
                if let Some(a) = self.cx.accessors.get(&n) {
                    let mut a = a.clone();
                    SelfSub(&m.receiver).visit_expr_mut(&mut a);
                    return self.guard(&a).or(Some(a));
                }
                None
            }
            Expr::Paren(p) => self.guard(&p.expr),
            Expr::Field(f) => { let b = self.guard(&f.base)?; let mut f = f.clone(); f.base = Box::new(b); Some(Expr::Field(f)) }
            _ => None,
        }
    }
}
impl VisitMut for Places<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut hit = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if self.cx.shared { } else if let Some(place) = self.guard(&init.expr) { hit = Some((p.ident.to_string(), place)); }
                }
            }
            if let Some((name, mut place)) = hit {
                self.visit_expr_mut(&mut place);
                b.stmts.remove(i);
                let mut s = NameSub { name: &name, by: &place };
                for st in b.stmts[i..].iter_mut() { s.visit_stmt_mut(st); }
            } else { i += 1; }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        while let Some(p) = self.guard(e) { *e = p; }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if self.m && m.method == "get" => {
                if last_field(&m.receiver).map(|f| self.cx.cell_maps.contains(&f)).unwrap_or(false) { m.method = format_ident!("get_mut"); }
            }
            // lookups of lock-holding values borrow the place they are in
            Expr::Closure(c) if self.refs => {
                for p in c.inputs.iter_mut() {
                    if let Pat::Type(t) = p { if is_cell_ref(&t.ty, self.cx) { if let Type::Reference(r) = &mut *t.ty { r.mutability = Some(Default::default()); } } }
                }
            }
            Expr::Call(c) if matches!(ks(&c.func).as_str(), "RwLock::new" | "Mutex::new") && c.args.len() == 1 && !self.cx.shared => { let x = &c.args[0]; *e = parse_quote!((#x)); }
            // an `Arc` around a lock, or around what holds one: S2
            Expr::Call(c) if ks(&c.func) == "Arc::new" && c.args.len() == 1 => {
                let of_cell = match &c.args[0] {
                    Expr::Paren(_) => true,
                    Expr::Call(x) => match &*x.func { Expr::Path(p) if p.path.segments.len() == 2 => self.cx.cells.contains(&p.path.segments[0].ident.to_string()), _ => false },
                    Expr::Struct(x) => x.path.segments.len() == 1 && self.cx.cells.contains(&x.path.segments[0].ident.to_string()),
                    _ => false,
                };
                if of_cell { let x = &c.args[0]; *e = parse_quote!(#x); }
            }
            _ => (),
        }
    }
}

/// S5
struct Entries { n: usize }
struct EntrySub { name: String, map: Expr, key: Ident, occ: bool }
impl VisitMut for EntrySub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(&self.name)) {
                let (map, key, a) = (&self.map, &self.key, &m.args);
                match (m.method.to_string().as_str(), self.occ) {
                    ("insert", false) => *e = parse_quote!(#map.v_insert_ref(#key.clone(), #a)),
                    ("insert", true) => *e = parse_quote!(#map.v_replace(#key.clone(), #a)),
                    ("get", true) => *e = parse_quote!(#map.v_at(&#key)),
                    ("get_mut" | "into_mut", true) => *e = parse_quote!(#map.v_at_mut(&#key)),
                    ("remove", true) => *e = parse_quote!(#map.v_remove(&#key)),
                    ("key", _) => *e = parse_quote!((&#key)),
                    _ => (),
                }
            }
        }
    }
}
fn entry_call(e: &Expr) -> Option<(Expr, Expr)> {
    if let Expr::MethodCall(m) = e { if m.method == "entry" && m.args.len() == 1 { return Some(((*m.receiver).clone(), m.args[0].clone())); } }
    None
}
fn entry_pat(p: &Pat) -> Option<(bool, Option<String>)> {
    if let Pat::TupleStruct(t) = p {
        let n = t.path.segments.last()?.ident.to_string();
        if t.elems.len() != 1 { return None; }
        let v = match &t.elems[0] { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Wild(_) => None, _ => return None };
        match n.as_str() { "Occupied" => Some((true, v)), "Vacant" => Some((false, v)), _ => None }
    } else { None }
}
impl VisitMut for Entries {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut arms: Vec<(bool, Option<String>, Expr)> = vec![];
        let mut ent = None;
        match e {
            Expr::Match(m) => {
                if let Some(x) = entry_call(&m.expr) {
                    for a in &m.arms {
                        if a.guard.is_some() { return; }
                        match entry_pat(&a.pat) {
                            Some((o, n)) => arms.push((o, n, (*a.body).clone())),
                            None if matches!(a.pat, Pat::Wild(_)) && arms.len() == 1 => { let o = !arms[0].0; arms.push((o, None, (*a.body).clone())) }
                            None => return,
                        }
                    }
                    if arms.len() == 2 && arms[0].0 != arms[1].0 { ent = Some(x); }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    if let (Some(x), Some((o, n))) = (entry_call(&l.expr), entry_pat(&l.pat)) {
                        let th = &i.then_branch;
                        let th: Expr = parse_quote!(#th);
                        let el: Expr = match &i.else_branch { Some((_, e)) => (**e).clone(), None => parse_quote!({}) };
                        arms.push((o, n, th));
                        arms.push((!o, None, el));
                        ent = Some(x);
                    }
                }
            }
            Expr::MethodCall(m) => {
                // m.entry(k).or_insert(v) and friends
                let name = m.method.to_string();
                if let Some((map, key)) = entry_call(&m.receiver) {
                    let k = format_ident!("__k{}", self.n);
                    self.n += 1;
                    let v: Option<Expr> = match (name.as_str(), m.args.len()) {
                        ("or_insert", 1) => { let a = &m.args[0]; Some(parse_quote!(#a)) }
                        ("or_default", 0) => Some(parse_quote!(v_default())),
                        ("or_insert_with", 1) => match &m.args[0] {
                            Expr::Closure(c) if c.inputs.is_empty() => Some((*c.body).clone()),
                            f => Some(parse_quote!(#f())),
                        },
                        _ => None,
                    };
                    if let Some(v) = v { *e = parse_quote!({ let #k = #key; #map.v_or_insert(#k, #v) }); }
                }
                return;
            }
            _ => return,
        }
        if let Some((mut map, key)) = ent {
            let k = format_ident!("__k{}", self.n);
            self.n += 1;
            let (mut occ, mut vac): (Expr, Expr) = (parse_quote!({}), parse_quote!({}));
            // a lock is taken once
            let hold: Option<Stmt> = if ks(&map).contains(".v_acq()") { let g = format_ident!("__g{}", self.n); let s = parse_quote!(let mut #g = #map;); map = parse_quote!(#g); Some(s) } else { None };
            for (o, n, mut b) in arms {
                if let Some(n) = n { EntrySub { name: n, map: map.clone(), key: k.clone(), occ: o }.visit_expr_mut(&mut b); }
                if o { occ = b } else { vac = b }
            }
            *e = parse_quote!({ #hold let #k = #key; if #map.contains_key(&#k) { #occ } else { #vac } });
        }
    }
}

/// S2 and S7
struct Types<'a> { cx: &'a SeqCx, iters: Vec<String> }
fn str_iter(bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> bool {
    bounds.iter().any(|b| { let s = ks(b); s.starts_with("Iterator<Item=&") && s.contains("str>") })
}
impl VisitMut for Types<'_> {
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        let mut names = vec![];
        for p in s.generics.type_params() { if str_iter(&p.bounds) { names.push(p.ident.to_string()); } }
        if let Some(w) = &mut s.generics.where_clause {
            let mut keep = punctuated::Punctuated::new();
            for p in w.predicates.iter() {
                match p {
                    WherePredicate::Type(t) if str_iter(&t.bounds) => names.push(ks(&t.bounded_ty)),
                    p => keep.push(p.clone()),
                }
            }
            w.predicates = keep;
        }
        if s.generics.where_clause.as_ref().map(|w| w.predicates.is_empty()).unwrap_or(false) { s.generics.where_clause = None; }
        if !names.is_empty() {
            let ps: Vec<GenericParam> = s.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if names.contains(&t.ident.to_string()))).cloned().collect();
            s.generics.params = ps.into_iter().collect();
        }
        let old = std::mem::replace(&mut self.iters, names);
        visit_mut::visit_signature_mut(self, s);
        self.iters = old;
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let s = ks(t);
        if self.iters.contains(&s) { *t = parse_quote!(VStrs<'a>); return; }
        match t {
            Type::ImplTrait(i) => {
                if str_iter(&i.bounds) { *t = if s.contains("'a") { parse_quote!(VStrs<'a>) } else { parse_quote!(VStrs<'_>) }; return; }
                // only the call itself is left of `FnOnce(..) -> BoxFuture<..> + Send + 'x`
                let b: Vec<TypeParamBound> = i.bounds.iter().filter(|b| { let s = ks(b); s.starts_with("Fn") }).cloned().collect();
                if b.len() == 1 {
                    let mut b = b[0].clone();
                    if let TypeParamBound::Trait(tb) = &mut b {
                        if let Some(seg) = tb.path.segments.last_mut() {
                            if let PathArguments::Parenthesized(p) = &mut seg.arguments {
                                for a in p.inputs.iter_mut() { if is_cell_ref(a, self.cx) { if let Type::Reference(r) = a { r.mutability = Some(Default::default()); } } }
                                if ks(&p.output).contains("BoxFuture<()>") || ks(&p.output).contains("BoxFuture<'_,()>") { p.output = ReturnType::Default; }
                            }
                        }
                    }
                    *t = parse_quote!(impl #b);
                }
            }
            Type::Path(p) => {
                let seg = match p.path.segments.last() { Some(s) => s, None => return };
                let n = seg.ident.to_string();
                let arg = match &seg.arguments { PathArguments::AngleBracketed(a) => a.args.iter().find_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }), _ => None };
                if let Some(a) = arg {
                    if n == "BoxFuture" || !self.cx.shared && (n == "RwLock" || n == "Mutex") { *t = a; return; }
                    if n == "Arc" {
                        let s = ks(&a);
                        if self.cx.cells.contains(&s) || s.starts_with("HashMap<") { *t = a; }
                    }
                }
            }
            _ => (),
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "split" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) {
                    let (r, a) = (&m.receiver, &m.args);
                    *e = parse_quote!(v_split(#r, #a));
                } else if n == "parse" && m.args.is_empty() && m.turbofish.is_none() {
                    m.method = format_ident!("v_parse");
                } else if n == "chain" && m.args.len() == 1 {
                    if let Expr::Call(c) = &*m.receiver {
                        if ks(&c.func).ends_with("once") && c.args.len() == 1 {
                            let (x, y) = (&c.args[0], &m.args[0]);
                            *e = parse_quote!(v_once_chain(#x, #y));
                        }
                    }
                }
            }
            _ => (),
        }
    }
}

/// S6
struct Lits { n: usize }
struct LitPats<'a> { n: &'a mut usize, conds: Vec<(Ident, Lit)> }
impl VisitMut for LitPats<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Lit(l) = p {
            if matches!(l.lit, Lit::Str(_)) {
                let v = format_ident!("__s{}", *self.n);
                *self.n += 1;
                self.conds.push((v.clone(), l.lit.clone()));
                *p = parse_quote!(#v);
            }
        }
    }
}
impl VisitMut for Lits {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if matches!(a.pat, Pat::Or(_)) { return; }
        let mut v = LitPats { n: &mut self.n, conds: vec![] };
        v.visit_pat_mut(&mut a.pat);
        let mut t = quote!();
        for (i, (x, l)) in v.conds.iter().enumerate() { if i > 0 { t.extend(quote!(&&)); } t.extend(quote!(v_str_eq(#x, #l))); }
        if !v.conds.is_empty() {
            let g: Expr = match &a.guard { Some((_, g)) => parse_quote!((#t) && (#g)), None => parse_quote!(#t) };
            a.guard = Some((Default::default(), Box::new(g)));
        }
    }
}
