//! REWRITES: the token-level changes applied to the bodies of the functions of /repo.
//!
//!  R1  `#[cfg(test)]`, `#[cfg(feature = "debug")]`, documentation, `use`, formatting impls: dropped
//!  R2  tracing macros (trace!, info!, warn!, error!): replaced by `()`
//!  R3  panic!/unreachable!/unimplemented!/todo!: call of `v_panic`, whose precondition is `false`
//!  R4  `a op= b`: `a = a op (b)`
//!  R5  `.await`, `async`: dropped (sequential reading)
//!  R6  Option/Result combinators with a closure: the `match` they stand for
//!  R7  iterator chains, `for` loops: index loops over the sequence of elements
//!  R8  `match` on associated constants: chain of `==` tests
//!  R9  `Arc::from(x)`, `std::str::from_utf8(x)`, `x.chars()`, `x.len()`: named stand-ins
//!  R10 everything is made `pub`
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Cx {
    pub bitflags: BTreeSet<String>,
    /// functions by name and by `Type::name`: whether they return a `Result` (1), something else (2) or both (3)
    pub results: std::collections::BTreeMap<String, u8>,
}
impl Cx {
    fn sig(&mut self, ty: &str, s: &Signature) {
        let r = match &s.output { ReturnType::Type(_, t) => matches!(&**t, Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Result").unwrap_or(false)), _ => false };
        let b = if r { 1 } else { 2 };
        let n = s.ident.to_string();
        if !ty.is_empty() { *self.results.entry(format!("{ty}::{n}")).or_default() |= b; }
        *self.results.entry(n).or_default() |= b;
    }
    /// does the expression give a `Result`, as far as names tell
    pub fn is_result(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_result(&p.expr),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let q = if s.len() > 1 { s[s.len() - 2..].join("::") } else { s.join("::") };
                    self.results.get(&q).or_else(|| self.results.get(s.last().unwrap())).copied() == Some(1)
                }
                _ => false,
            },
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "ok_or" | "ok_or_else" | "map_err" | "try_into" => true,
                n => self.results.get(n).copied() == Some(1),
            },
            _ => false,
        }
    }
}

pub fn cfg_active(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if !eval_cfg(l.tokens.clone()) { return false; }
            }
        }
    }
    true
}
fn eval_cfg(t: TokenStream) -> bool {
    let s: String = t.to_string().chars().filter(|c| !c.is_whitespace()).collect();
    match s.as_str() {
        "test" => false,
        "feature=\"debug\"" => false,
        "feature=\"noise\"" => true,
        "not(test)" => true,
        "not(feature=\"noise\")" => false,
        "not(feature=\"debug\")" => true,
        _ => false,
    }
}

pub struct BitflagsDef { pub name: String, pub repr: String, pub consts: Vec<(String, u128)> }

pub fn parse_bitflags(m: &Macro) -> Result<Vec<BitflagsDef>> {
    use syn::parse::Parser;
    let parser = |input: syn::parse::ParseStream| -> Result<Vec<BitflagsDef>> {
        let mut v = Vec::new();
        while !input.is_empty() {
            let _ = input.call(Attribute::parse_outer)?;
            let _: Visibility = input.parse()?;
            let _: Token![struct] = input.parse()?;
            let name: Ident = input.parse()?;
            let _: Token![:] = input.parse()?;
            let repr: Ident = input.parse()?;
            let content;
            braced!(content in input);
            let mut consts: Vec<(String, u128)> = Vec::new();
            while !content.is_empty() {
                let _ = content.call(Attribute::parse_outer)?;
                let _: Token![const] = content.parse()?;
                let n: Ident = content.parse()?;
                let _: Token![=] = content.parse()?;
                let e: Expr = content.parse()?;
                let _: Token![;] = content.parse()?;
                let v = eval_const(&e, &consts).ok_or_else(|| Error::new(n.span(), "bitflags constant"))?;
                consts.push((n.to_string(), v));
            }
            v.push(BitflagsDef { name: name.to_string(), repr: repr.to_string(), consts });
        }
        Ok(v)
    };
    parser.parse2(m.tokens.clone())
}
fn eval_const(e: &Expr, prev: &[(String, u128)]) -> Option<u128> {
    match e {
        Expr::Lit(l) => if let Lit::Int(i) = &l.lit { i.base10_parse().ok() } else { None },
        Expr::Paren(p) => eval_const(&p.expr, prev),
        Expr::Binary(b) => {
            let (x, y) = (eval_const(&b.left, prev)?, eval_const(&b.right, prev)?);
            match b.op { BinOp::BitOr(_) => Some(x | y), BinOp::Shl(_) => Some(x << y), BinOp::BitAnd(_) => Some(x & y), BinOp::Add(_) => Some(x + y), _ => None }
        }
        Expr::Field(f) => {
            // Self::A.bits
            if let Expr::Path(p) = &*f.base {
                let n = p.path.segments.last()?.ident.to_string();
                prev.iter().find(|c| c.0 == n).map(|c| c.1)
            } else { None }
        }
        _ => None,
    }
}

pub fn collect(items: &[Item], cx: &mut Cx) -> std::result::Result<(), String> {
    for i in items {
        if let Item::Macro(m) = i {
            if m.mac.path.is_ident("bitflags") {
                for b in parse_bitflags(&m.mac).map_err(|e| e.to_string())? { cx.bitflags.insert(b.name); }
            }
        }
        match i {
            Item::Fn(f) => cx.sig("", &f.sig),
            Item::Impl(m) => {
                let ty = match &*m.self_ty { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), _ => String::new() };
                for x in &m.items { if let ImplItem::Fn(f) = x { cx.sig(&ty, &f.sig); } }
            }
            Item::Trait(t) => for x in &t.items { if let TraitItem::Fn(f) = x { cx.sig(&t.ident.to_string(), &f.sig); } },
            _ => (),
        }
    }
    Ok(())
}

pub struct Rw<'a> {
    pub cx: &'a Cx,
    pub n: usize,
    pub notes: Vec<String>,
}

fn id(s: &str, n: usize) -> Ident { format_ident!("{}{}", s, n) }

fn mac_name(m: &Macro) -> String { m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

fn is_tracing(m: &Macro) -> bool {
    matches!(mac_name(m).as_str(), "trace" | "debug" | "info" | "warn" | "error" | "println" | "eprintln")
}

/// is this method chain an iterator (as opposed to an Option or Result)?
pub fn is_iter_chain(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "iter" | "v_iter" | "v_chars" | "chars" | "keys" | "values" | "into_iter" | "v_into" | "split" | "bytes" | "iter_mut" => true,
            "map" | "cloned" | "copied" | "filter" | "flatten" | "skip" | "rev" | "enumerate" | "peekable" | "flat_map" => is_iter_chain(&m.receiver),
            _ => false,
        },
        Expr::Paren(p) => is_iter_chain(&p.expr),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("v_chars")),
        _ => false,
    }
}

enum Step { Map(Box<ExprClosure>), Filter(Box<ExprClosure>), Flatten, FlatMap(Box<ExprClosure>), Cloned }

fn closure1(e: &Expr) -> Option<Box<ExprClosure>> {
    if let Expr::Closure(c) = e { if c.inputs.len() == 1 { return Some(Box::new(c.clone())); } }
    None
}

fn strip_ty(p: &Pat) -> Pat { if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() } }

impl<'a> Rw<'a> {
    fn next(&mut self) -> usize { self.n += 1; self.n - 1 }

    /// the base sequence and the steps of an iterator chain, already rewritten
    fn chain(e: &Expr) -> Option<(Expr, Vec<Step>)> {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "map" if m.args.len() == 1 && is_iter_chain(&m.receiver) => {
                        let (b, mut s) = Self::chain(&m.receiver)?;
                        s.push(Step::Map(closure1(&m.args[0])?));
                        Some((b, s))
                    }
                    "filter" if m.args.len() == 1 => { let (b, mut s) = Self::chain(&m.receiver)?; s.push(Step::Filter(closure1(&m.args[0])?)); Some((b, s)) }
                    "flat_map" if m.args.len() == 1 => { let (b, mut s) = Self::chain(&m.receiver)?; s.push(Step::FlatMap(closure1(&m.args[0])?)); Some((b, s)) }
                    "flatten" => { let (b, mut s) = Self::chain(&m.receiver)?; s.push(Step::Flatten); Some((b, s)) }
                    "cloned" | "copied" if is_iter_chain(&m.receiver) => { let (b, mut s) = Self::chain(&m.receiver)?; s.push(Step::Cloned); Some((b, s)) }
                    "iter" | "v_iter" | "keys" | "values" => {
                        let mut m = m.clone();
                        if name == "iter" { m.method = Ident::new("v_iter", Span::call_site()); }
                        if name == "keys" { m.method = Ident::new("v_keys", Span::call_site()); }
                        if name == "values" { m.method = Ident::new("v_values", Span::call_site()); }
                        Some((Expr::MethodCall(m), vec![]))
                    }
                    "chars" | "v_chars" => {
                        let r = &m.receiver;
                        Some((parse_quote!(v_chars_vec(#r)), vec![]))
                    }
                    "into_iter" => { let r = &m.receiver; Some((parse_quote!((#r).v_into()), vec![])) }
                    _ => None,
                }
            }
            Expr::Paren(p) => Self::chain(&p.expr),
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("v_chars")) => {
                let r = &c.args[0];
                Some((parse_quote!(v_chars_vec(#r)), vec![]))
            }
            _ => None,
        }
    }

    /// a loop over `base` that runs `sink(elem)` for every element that comes out of the steps
    fn run_chain(&mut self, base: Expr, steps: &[Step], sink: &mut dyn FnMut(&mut Self, TokenStream) -> TokenStream) -> TokenStream {
        let k = self.next();
        let (it, i, x) = (id("__it", k), id("__i", k), id("__x", k));
        let inner = self.run_steps(quote!(#x), steps, sink);
        quote! {
            let #it = #base;
            let mut #i: usize = 0;
            while #i < #it.len() {
                let #x = v_elem(&#it, #i);
                #inner
                #i = #i + 1;
            }
        }
    }
    fn run_steps(&mut self, x: TokenStream, steps: &[Step], sink: &mut dyn FnMut(&mut Self, TokenStream) -> TokenStream) -> TokenStream {
        match steps.first() {
            None => sink(self, x),
            Some(Step::Map(c)) | Some(Step::FlatMap(c)) => {
                let p = strip_ty(&c.inputs[0]);
                let body = &c.body;
                let flat = matches!(steps[0], Step::FlatMap(_));
                let then_flat = flat || matches!(steps.get(1), Some(Step::Flatten));
                if then_flat {
                    let rest = if flat { &steps[1..] } else { &steps[2..] };
                    if let Some((b, s)) = Self::chain(body) {
                        let mut all: Vec<Step> = s;
                        for r in rest { all.push(clone_step(r)); }
                        let inner = self.run_chain(b, &all, sink);
                        return quote! { let #p = #x; #inner };
                    }
                    let inner = self.run_chain((**body).clone(), rest, sink);
                    return quote! { let #p = #x; #inner };
                }
                let k = self.next();
                let y = id("__y", k);
                let inner = self.run_steps(quote!(#y), &steps[1..], sink);
                quote! { let #p = #x; let #y = #body; #inner }
            }
            Some(Step::Filter(c)) => {
                let p = strip_ty(&c.inputs[0]);
                let body = &c.body;
                let inner = self.run_steps(x.clone(), &steps[1..], sink);
                quote! { let #p = &#x; if #body { #inner } }
            }
            Some(Step::Flatten) => {
                let inner_base: Expr = parse_quote!((#x).v_iter());
                self.run_chain(inner_base, &steps[1..], sink)
            }
            Some(Step::Cloned) => {
                let k = self.next();
                let y = id("__y", k);
                let inner = self.run_steps(quote!(#y), &steps[1..], sink);
                quote! { let #y = (#x).clone(); #inner }
            }
        }
    }

    fn to_vec(&mut self, base: Expr, steps: &[Step]) -> Expr {
        if steps.is_empty() { return base; }
        let k = self.next();
        let acc = id("__acc", k);
        let body = self.run_chain(base, steps, &mut |_, x| quote!(#acc.push(#x);));
        parse_quote!({ let mut #acc = Vec::new(); #body #acc })
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        match (name.as_str(), m.args.len()) {
            ("map", 1) if self.cx.is_result(r) => {
                if let Expr::Closure(c) = &m.args[0] {
                    let p = strip_ty(c.inputs.first()?);
                    let body = &c.body;
                    return Some(parse_quote!(match #r { Ok(#p) => Ok(#body), Err(__e) => Err(__e) }));
                }
                if let Expr::Path(f) = &m.args[0] {
                    return Some(parse_quote!(match #r { Ok(__x) => Ok(#f(__x)), Err(__e) => Err(__e) }));
                }
                None
            }
            ("map", 1) if !is_iter_chain(r) => {
                if let Expr::Closure(c) = &m.args[0] {
                    let p = strip_ty(c.inputs.first()?);
                    let body = &c.body;
                    return Some(parse_quote!(match #r { Some(#p) => Some(#body), None => None }));
                }
                if let Expr::Path(f) = &m.args[0] {
                    return Some(parse_quote!(match #r { Some(__x) => Some(#f(__x)), None => None }));
                }
                None
            }
            ("map_err", 1) => {
                let c = closure1(&m.args[0])?;
                let p = strip_ty(&c.inputs[0]);
                let body = &c.body;
                Some(parse_quote!(match #r { Ok(__x) => Ok(__x), Err(#p) => Err(#body) }))
            }
            ("unwrap_or_else", 1) => {
                if let Expr::Closure(c) = &m.args[0] {
                    let body = &c.body;
                    if c.inputs.is_empty() {
                        return Some(parse_quote!(match #r { Some(__x) => __x, None => #body }));
                    }
                }
                None
            }
            ("map_or", 2) => {
                let d = &m.args[0];
                let c = closure1(&m.args[1])?;
                let p = strip_ty(&c.inputs[0]);
                let body = &c.body;
                Some(parse_quote!(match #r { Some(#p) => #body, None => #d }))
            }
            ("and_then", 1) => {
                let c = closure1(&m.args[0])?;
                let p = strip_ty(&c.inputs[0]);
                let body = &c.body;
                Some(parse_quote!(match #r { Some(#p) => #body, None => None }))
            }
            ("is_some_and", 1) => {
                let c = closure1(&m.args[0])?;
                let p = strip_ty(&c.inputs[0]);
                let body = &c.body;
                Some(parse_quote!(match #r { Some(#p) => #body, None => false }))
            }
            ("ok_or_else", 1) => {
                if let Expr::Closure(c) = &m.args[0] {
                    let body = &c.body;
                    return Some(parse_quote!(match #r { Some(__x) => Ok(__x), None => Err(#body) }));
                }
                None
            }
            ("find", 1) if !is_iter_chain(r) => {
                // str::find with a predicate; the position is not modelled, only whether there is one
                let c = closure1(&m.args[0])?;
                Some(self.search(parse_quote!(v_chars_vec(&#r)), &c, quote!(None), |x| quote!(Some(#x)), true))
            }
            ("any", 1) => {
                let c = closure1(&m.args[0])?;
                let (b, s) = Self::chain(r)?;
                let b = self.to_vec(b, &s);
                Some(self.search(b, &c, quote!(false), |_| quote!(true), false))
            }
            ("all", 1) => {
                let mut c = closure1(&m.args[0])?;
                let body = c.body.clone();
                c.body = parse_quote!(!(#body));
                let (b, s) = Self::chain(r)?;
                let b = self.to_vec(b, &s);
                Some(self.search(b, &c, quote!(true), |_| quote!(false), false))
            }
            ("sum", 0) => {
                let (b, s) = Self::chain(r)?;
                let k = self.next();
                let acc = id("__acc", k);
                let body = self.run_chain(b, &s, &mut |_, x| quote!(#acc = #acc + (#x);));
                Some(parse_quote!({ let mut #acc: usize = 0; #body #acc }))
            }
            ("fold", 2) => {
                let init = &m.args[0];
                if let Expr::Closure(c) = &m.args[1] {
                    if c.inputs.len() != 2 { return None; }
                    let (a, p) = (strip_ty(&c.inputs[0]), strip_ty(&c.inputs[1]));
                    let f = &c.body;
                    let (b, s) = Self::chain(r)?;
                    let k = self.next();
                    let acc = id("__acc", k);
                    let body = self.run_chain(b, &s, &mut |_, x| quote!(let #p = #x; let #a = #acc; #acc = (#f);));
                    return Some(parse_quote!({ let mut #acc = #init; #body #acc }));
                }
                None
            }
            ("count", 0) => {
                let (b, s) = Self::chain(r)?;
                let v = self.to_vec(b, &s);
                Some(parse_quote!((#v).len()))
            }
            ("collect", 0) => {
                let (b, s) = Self::chain(r)?;
                Some(self.to_vec(b, &s))
            }
            ("for_each", 1) => {
                let c = closure1(&m.args[0])?;
                let (b, s) = Self::chain(r)?;
                let p = strip_ty(&c.inputs[0]);
                let f = &c.body;
                let body = self.run_chain(b, &s, &mut |_, x| quote!(let #p = #x; #f;));
                Some(parse_quote!({ #body }))
            }
            ("iter", 0) => { let mut m = m.clone(); m.method = Ident::new("v_iter", Span::call_site()); Some(Expr::MethodCall(m)) }
            ("len", 0) => { let mut m = m.clone(); m.method = Ident::new("v_len", Span::call_site()); Some(Expr::MethodCall(m)) }
            ("chars", 0) => { Some(parse_quote!(v_chars(&#r))) }
            // both this crate's trait and std's are in scope: name the one meant
            ("into", 0) => Some(parse_quote!(Into::into(#r))),
            ("try_into", 0) => Some(parse_quote!(TryInto::v_try_into(#r))),
            ("contains", 1) => {
                if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = &**r {
                    let a = &m.args[0];
                    return Some(parse_quote!(v_str_contains(#r, #a)));
                }
                None
            }
            _ => None,
        }
    }

    fn search(&mut self, base: Expr, c: &ExprClosure, init: TokenStream, hit: impl Fn(TokenStream) -> TokenStream, by_value: bool) -> Expr {
        let k = self.next();
        let (it, i, acc, x) = (id("__it", k), id("__i", k), id("__acc", k), id("__x", k));
        let p = strip_ty(&c.inputs[0]);
        let body = &c.body;
        let _ = by_value;
        let h = hit(quote!(#i));
        parse_quote!({
            let #it = #base;
            let mut #i: usize = 0;
            let mut #acc = #init;
            while #i < #it.len() {
                let #x = v_elem(&#it, #i);
                let #p = #x;
                if #body { #acc = #h; break; }
                #i = #i + 1;
            }
            #acc
        })
    }

    fn const_pat(&self, p: &Pat) -> bool {
        match p {
            Pat::Path(p) => {
                let s = &p.path.segments;
                s.len() == 2 && self.cx.bitflags.contains(&s[0].ident.to_string())
            }
            Pat::Or(o) => o.cases.iter().any(|c| self.const_pat(c)),
            _ => false,
        }
    }
    fn pat_cond(p: &Pat, m: &Ident) -> Option<TokenStream> {
        match p {
            Pat::Path(p) => Some(quote!(#m == #p)),
            Pat::Or(o) => {
                let mut t = TokenStream::new();
                for (i, c) in o.cases.iter().enumerate() {
                    let c = Self::pat_cond(c, m)?;
                    if i > 0 { t.extend(quote!(||)); }
                    t.extend(c);
                }
                Some(quote!((#t)))
            }
            Pat::Wild(_) => None,
            _ => None,
        }
    }
}

fn clone_step(s: &Step) -> Step {
    match s { Step::Map(c) => Step::Map(c.clone()), Step::Filter(c) => Step::Filter(c.clone()), Step::Flatten => Step::Flatten, Step::FlatMap(c) => Step::FlatMap(c.clone()), Step::Cloned => Step::Cloned }
}

fn strip_path(p: &mut Path) {
    // `super::x::Y` and `crate::x::Y` live in one flat namespace; `std::collections::X` is a stand-in
    let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
    if p.segments.len() > 1 && (first == "super" || first == "crate") {
        let n = p.segments.len();
        // keep `Type::assoc`
        let keep = if n >= 3 && p.segments[n - 2].ident.to_string().chars().next().map(|c| c.is_uppercase()).unwrap_or(false) { 2 } else { 1 };
        let segs: Vec<_> = p.segments.iter().skip(n - keep).cloned().collect();
        p.segments = segs.into_iter().collect();
        p.leading_colon = None;
    }
    let strs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let full = strs.join("::");
    for (pre, _) in [("std::collections::hash_map::", 0), ("std::collections::", 0), ("std::sync::", 0), ("std::convert::", 0), ("bytes::", 0)] {
        if full.starts_with(pre) {
            let k = pre.matches("::").count();
            let segs: Vec<_> = p.segments.iter().skip(k).cloned().collect();
            p.segments = segs.into_iter().collect();
            break;
        }
    }
    if full == "io::Error" || full == "std::io::Error" { *p = parse_quote!(IoError); }
    if full == "snow::Error" { *p = parse_quote!(SnowError); }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        strip_path(p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::ImplTrait(i) = t {
            for b in &i.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let seg = tb.path.segments.last().unwrap();
                    if seg.ident == "Iterator" || seg.ident == "IntoIterator" || seg.ident == "ExactSizeIterator" || seg.ident == "DoubleEndedIterator" {
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            for g in &a.args {
                                if let GenericArgument::AssocType(x) = g {
                                    if x.ident == "Item" { let ty = &x.ty; *t = parse_quote!(Vec<#ty>); return; }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // R1, R2
        let mut out = Vec::new();
        for s in b.stmts.drain(..) {
            match &s {
                Stmt::Macro(m) if is_tracing(&m.mac) => {
                    if m.semi_token.is_none() { out.push(Stmt::Expr(parse_quote!(()), None)); }
                    continue;
                }
                Stmt::Macro(m) if mac_name(&m.mac).starts_with("debug_assert") => { let _ = m; continue; }
                Stmt::Macro(m) => {
                    out.push(Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), m.semi_token));
                    continue;
                }
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Local(l) if !cfg_active(&l.attrs) => continue,
                Stmt::Expr(e, _) if !cfg_active(expr_attrs(e)) => continue,
                _ => (),
            }
            let mut s = s;
            match &mut s {
                Stmt::Local(l) => l.attrs.clear(),
                Stmt::Expr(e, semi) => {
                    strip_attrs(e);
                    // an `if` statement needs no semicolon after the cfg attribute is gone
                    let _ = semi;
                }
                _ => (),
            }
            out.push(s);
        }
        b.stmts = out;
        // let data = &[..][..];
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(l) = &mut b.stmts[i] {
                if let Some(init) = &mut l.init {
                    if let Expr::Reference(r) = &*init.expr {
                        if let Expr::Index(ix) = &*r.expr {
                            if matches!(&*ix.index, Expr::Range(g) if g.start.is_none() && g.end.is_none()) {
                                if let Expr::Array(a) = &*ix.expr {
                                    let k = self.next();
                                    let n = id("__arr", k);
                                    let a = a.clone();
                                    *init.expr = parse_quote!(v_arr_slice(&#n));
                                    let st: Stmt = parse_quote!(let #n = #a;);
                                    b.stmts.insert(i, st);
                                    i += 1;
                                }
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // constant patterns first: the patterns must still be paths
        if let Expr::Match(m) = e {
            m.arms.retain(|a| cfg_active(&a.attrs));
            for a in &mut m.arms { a.attrs.clear(); }
            if m.arms.iter().any(|a| self.const_pat(&a.pat)) {
                let k = self.next();
                let mv = id("__m", k);
                let scrut = &m.expr;
                let mut chain: Option<TokenStream> = None;
                let mut conds: Vec<(TokenStream, Expr)> = Vec::new();
                for a in &m.arms {
                    match Self::pat_cond(&a.pat, &mv) {
                        Some(mut c) => {
                            if let Some((_, g)) = &a.guard { c = quote!((#c) && (#g)); }
                            conds.push((c, (*a.body).clone()));
                        }
                        None => {
                            let b = &a.body;
                            if let Some((_, g)) = &a.guard {
                                conds.push((quote!((#g)), (**b).clone()));
                            } else {
                                chain = Some(quote!({ #b }));
                            }
                        }
                    }
                }
                let mut t = chain.unwrap_or(quote!({ unreachable!() }));
                for (c, b) in conds.into_iter().rev() {
                    t = quote!(if #c { #b } else #t);
                    t = quote!({ #t });
                }
                *e = parse_quote!({ let #mv = #scrut; #t });
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Macro(m) => {
                let name = mac_name(&m.mac);
                if is_tracing(&m.mac) {
                    *e = parse_quote!(());
                } else if matches!(name.as_str(), "unreachable" | "panic" | "unimplemented" | "todo") {
                    *e = parse_quote!(v_panic());
                } else if name == "format" {
                    *e = parse_quote!(v_format());
                } else if name == "assert" {
                    if let Ok(x) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        if let Some(c) = x.first() { *e = parse_quote!(v_assert(#c)); }
                    }
                } else if name == "assert_eq" {
                    if let Ok(x) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        if x.len() >= 2 { let (a, b) = (&x[0], &x[1]); *e = parse_quote!(v_assert(#a == #b)); }
                    }
                } else if name == "vec" {
                    if let Ok(x) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let mut x = x;
                        for y in x.iter_mut() { self.visit_expr_mut(y); }
                        *e = parse_quote!(vec![#x]);
                    }
                } else if name == "matches" {
                    // leave
                } else {
                    self.notes.push(format!("macro {name}!"));
                }
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(+)),
                    BinOp::SubAssign(_) => Some(parse_quote!(-)),
                    BinOp::MulAssign(_) => Some(parse_quote!(*)),
                    BinOp::DivAssign(_) => Some(parse_quote!(/)),
                    BinOp::RemAssign(_) => Some(parse_quote!(%)),
                    BinOp::BitOrAssign(_) => Some(parse_quote!(|)),
                    BinOp::BitAndAssign(_) => Some(parse_quote!(&)),
                    BinOp::BitXorAssign(_) => Some(parse_quote!(^)),
                    BinOp::ShlAssign(_) => Some(parse_quote!(<<)),
                    BinOp::ShrAssign(_) => Some(parse_quote!(>>)),
                    _ => None,
                };
                let lit = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l = #l #op (#r));
                } else if lit(&b.left) || lit(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    match b.op {
                        BinOp::Eq(_) => *e = parse_quote!(v_str_eq(#l, #r)),
                        BinOp::Ne(_) => *e = parse_quote!((!v_str_eq(#l, #r))),
                        _ => {}
                    }
                }
            }
            Expr::Await(a) => { *e = (*a.base).clone(); }
            Expr::MethodCall(m) => {
                let mm = m.clone();
                if let Some(n) = self.method(&mm) { *e = n; }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let s = s.join("::");
                    let a = &c.args;
                    if s == "Arc::from" { *e = parse_quote!(v_arc_from(#a)); }
                    else if s == "std::str::from_utf8" || s == "str::from_utf8" { *e = parse_quote!(v_from_utf8(#a)); }
                    else if s == "drop" || s == "std::mem::drop" || s == "mem::drop" { *e = parse_quote!(v_drop(#a)); }
                    else if s == "Box::pin" { if a.len() == 1 { *e = a[0].clone(); } }
                }
            }
            Expr::Async(a) => { let b = &a.block; *e = parse_quote!(#b); }
            Expr::ForLoop(f) => {
                let p = &f.pat;
                let body = &f.body;
                let mut owned = false;
                let base: Expr = match &*f.expr {
                    Expr::Reference(r) => { let x = &r.expr; parse_quote!((#x).v_iter()) }
                    Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) => { owned = true; let x = &m.receiver; parse_quote!((#x).v_into()) }
                    Expr::Range(_) => { self.notes.push("for over a range".into()); return; }
                    x if is_iter_chain(x) => match Self::chain(x) { Some((b, s)) => self.to_vec(b, &s), None => parse_quote!((#x).v_into()) },
                    x => { owned = true; parse_quote!((#x).v_into()) }
                };
                let take: Expr = if owned { parse_quote!(v_move) } else { parse_quote!(v_elem) };
                let k = self.next();
                let (it, i) = (id("__it", k), id("__i", k));
                let lab = f.label.clone();
                // the index moves on before the body, so that `continue` keeps its meaning
                *e = parse_quote!({
                    let #it = #base;
                    let mut #i: usize = 0;
                    #lab while #i < #it.len() {
                        let #p = #take(&#it, #i);
                        #i = #i + 1;
                        #body
                    }
                });
            }
            _ => (),
        }
    }
}

pub fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::If(x) => &x.attrs, Expr::Match(x) => &x.attrs, Expr::MethodCall(x) => &x.attrs, Expr::Call(x) => &x.attrs,
        Expr::Block(x) => &x.attrs, Expr::Macro(x) => &x.attrs, Expr::ForLoop(x) => &x.attrs, Expr::While(x) => &x.attrs, Expr::Loop(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs, _ => &[],
    }
}
fn strip_attrs(e: &mut Expr) {
    match e {
        Expr::If(x) => x.attrs.clear(), Expr::Match(x) => x.attrs.clear(), Expr::MethodCall(x) => x.attrs.clear(), Expr::Call(x) => x.attrs.clear(),
        Expr::Block(x) => x.attrs.clear(), Expr::Macro(x) => x.attrs.clear(), Expr::ForLoop(x) => x.attrs.clear(), Expr::While(x) => x.attrs.clear(),
        Expr::Loop(x) => x.attrs.clear(), Expr::Assign(x) => x.attrs.clear(), _ => (),
    }
}

/// number the closures that are left in source order and mark them
pub struct ClosureMark { pub n: usize }
impl VisitMut for ClosureMark {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let k = self.n; self.n += 1;
        let i = Index::from(k);
        visit_mut::visit_expr_closure_mut(self, c);
        let b = &c.body;
        if !matches!(**b, Expr::Block(_)) { c.body = parse_quote!({ #b }); }
        if let Expr::Block(b) = &mut *c.body { b.block.stmts.insert(0, parse_quote!(__vp_closure! { #i })); }
    }
}
/// number the loops of a body in source order and mark them
pub struct LoopMark { pub n: usize }
impl VisitMut for LoopMark {
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        let k = self.n; self.n += 1;
        let i = Index::from(k);
        visit_mut::visit_expr_while_mut(self, w);
        w.body.stmts.insert(0, parse_quote!(__vp_loop! { #i }));
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        let k = self.n; self.n += 1;
        let i = Index::from(k);
        visit_mut::visit_expr_loop_mut(self, w);
        w.body.stmts.insert(0, parse_quote!(__vp_loop! { #i }));
    }
}

/// token stream of a type or path without spaces, for keys
pub fn key_str(t: &impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    let mut o = String::new();
    for c in s.chars() { if !c.is_whitespace() { o.push(c); } }
    o
}
