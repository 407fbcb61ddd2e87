//! Prints the rewritten items, with the contracts woven in, as one Verus file.
use crate::contracts::{Contracts, FnContract};
use crate::rewrite::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Emitter<'a> {
    c: &'a Contracts,
    pub out: String,
    line: usize,
    pub used: BTreeSet<String>,
    pub notes: Vec<String>,
    map: Vec<String>,
    modules: Vec<String>,
    file: String,
    loops: BTreeMap<usize, Vec<String>>,
    loop_body: BTreeMap<usize, Vec<String>>,
    loop_after: BTreeMap<usize, Vec<String>>,
    loop_end: BTreeMap<usize, Vec<String>>,
    closures: BTreeMap<usize, Vec<String>>,
    awaits: Vec<String>,
    mod_name: String,
    texts: Vec<Vec<String>>,
    cur_loops: BTreeSet<usize>,
    cur_key: String,
    pending_clone: Option<String>,
    pending_structural: Option<String>,
    pending_debug: Option<String>,
    pending_ord: Option<String>,
}

fn keep_derive(name: &str) -> bool { matches!(name, "Clone" | "Copy") }

impl<'a> Emitter<'a> {
    pub fn new(c: &'a Contracts) -> Self {
        Emitter { c, out: String::new(), line: 1, used: BTreeSet::new(), notes: vec![], map: vec![], modules: vec![], file: String::new(),
            loops: BTreeMap::new(), loop_body: BTreeMap::new(), loop_after: BTreeMap::new(), loop_end: BTreeMap::new(), closures: BTreeMap::new(), awaits: vec![], mod_name: String::new(), texts: vec![], cur_loops: BTreeSet::new(), cur_key: String::new(), pending_clone: None, pending_structural: None, pending_debug: None, pending_ord: None }
    }
    pub fn raw_line(&mut self, s: &str) {
        // the properties a line of a contract belongs to
        let s = match s.find("//!") {
            Some(p) => {
                self.map.push(format!("E\t{}\t{}\t{}", self.line, self.cur_key, s[p + 3..].trim()));
                &s[..p]
            }
            None => s,
        };
        self.out.push_str(s);
        self.out.push('\n');
        self.line += 1 + s.matches('\n').count();
    }
    fn raw(&mut self, s: &str) { self.out.push_str(s); self.line += s.matches('\n').count(); }

    pub fn prelude(&mut self) {
        for (_, l) in &self.c.prelude { let l = l.clone(); self.raw_line(&l); }
    }
    pub fn finish(&mut self) {
        let known: BTreeSet<String> = self.modules.iter().cloned().collect();
        for (m, ls) in &self.c.modules {
            if known.contains(m) { continue; }
            self.raw_line(&format!("pub mod {m} {{ use crate::*;"));
            for (_, l) in ls { let l = l.clone(); self.raw_line(&l); }
            self.raw_line("}");
            self.modules.push(m.clone());
        }
        for m in self.modules.clone() { self.raw_line(&format!("pub use {m}::*;")); }
        self.raw_line("}");
        self.raw_line("fn main() {}");
    }
    pub fn map_text(&self) -> String {
        let mut s = self.map.join("\n");
        s.push('\n');
        for n in &self.notes { s.push_str(&format!("N\t{n}\n")); }
        s
    }

    // ---- token printer -------------------------------------------------------------------
    fn tokens(&mut self, t: TokenStream) {
        let toks: Vec<TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            match &toks[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if s == "__vp_await" {
                        self.raw("\n");
                        for l in self.awaits.clone() { self.raw_line(&l); }
                        i += 3;
                        continue;
                    }
                    if s == "__vp" && i + 2 < toks.len() {
                        if let TokenTree::Group(g) = &toks[i + 2] {
                            let k: usize = g.stream().to_string().trim().parse().unwrap();
                            self.raw("\n");
                            for l in self.texts[k].clone() { self.raw_line(&l); }
                            i += 3;
                            continue;
                        }
                    }
                    self.raw(&s);
                    self.raw(" ");
                }
                TokenTree::Punct(p) => {
                    self.raw(&p.as_char().to_string());
                    if p.spacing() == Spacing::Alone { self.raw(" "); }
                    if p.as_char() == ';' { self.raw("\n"); }
                }
                TokenTree::Literal(l) => { self.raw(&l.to_string()); self.raw(" "); }
                TokenTree::Group(g) => {
                    match g.delimiter() {
                        Delimiter::Parenthesis => { self.raw("( "); self.tokens(g.stream()); self.raw(") "); }
                        Delimiter::Bracket => { self.raw("[ "); self.tokens(g.stream()); self.raw("] "); }
                        Delimiter::None => { self.tokens(g.stream()); }
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let mut rest = inner.clone();
                            let mut loop_k = None;
                            if inner.len() >= 3 {
                                if let (TokenTree::Ident(a), TokenTree::Group(k)) = (&inner[0], &inner[2]) {
                                    if a == "__vp_closure" {
                                        let k = k.stream().to_string().trim().parse::<usize>().unwrap();
                                        rest.drain(..3);
                                        self.raw("\n");
                                        for l in self.closures.remove(&k).unwrap_or_default() { self.raw_line(&l); }
                                    } else if a == "__vp_loop" {
                                        loop_k = Some(k.stream().to_string().trim().parse::<usize>().unwrap());
                                        rest.drain(..3);
                                    }
                                }
                            }
                            if let Some(k) = loop_k {
                                self.cur_loops.insert(k);
                                self.raw("\n");
                                for l in self.loops.get(&k).cloned().unwrap_or_default() { self.raw_line(&l); }
                            }
                            self.raw("{\n");
                            if let Some(k) = loop_k {
                                for l in self.loop_body.get(&k).cloned().unwrap_or_default() { self.raw_line(&l); }
                                if canary() { self.raw_line("proof { assert(false); } //! VACUITY"); }
                            }
                            let semi = matches!(rest.last(), Some(TokenTree::Punct(p)) if p.as_char() == ';') || rest.is_empty();
                            self.tokens(rest.into_iter().collect());
                            if let Some(k) = loop_k {
                                let t = self.loop_end.get(&k).cloned().unwrap_or_default();
                                if !t.is_empty() && !semi { self.raw(";\n"); }
                                for l in t { self.raw_line(&l); }
                            }
                            self.raw("}\n");
                            if let Some(k) = loop_k {
                                for l in self.loop_after.get(&k).cloned().unwrap_or_default() { self.raw_line(&l); }
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }

    // ---- items -----------------------------------------------------------------------------
    pub fn module(&mut self, name: &str, path: &str, f: File, cx: &Cx) -> std::result::Result<(), String> {
        self.file = path.to_string();
        self.mod_name = name.strip_prefix("s_").unwrap_or(name).to_string();
        self.modules.push(name.to_string());
        self.raw_line(&format!("pub mod {name} {{ use crate::*;"));
        if let Some(ls) = self.c.modules.get(name) {
            for (_, l) in ls { let l = l.clone(); self.raw_line(&l); }
        }
        for item in f.items { self.item(item, cx)?; }
        self.raw_line("}");
        Ok(())
    }

    fn item(&mut self, item: Item, cx: &Cx) -> std::result::Result<(), String> {
        match item {
            Item::Use(_) | Item::ExternCrate(_) => Ok(()),
            Item::Mod(m) => {
                if cfg_active(&m.attrs) && m.content.is_some() { self.notes.push(format!("UNSUPPORTED inline module {}", m.ident)); }
                Ok(())
            }
            Item::Macro(m) => {
                if !cfg_active(&m.attrs) { return Ok(()); }
                if m.mac.path.is_ident("bitflags") {
                    for b in parse_bitflags(&m.mac).map_err(|e| e.to_string())? { self.bitflags(&b); }
                } else {
                    self.notes.push(format!("UNSUPPORTED item macro {}", key_str(&m.mac.path)));
                }
                Ok(())
            }
            Item::Struct(mut s) => {
                if !cfg_active(&s.attrs) || self.skipped(&s.ident.to_string()) { return Ok(()); }
                let (der, _) = self.derives(&s.attrs, &s.ident.to_string(), false);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                let mut rw = Rw { cx, n: 0, notes: vec![] };
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); rw.visit_type_mut(&mut f.ty); }
                self.raw_line(&der);
                self.tokens(s.to_token_stream());
                self.raw("\n");
                self.clone_impl(&s.generics);
                Ok(())
            }
            Item::Enum(mut e) => {
                if !cfg_active(&e.attrs) || self.skipped(&e.ident.to_string()) { return Ok(()); }
                let clike = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                let (der, repr) = self.derives(&e.attrs, &e.ident.to_string(), clike);
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                let mut rw = Rw { cx, n: 0, notes: vec![] };
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() { f.attrs.clear(); rw.visit_type_mut(&mut f.ty); }
                }
                // Verus's macro reads literals in the mode of the item before: start from executable code
                if e.variants.iter().any(|v| v.discriminant.is_some()) { self.raw_line(&format!("#[verifier::external] fn __exec_mode_{}() {{ }}", e.ident)); }
                self.raw_line(&der);
                self.raw_line(&repr);
                self.tokens(e.to_token_stream());
                self.raw("\n");
                self.clone_impl(&e.generics);
                Ok(())
            }
            Item::Type(mut t) => {
                if !cfg_active(&t.attrs) || self.skipped(&t.ident.to_string()) { return Ok(()); }
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                Rw { cx, n: 0, notes: vec![] }.visit_type_mut(&mut t.ty);
                self.tokens(t.to_token_stream());
                Ok(())
            }
            Item::Const(mut t) => {
                if !cfg_active(&t.attrs) || self.skipped(&t.ident.to_string()) { return Ok(()); }
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                Rw { cx, n: 0, notes: vec![] }.visit_type_mut(&mut t.ty);
                if let Type::Reference(r) = &mut *t.ty { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } }
                self.tokens(t.to_token_stream());
                Ok(())
            }
            Item::Trait(t) => self.item_trait(t, cx),
            Item::Impl(i) => self.item_impl(i, cx),
            Item::Fn(f) => {
                if !cfg_active(&f.attrs) { return Ok(()); }
                let key = f.sig.ident.to_string();
                if self.skipped(&key) { return Ok(()); }
                self.function(&key, &f.attrs, f.sig, Some(*f.block), true, cx);
                Ok(())
            }
            other => { self.notes.push(format!("UNSUPPORTED item {}", key_str(&other).chars().take(40).collect::<String>())); Ok(()) }
        }
    }

    fn skipped(&mut self, key: &str) -> bool {
        let qual = format!("{}::{key}", self.mod_name);
        let key = if self.c.skip.contains_key(&qual) { qual.as_str() } else { key };
        if self.c.skip.contains_key(key) { self.map.push(format!("S\t{key}\t{}", self.c.skip[key])); true } else { false }
    }

    fn derives(&mut self, attrs: &[Attribute], name: &str, clike: bool) -> (String, String) {
        let mut d = Vec::new();
        let mut repr = String::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                if let Meta::List(l) = &a.meta {
                    for n in l.tokens.to_string().split(',') {
                        let n = n.trim().rsplit("::").next().unwrap_or("").trim().to_string();
                        if n == "Debug" { self.pending_debug = Some(name.to_string()); }
                        if n == "PartialOrd" && clike { self.pending_ord = Some(name.to_string()); }
                        if keep_derive(&n) { d.push(n); }
                        else if n == "PartialEq" && clike { d.push("PartialEq".into()); d.push("Eq".into()); self.pending_structural = Some(name.to_string()); }
                    }
                }
            }
            if a.path().is_ident("repr") { repr = a.to_token_stream().to_string(); }
        }
        let mut s = String::new();
        if let Some(x) = self.c.type_attrs.get(name) {
            for a in x {
                if let Some(n) = a.strip_prefix("noderive ") { d.retain(|y| y != n); } else { s.push_str(a); s.push('\n'); }
            }
        }
        // a derived Clone copies every field: stated, not proved (no Copy: the verifier gives it no meaning)
        if !d.iter().any(|x| x == "Copy") && d.iter().any(|x| x == "Clone") {
            d.retain(|x| x != "Clone");
            self.pending_clone = Some(name.to_string());
        }
        if !d.is_empty() { s.push_str(&format!("#[derive({})]", d.join(", "))); }
        (s, repr)
    }

    fn clone_impl(&mut self, g: &Generics) {
        if let Some(n) = self.pending_structural.take() {
            self.raw_line(&format!("#[verifier::external] unsafe impl Structural for {n} {{}}"));
        }
        if let Some(n) = self.pending_ord.take() {
            // derived comparison of a fieldless enum: by discriminant
            self.raw_line(&format!("impl vstd::std_specs::cmp::PartialOrdSpecImpl for {n} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &{n}) -> Option<core::cmp::Ordering> {{ if (*self as int) < (*o as int) {{ Some(core::cmp::Ordering::Less) }} else if *self == *o {{ Some(core::cmp::Ordering::Equal) }} else {{ Some(core::cmp::Ordering::Greater) }} }} }}"));
            self.raw_line(&format!("impl PartialOrd for {n} {{ #[verifier::external_body] fn partial_cmp(&self, o: &{n}) -> Option<core::cmp::Ordering> {{ unimplemented!() }} }}"));
        }
        if let Some(n) = self.pending_debug.take() {
            if g.params.is_empty() {
                self.raw_line(&format!("#[verifier::external] impl std::fmt::Debug for {n} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ Ok(()) }} }}"));
            }
        }
        if let Some(n) = self.pending_clone.take() {
            if g.params.is_empty() {
                self.map.push(format!("D\t{n}"));
                self.raw_line(&format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}"));
            }
        }
    }

    fn item_trait(&mut self, t: ItemTrait, cx: &Cx) -> std::result::Result<(), String> {
        let name = t.ident.to_string();
        if !cfg_active(&t.attrs) || self.skipped(&format!("trait {name}")) { return Ok(()); }
        let g = &t.generics;
        self.raw("pub trait ");
        self.raw(&name);
        self.tokens(g.to_token_stream());
        let mut b: Vec<String> = t.supertraits.iter().map(|s| s.to_token_stream().to_string()).collect();
        if let Some(x) = self.c.bounds.get(&name) { b.push(x.clone()); }
        if !b.is_empty() { self.raw(&format!(": {} ", b.join(" + "))); }
        self.tokens(g.where_clause.to_token_stream());
        self.raw_line("{");
        let key = format!("trait {name}");
        if let Some(m) = self.c.members.get(&key) { for l in m.clone() { self.raw_line(&l); } self.used.insert(key.clone()); }
        for i in t.items {
            match i {
                TraitItem::Fn(f) => {
                    if !cfg_active(&f.attrs) { continue; }
                    let k = format!("trait {name}::{}", f.sig.ident);
                    if self.skipped(&k) { continue; }
                    self.function(&k, &f.attrs, f.sig, f.default, false, cx);
                }
                TraitItem::Type(t) => { self.tokens(t.to_token_stream()); }
                _ => self.notes.push(format!("UNSUPPORTED member of trait {name}")),
            }
        }
        self.raw_line("}");
        Ok(())
    }

    fn item_impl(&mut self, i: ItemImpl, cx: &Cx) -> std::result::Result<(), String> {
        if !cfg_active(&i.attrs) { return Ok(()); }
        let ty = key_str(&i.self_ty);
        let mut rw = Rw { cx, n: 0, notes: vec![] };
        let mut self_ty = (*i.self_ty).clone();
        rw.visit_type_mut(&mut self_ty);
        let key = match &i.trait_ {
            Some((_, p, _)) => {
                let last = p.segments.last().unwrap();
                let first = p.segments.first().unwrap().ident.to_string();
                let n = last.ident.to_string();
                if n == "Default" || n == "Debug" || n == "Display" || first == "fmt" || n == "Error" {
                    // R1
                    return Ok(());
                }
                format!("{} for {}", key_str(last), ty)
            }
            None => ty.clone(),
        };
        if self.skipped(&key) { return Ok(()); }
        self.raw("impl");
        self.tokens(i.generics.to_token_stream());
        self.raw(" ");
        let is_trait = i.trait_.is_some();
        if let Some((_, p, _)) = &i.trait_ {
            let mut p = p.clone();
            rw.visit_path_mut(&mut p);
            self.tokens(p.to_token_stream());
            self.raw(" for ");
        }
        self.tokens(self_ty.to_token_stream());
        self.tokens(i.generics.where_clause.to_token_stream());
        self.raw_line("{");
        let qual = format!("{}::{key}", self.mod_name);
        let mkey = if self.c.members.contains_key(&qual) { qual } else { key.clone() };
        if let Some(m) = self.c.members.get(&mkey) { for l in m.clone() { self.raw_line(&l); } self.used.insert(mkey.clone()); }
        for it in i.items {
            match it {
                ImplItem::Fn(f) => {
                    if !cfg_active(&f.attrs) { continue; }
                    let k = if is_trait { format!("{key}::{}", f.sig.ident) } else { format!("{ty}::{}", f.sig.ident) };
                    if self.skipped(&k) { continue; }
                    self.function(&k, &f.attrs, f.sig, Some(f.block), !is_trait, cx);
                }
                ImplItem::Type(mut t) => { t.attrs.clear(); t.vis = Visibility::Inherited; rw.visit_type_mut(&mut t.ty); self.tokens(t.to_token_stream()); }
                ImplItem::Const(mut c) => { c.attrs.clear(); if !is_trait { c.vis = parse_quote!(pub); } self.tokens(c.to_token_stream()); }
                _ => self.notes.push(format!("UNSUPPORTED member of impl {key}")),
            }
        }
        self.raw_line("}");
        Ok(())
    }

    fn subst(l: &str, params: &[String]) -> String {
        let mut s = l.to_string();
        for (i, p) in params.iter().enumerate().rev() { s = s.replace(&format!("${i}"), p); }
        s
    }

    fn function(&mut self, key: &str, _attrs: &[Attribute], mut sig: Signature, body: Option<Block>, vis: bool, cx: &Cx) {
        let src_line = sig.ident.span().start().line;
        let empty = FnContract::default();
        // a key with the module in front is for names that occur in more than one
        let qual = format!("{}::{key}", self.mod_name);
        let key = if self.c.fns.contains_key(&qual) { qual.as_str() } else { key };
        let has = self.c.fns.contains_key(key);
        let fc = self.c.fns.get(key).unwrap_or(&empty).clone();
        if has { self.used.insert(key.to_string()); }
        let mut rw = Rw { cx, n: 0, notes: vec![] };
        // signature
        sig.asyncness = None;
        let mut body = body;
        if key_str(&sig.output).contains("implIterator") {
            if let Some(b) = &mut body {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
                    if is_iter_chain(e) { let x = e.clone(); *e = parse_quote!(#x.collect()); }
                }
            }
        }
        rw.visit_signature_mut(&mut sig);
        let mut params = Vec::new();
        let mut pre: Vec<Stmt> = Vec::new();
        let mut anon = 0;
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                t.attrs.clear();
                match &mut *t.pat {
                    Pat::Ident(p) => params.push(p.ident.to_string()),
                    other => {
                        let n = format!("__p{anon}");
                        anon += 1;
                        let idn = Ident::new(&n, proc_macro2::Span::call_site());
                        let op = other.clone();
                        if !matches!(op, Pat::Wild(_)) { pre.push(parse_quote!(let #op = #idn;)); }
                        *other = parse_quote!(#idn);
                        params.push(n);
                    }
                }
            }
        }
        if sig.ident == "try_into" { sig.ident = Ident::new("v_try_into", sig.ident.span()); }
        if sig.ident == "iter" { sig.ident = Ident::new("v_iter", sig.ident.span()); }
        let ret = if fc.ret.is_empty() { "ret".to_string() } else { fc.ret.clone() };
        let ret_ty: Option<Type> = match &sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) };
        let start = self.line;
        for a in &fc.attrs { self.raw_line(a); }
        if fc.external { self.raw_line("#[verifier::external_body]"); }
        if vis { self.raw("pub "); }
        self.raw("fn ");
        self.raw(&sig.ident.to_string());
        // generics without the where clause
        { let g = sig.generics.clone(); self.tokens(quote!(#g)); }
        self.raw("(");
        { let i = sig.inputs.clone(); self.tokens(quote!(#i)); }
        self.raw(")");
        if let Some(t) = &ret_ty { self.raw(&format!(" -> ({ret}: ")); self.tokens(t.to_token_stream()); self.raw(")"); }
        self.raw("\n");
        if let Some(w) = &sig.generics.where_clause { self.tokens(w.to_token_stream()); self.raw("\n"); }
        self.cur_key = key.to_string();
        for l in &fc.spec {
            let l = Self::subst(l, &params);
            self.raw_line(&l);
        }
        match body {
            None => self.raw_line(";"),
            Some(_) if fc.external => self.raw_line("{ unimplemented!() }"),
            Some(mut b) => {
                rw.visit_block_mut(&mut b);
                LoopMark { n: 0 }.visit_block_mut(&mut b);
                let mut cm = ClosureMark { n: 0 };
                cm.visit_block_mut(&mut b);
                for k in 0..cm.n { if !fc.closures.contains_key(&k) { self.notes.push(format!("NEW-CLOSURE {k} of {key}")); } }
                for k in fc.closures.keys() { if *k >= cm.n { self.notes.push(format!("LOST-CLOSURE {k} of {key}")); } }
                for (i, s) in pre.into_iter().enumerate() { b.stmts.insert(i, s); }
                let sub = |v: &Vec<String>| -> Vec<String> { v.iter().map(|l| Self::subst(l, &params)).collect() };
                self.texts.clear();
                self.awaits = sub(&fc.awaits);
                self.closures = fc.closures.iter().map(|(k, v)| (*k, sub(v))).collect();
                self.loops = fc.loops.iter().map(|(k, v)| (*k, sub(v))).collect();
                self.loop_body = fc.loop_body.iter().map(|(k, v)| (*k, sub(v))).collect();
                self.loop_after = fc.loop_after.iter().map(|(k, v)| (*k, sub(v))).collect();
                self.loop_end = fc.loop_end.iter().map(|(k, v)| (*k, sub(v))).collect();
                self.cur_loops.clear();
                // S14
                let mut fc = fc.clone();
                if let Some(i) = b.stmts.iter().position(|s| matches!(s, Stmt::Local(l) if pat_name(&l.pat).as_deref() == Some("__vp_task"))) {
                    b.stmts[i] = self.text(vec!["let tracked mut __task = v_task();".into()]);
                    if fc.exit.is_empty() { fc.exit.push("assert(forall|n: Notify| #[trigger] __task.owed(n) == 0); //! C22".into()); }
                    let t = self.text(sub(&fc.exit));
                    Exits(t).visit_block_mut(&mut b);
                    fc.tail.extend(fc.exit.clone());
                } else if !fc.exit.is_empty() { self.notes.push(format!("LOST-EXIT of {key}")); }
                if fc.tail_returns {
                    let t = self.text(sub(&fc.tail));
                    Exits(t).visit_block_mut(&mut b);
                }
                let auto = self.weave(&mut b, &fc, &sub, &ret_ty, key);
                let _ = auto;
                self.tokens(b.to_token_stream());
                for k in fc.loops.keys() {
                    if !self.cur_loops.contains(k) { self.notes.push(format!("LOST-LOOP {k} of {key}")); }
                }
                for k in self.cur_loops.clone() {
                    if !fc.loops.contains_key(&k) { self.notes.push(format!("NEW-LOOP {k} of {key}")); }
                }
            }
        }
        for n in rw.notes { self.notes.push(format!("UNSUPPORTED {n} in {key}")); }
        let end = self.line;
        if !has { self.notes.push(format!("NO-CONTRACT {key}")); }
        self.map.push(format!("F\t{start}\t{end}\t{key}\t{}\t{src_line}\t{}\t{}", self.file, if fc.external { "external" } else if has { "contract" } else { "none" }, fc.tags));
        self.raw("\n");
    }

    /// entry, tail, after-let proof texts and the glue for adapters of buffers
    fn weave(&mut self, b: &mut Block, fc: &FnContract, sub: &dyn Fn(&Vec<String>) -> Vec<String>, ret_ty: &Option<Type>, key: &str) -> bool {
        let mut glue: Vec<String> = Vec::new();
        let mut seen = BTreeSet::new();
        let mut out: Vec<Stmt> = Vec::new();
        if !fc.entry.is_empty() { out.push(self.text(sub(&fc.entry))); }
        if canary() && !fc.attrs.iter().any(|a| a.contains("loop_isolation(false)")) { out.push(self.text(vec!["proof { assert(false); } //! VACUITY".into()])); }
        let stmts: Vec<Stmt> = b.stmts.drain(..).collect();
        let n = stmts.len();
        for (i, mut s) in stmts.into_iter().enumerate() {
            let mut after: Vec<String> = Vec::new();
            if let Stmt::Local(l) = &s {
                if let Some(name) = pat_name(&l.pat) {
                    if let Some(init) = &l.init {
                        if let Some((paths, adapters)) = adapter_paths(&init.expr, &name) {
                            after.push(format!("let ghost __b_{name} = {name};"));
                            for p in &paths { glue.push(format!("assert(has_resolved({p}));")); }
                            for p in &adapters { glue.push(format!("buf_glue({p}); buf_glue(__b_{p});")); }
                        }
                    }
                    if let Some(t) = fc.lets.get(&name) { seen.insert(name.clone()); after.extend(sub(t)); }
                }
            }
            let last = i + 1 == n;
            if last {
                if let Stmt::Expr(e, None) = &s {
                    if !(glue.is_empty() && fc.tail.is_empty()) {
                        let mut t = Vec::new();
                        if !glue.is_empty() { t.push(format!("proof {{ {} }}", glue.join(" "))); }
                        t.extend(sub(&fc.tail));
                        match ret_ty {
                            Some(ty) => {
                                out.push(parse_quote!(let __r: #ty = #e;));
                                out.push(self.text(t));
                                out.push(Stmt::Expr(parse_quote!(__r), None));
                            }
                            None => {
                                out.push(Stmt::Expr(e.clone(), Some(Default::default())));
                                out.push(self.text(t));
                            }
                        }
                        continue;
                    }
                }
            }
            if let Stmt::Expr(e, semi) = &mut s { let _ = e; if last && semi.is_none() && ret_ty.is_none() { } }
            out.push(s);
            if !after.is_empty() { out.push(self.text(after)); }
            if last && ret_ty.is_none() && !(glue.is_empty() && fc.tail.is_empty()) {
                let mut t = Vec::new();
                if !glue.is_empty() { t.push(format!("proof {{ {} }}", glue.join(" "))); }
                t.extend(sub(&fc.tail));
                out.push(self.text(t));
            }
        }
        // anchors inside nested blocks
        let mut v = LetAnchor { lets: fc.lets.iter().map(|(k, t)| (k.clone(), sub(t))).collect(), seen: &mut seen, texts: &mut self.texts };
        for s in out.iter_mut() { v.visit_stmt_mut(s); }
        for k in fc.lets.keys() { if !seen.contains(k) { self.notes.push(format!("LOST-ANCHOR {k} of {key}")); } }
        b.stmts = out;
        true
    }
    fn text(&mut self, t: Vec<String>) -> Stmt {
        let k = Index::from(self.texts.len());
        self.texts.push(t);
        parse_quote!(__vp! { #k })
    }

    fn bitflags(&mut self, b: &BitflagsDef) {
        if self.skipped(&b.name) { return; }
        let (n, r) = (&b.name, &b.repr);
        let all = b.consts.iter().fold(0u128, |a, c| a | c.1);
        let width: u32 = r[1..].parse().unwrap_or(8);
        let full = (1u128 << width) - 1;
        let mut s = String::new();
        s.push_str(&format!("#[verifier::external] unsafe impl Structural for {n} {{}}\n#[derive(Clone, Copy, PartialEq, Eq)]\npub struct {n} {{ pub bits: {r} }}\nimpl {n} {{\n"));
        for (c, v) in &b.consts { s.push_str(&format!("pub const {c}: {n} = {n} {{ bits: 0x{v:x} }};\n")); }
        let trunc = |x: &str| if all == full { x.to_string() } else { format!("({x} & 0x{all:x})") };
        let valid = |x: &str| if all == full { "true".to_string() } else { format!("({x} & !0x{all:x}{r}) == 0") };
        s.push_str(&format!("pub open spec fn valid_bits(b: {r}) -> bool {{ {} }}\n", valid("b")));
        s.push_str(&format!("pub open spec fn all_bits() -> {r} {{ 0x{all:x}{r} }}\n"));
        s.push_str(&format!("#[verifier::inline] pub open spec fn wf(self) -> bool {{ {n}::valid_bits(self.bits) }}\n"));
        s.push_str(&format!("pub fn empty() -> (r: {n}) ensures r.bits == 0 {{ {n} {{ bits: 0 }} }}\n"));
        s.push_str(&format!("pub fn all() -> (r: {n}) ensures r.bits == 0x{all:x} {{ {n} {{ bits: 0x{all:x} }} }}\n"));
        s.push_str(&format!("pub fn bits(&self) -> (r: {r}) ensures r == self.bits {{ self.bits }}\n"));
        s.push_str(&format!("pub fn from_bits(b: {r}) -> (r: Option<{n}>) ensures r == (if {} {{ Some({n} {{ bits: b }}) }} else {{ None }}) {{ if {} {{ Some({n} {{ bits: b }}) }} else {{ None }} }}\n", valid("b"), valid("b")));
        s.push_str(&format!("pub fn from_bits_truncate(b: {r}) -> (r: {n}) ensures r.bits == {} {{ {n} {{ bits: {} }} }}\n", trunc("b"), trunc("b")));
        s.push_str(&format!("pub fn contains(&self, o: {n}) -> (r: bool) ensures r == ((self.bits & o.bits) == o.bits) {{ (self.bits & o.bits) == o.bits }}\n"));
        s.push_str(&format!("pub fn intersects(&self, o: {n}) -> (r: bool) ensures r == ((self.bits & o.bits) != 0) {{ (self.bits & o.bits) != 0 }}\n"));
        s.push_str(&format!("pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) {{ self.bits == 0 }}\n"));
        s.push_str(&format!("pub fn is_all(&self) -> (r: bool) ensures r == (self.bits & 0x{all:x} == 0x{all:x}) {{ self.bits & 0x{all:x} == 0x{all:x} }}\n"));
        s.push_str(&format!("pub fn insert(&mut self, o: {n}) ensures final(self).bits == (old(self).bits | o.bits) {{ self.bits = self.bits | o.bits; }}\n"));
        s.push_str(&format!("pub fn remove(&mut self, o: {n}) ensures final(self).bits == (old(self).bits & !o.bits) {{ self.bits = self.bits & !o.bits; }}\n"));
        s.push_str(&format!("pub fn toggle(&mut self, o: {n}) ensures final(self).bits == (old(self).bits ^ o.bits) {{ self.bits = self.bits ^ o.bits; }}\n"));
        s.push_str(&format!("pub fn set(&mut self, o: {n}, v: bool) ensures final(self).bits == (if v {{ old(self).bits | o.bits }} else {{ old(self).bits & !o.bits }}) {{ if v {{ self.bits = self.bits | o.bits; }} else {{ self.bits = self.bits & !o.bits; }} }}\n"));
        s.push_str("}\n");
        for (tr, m, e) in [("BitOr", "bitor", "self.bits | rhs.bits"), ("BitAnd", "bitand", "self.bits & rhs.bits"), ("Sub", "sub", "self.bits & !rhs.bits"), ("BitXor", "bitxor", "self.bits ^ rhs.bits")] {
            s.push_str(&format!("impl vstd::std_specs::ops::{tr}SpecImpl for {n} {{ open spec fn obeys_{m}_spec() -> bool {{ true }} open spec fn {m}_req(self, rhs: {n}) -> bool {{ true }} open spec fn {m}_spec(self, rhs: {n}) -> {n} {{ {n} {{ bits: {e} }} }} }}\n"));
            s.push_str(&format!("impl core::ops::{tr} for {n} {{ type Output = {n}; fn {m}(self, rhs: {n}) -> {n} {{ {n} {{ bits: {e} }} }} }}\n"));
        }
        if !self.c.members.contains_key(&format!("bitflags {n}")) {
            s.push_str(&format!("impl vstd::std_specs::ops::NotSpecImpl for {n} {{ open spec fn obeys_not_spec() -> bool {{ true }} open spec fn not_req(self) -> bool {{ true }} open spec fn not_spec(self) -> {n} {{ {n} {{ bits: {} }} }} }}\n", trunc("!self.bits")));
            s.push_str(&format!("impl core::ops::Not for {n} {{ type Output = {n}; fn not(self) -> {n} {{ {n} {{ bits: {} }} }} }}\n", trunc("!self.bits")));
        }
        self.map.push(format!("B\t{}\t{n}\t{}\t{}", self.line, r, b.consts.iter().map(|c| format!("{}=0x{:x}", c.0, c.1)).collect::<Vec<_>>().join(",")));
        self.raw_line(&s);
    }
}

/// the thorough check of the contracts themselves: a false assertion at the start of every function and loop
fn canary() -> bool { std::env::var("VCANARY").is_ok() }
/// S14: the text before every way out of a function
struct Exits(Stmt);
impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_)) { return; }
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let t = &self.0;
            *e = match &r.expr {
                Some(x) => parse_quote!({ let __r = #x; #t return __r }),
                None => parse_quote!({ #t return }),
            };
        }
    }
}
fn pat_name(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_name(&t.pat),
        Pat::Tuple(t) => t.elems.iter().find_map(pat_name),
        _ => None,
    }
}

/// for `let NAME = a.chain(b)` / `x.take(n)`: the places whose borrow ends with NAME, and the adapters
fn adapter_paths(e: &Expr, name: &str) -> Option<(Vec<String>, Vec<String>)> {
    fn go(e: &Expr, path: &str, out: &mut Vec<String>, ad: &mut Vec<String>) -> bool {
        match e {
            Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 => {
                out.push(path.to_string());
                ad.push(path.to_string());
                go(&m.receiver, &format!("{path}.inner"), out, ad);
                true
            }
            Expr::MethodCall(m) if m.method == "chain" && m.args.len() == 1 => {
                out.push(path.to_string());
                ad.push(path.to_string());
                go(&m.receiver, &format!("{path}.a"), out, ad);
                go(&m.args[0], &format!("{path}.b"), out, ad);
                true
            }
            Expr::Paren(p) => go(&p.expr, path, out, ad),
            _ => { out.push(path.to_string()); false }
        }
    }
    let (mut v, mut ad) = (Vec::new(), Vec::new());
    if go(e, name, &mut v, &mut ad) { Some((v, ad)) } else { None }
}

struct LetAnchor<'a> { lets: BTreeMap<String, Vec<String>>, seen: &'a mut BTreeSet<String>, texts: &'a mut Vec<Vec<String>> }
impl VisitMut for LetAnchor<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        syn::visit_mut::visit_block_mut(self, b);
        let stmts: Vec<Stmt> = b.stmts.drain(..).collect();
        let n = stmts.len();
        let mut glue: Vec<String> = Vec::new();
        for (i, s) in stmts.into_iter().enumerate() {
            let name = if let Stmt::Local(l) = &s { pat_name(&l.pat) } else { None };
            let mut found = None;
            if let (Stmt::Local(l), Some(name)) = (&s, &name) {
                if let Some(init) = &l.init { found = adapter_paths(&init.expr, name); }
            }
            if i + 1 == n && !glue.is_empty() {
                if let Stmt::Expr(e, None) = &s {
                    let k = syn::Index::from(self.texts.len());
                    self.texts.push(vec![format!("proof {{ {} }}", glue.join(" "))]);
                    b.stmts.push(parse_quote!(let __rb = #e;));
                    b.stmts.push(parse_quote!(__vp! { #k }));
                    b.stmts.push(Stmt::Expr(parse_quote!(__rb), None));
                    continue;
                }
            }
            b.stmts.push(s);
            if let (Some((paths, adapters)), Some(name)) = (found, &name) {
                let k = syn::Index::from(self.texts.len());
                self.texts.push(vec![format!("let ghost __b_{name} = {name};")]);
                b.stmts.push(parse_quote!(__vp! { #k }));
                for p in &paths { glue.push(format!("assert(has_resolved({p}));")); }
                for p in &adapters { glue.push(format!("buf_glue({p}); buf_glue(__b_{p});")); }
            }
            if let Some(t) = name.as_ref().and_then(|n| self.lets.get(n)) {
                self.seen.insert(name.clone().unwrap());
                let k = syn::Index::from(self.texts.len());
                self.texts.push(t.clone());
                b.stmts.push(parse_quote!(__vp! { #k }));
            }
        }
    }
}
