//! Extracts the functions of /repo into one Verus file, with the contracts of the overlay.
mod cont;
mod desugar;
mod overlay;
mod print;
mod sql;
use desugar::*;
use overlay::{FnOv, Overlay};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path as FsPath, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

const SKIP_MODS: &[&str] = &["tests", "test"];
const SKIP_TRAITS: &[&str] = &[
    "Debug", "Error",
    "Drop", "Zeroize",
];

struct Ex {
    ov: Overlay,
    out: String,
    line: usize,
    fns: Vec<J>,
    demote: HashSet<String>,
    sqls: Vec<String>,
    sql_owner: Vec<String>,
    res_from: BTreeMap<String, Type>, // return type name -> Result<..> convertible into it
    skipped: Vec<String>,
    tail: String, // hoisted functions
    seen: BTreeSet<String>,
    known_types: BTreeSet<String>,
    statics: HashSet<String>,
}

struct Cx {
    maps: PathMap,
    key: String, // crate::mod
    is_storage: bool,
}

struct NoHooks;
impl print::Hooks for NoHooks {
    fn stmt(&mut self, _: &str) -> String {
        String::new()
    }
    fn inv(&mut self, _: &str) -> String {
        String::new()
    }
}

fn txt(ts: TokenStream) -> String {
    let mut h = NoHooks;
    let mut p = print::P { out: String::new(), ind: 0, hooks: &mut h };
    p.ts(ts);
    p.out.trim().to_string()
}

/// the clause list ends in a comma, comments aside
fn has_comma(t: &str) -> bool {
    let mut t = t.trim_end();
    while t.ends_with("*/") {
        match t.rfind("/*") {
            Some(i) => t = t[..i].trim_end(),
            None => break,
        }
    }
    t.ends_with(',')
}

fn subst(text: &str, map: &BTreeMap<String, String>) -> String {
    // identifier-level substitution, not after '.'
    let ch: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < ch.len() {
        let c = ch[i];
        if c.is_alphabetic() || c == '_' || c == '$' {
            let st = i;
            i += 1;
            while i < ch.len() && (ch[i].is_alphanumeric() || ch[i] == '_') {
                i += 1;
            }
            let w: String = ch[st..i].iter().collect();
            let mut j = st;
            while j > 0 && ch[j - 1] == ' ' {
                j -= 1;
            }
            let after_dot = j > 0 && ch[j - 1] == '.' && !(j > 1 && ch[j - 2] == '.');
            match map.get(&w) {
                Some(r) if !after_dot => out.push_str(r),
                _ => out.push_str(&w),
            }
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

fn wild(p: &str, s: &str) -> bool {
    // '*' wildcard match
    let parts: Vec<&str> = p.split('*').collect();
    let mut pos = 0;
    for (i, part) in parts.iter().enumerate() {
        if part.is_empty() {
            continue;
        }
        match s[pos..].find(part) {
            Some(k) => {
                if i == 0 && k != 0 {
                    return false;
                }
                pos += k + part.len();
            }
            None => return false,
        }
    }
    parts.last().unwrap().is_empty() || s.ends_with(parts.last().unwrap())
}

struct FH<'a> {
    ov: &'a FnOv,
    map: &'a BTreeMap<String, String>,
}
impl<'a> print::Hooks for FH<'a> {
    fn stmt(&mut self, id: &str) -> String {
        let w: Vec<&str> = id.split_whitespace().collect();
        let l = |n: &str| self.ov.loops.get(&n.parse::<usize>().unwrap());
        let t = match w.as_slice() {
            ["start"] => self.ov.start.clone(),
            ["tail"] => self.ov.tail.clone(),
            ["at", n] => self.ov.at[n.parse::<usize>().unwrap()].2.clone(),
            ["before", n] => l(n).map(|l| l.before.clone()).unwrap_or_default(),
            ["after", n] => l(n).map(|l| l.after.clone()).unwrap_or_default(),
            ["lstart", n] => l(n).map(|l| l.lstart.clone()).unwrap_or_default(),
            ["lend", n] => l(n).map(|l| l.lend.clone()).unwrap_or_default(),
            _ => panic!("hook {id}"),
        };
        subst(&t, self.map)
    }
    fn inv(&mut self, id: &str) -> String {
        let n: usize = id.trim().parse().unwrap();
        let mut s = String::new();
        if let Some(l) = self.ov.loops.get(&n) {
            if !l.invariant.trim().is_empty() {
                s.push_str("invariant\n");
                s.push_str(&l.invariant);
                if !has_comma(&l.invariant) {
                    s.push_str(",\n");
                }
            }
            if !l.decreases.trim().is_empty() {
                s.push_str("decreases ");
                s.push_str(&l.decreases);
            }
        }
        subst(&s, self.map)
    }
}

/// inserts `@at` hooks before the desugaring
struct AtIns<'a> {
    ov: &'a FnOv,
    hit: Vec<usize>,
}
impl<'a> VisitMut for AtIns<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let t = norm(&s);
            let mut pre: Vec<Stmt> = vec![];
            let mut post: Vec<Stmt> = vec![];
            // compound statements are matched by their head only
            let compound = matches!(&s, Stmt::Expr(Expr::If(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_), _));
            for (i, (m, after, _)) in self.ov.at.iter().enumerate() {
                let mm = m.split_whitespace().collect::<String>();
                if self.hit[i] == 0 && wild(&mm, &t) && (!compound || mm.ends_with("{*")) {
                    self.hit[i] += 1;
                    let it: TokenStream = i.to_string().parse().unwrap();
                    let h: Stmt = parse2(quote! { __vxh!(at #it); }).unwrap();
                    if *after {
                        post.push(h)
                    } else {
                        pre.push(h)
                    }
                }
            }
            syn::visit_mut::visit_stmt_mut(self, &mut s);
            out.extend(pre);
            out.push(s);
            out.extend(post);
        }
        b.stmts = out;
    }
}

struct Roles<'a> {
    want: &'a [(String, String)],
    found: BTreeMap<String, String>,
    count: BTreeMap<String, usize>,
}
impl<'a> Roles<'a> {
    fn consider(&mut self, kind: &str, text: &str, name: &str) {
        for (n, m) in self.want {
            if self.found.contains_key(n) {
                continue;
            }
            let (k, pat) = m.split_once(char::is_whitespace).unwrap_or((m, "*"));
            let (k, nth) = match k.split_once('#') {
                Some((a, b)) => (a, b.parse::<usize>().unwrap()),
                None => (k, 1),
            };
            if k != kind {
                continue;
            }
            let pp = pat.split_whitespace().collect::<String>();
            if pp.split("||").any(|q| wild(q, text)) {
                let c = self.count.entry(n.clone()).or_insert(0);
                *c += 1;
                if *c == nth {
                    self.found.insert(n.clone(), name.to_string());
                }
            }
        }
    }
}
impl<'a, 'b> syn::visit::Visit<'b> for Roles<'a> {
    fn visit_local(&mut self, l: &'b Local) {
        let p = match &l.pat {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
            let mut t = norm(&init.expr).replace("vec![]", "Vec::new()");
            if let Pat::Type(ty) = &l.pat {
                t = format!("{}:{}", norm(&ty.ty), t);
            } else {
                t = format!(":{}", t);
            }
            self.consider("let", &t, &i.ident.to_string());
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, f: &'b ExprForLoop) {
        if let Pat::Ident(i) = &*f.pat {
            self.consider("for", &norm(&f.expr), &i.ident.to_string());
        }
        syn::visit::visit_expr_for_loop(self, f);
    }
}

struct Rename(BTreeMap<String, String>);
impl VisitMut for Rename {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &mut *c.func {
            if p.path.segments.len() == 1 {
                let s = p.path.segments[0].ident.to_string();
                if let Some(n) = self.0.get(&s) {
                    p.path.segments[0].ident = ident(n);
                }
            }
        }
        syn::visit_mut::visit_expr_call_mut(self, c);
    }
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let s = norm(a.meta.to_token_stream());
            let s = s.trim_start_matches("derive(").trim_end_matches(')').to_string();
            v.extend(s.split(',').filter(|x| !x.is_empty()).map(|x| x.rsplit("::").next().unwrap().to_string()));
        }
    }
    v
}
/// the `static ref NAME: TYPE = EXPR;` entries of a lazy_static! block
fn lazy_statics(t: TokenStream) -> Vec<(Ident, Type, Expr)> {
    use syn::parse::Parser;
    let f = |i: syn::parse::ParseStream| -> syn::Result<Vec<(Ident, Type, Expr)>> {
        let mut v = vec![];
        while !i.is_empty() {
            let _ = i.call(Attribute::parse_outer)?;
            let _: Visibility = i.parse()?;
            let _: Token![static] = i.parse()?;
            let _: Token![ref] = i.parse()?;
            let n: Ident = i.parse()?;
            let _: Token![:] = i.parse()?;
            let ty: Type = i.parse()?;
            let _: Token![=] = i.parse()?;
            let e: Expr = i.parse()?;
            let _: Token![;] = i.parse()?;
            v.push((n, ty, e));
        }
        Ok(v)
    };
    f.parse2(t).unwrap_or_default()
}
/// uses of lazily initialised statics become calls
struct Statics<'a>(&'a HashSet<String>);
impl<'a> VisitMut for Statics<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.0.contains(&i.to_string()) {
                    let f = format_ident!("vx_static_{}", i);
                    *e = parse_quote!(#f());
                    return;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
fn has_attr(attrs: &[Attribute], n: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(n))
}

fn ret_type(s: &Signature) -> Option<Type> {
    match &s.output {
        ReturnType::Type(_, t) => Some((**t).clone()),
        _ => None,
    }
}

impl Ex {
    fn emit(&mut self, s: &str) {
        self.out.push_str(s);
        self.out.push('\n');
        self.line += s.matches('\n').count() + 1;
    }

    fn ds<'a>(&self, maps: &'a PathMap) -> Ds<'a> {
        Ds {
            maps,
            n: 0,
            loops: vec![],
            term: String::new(),
            collects: 0,
            collect_hint: Default::default(),
            unsupported: vec![],
            hint: None,
            sql: None,
            sqls: vec![],
            sql_base: 0,
            self_subst: None,
            lift: None,
            lifted: vec![],
            used_tg: false,
            sites: vec![],
            bufs: Default::default(),
        }
    }

    fn ty(&self, cx: &Cx, t: &Type) -> Type {
        let mut t = t.clone();
        self.ds(&cx.maps).visit_type_mut(&mut t);
        t
    }

    fn crate_mod(&mut self, name: &str, dir: &FsPath, root: &str) {
        let externs: HashSet<String> = [
            "bs58", "sha2", "ed25519_dalek", "libsecp256k1", "ring", "libp2p_identity", "multihash", "nonempty", "eyre",
            "rand", "marine_rs_sdk", "marine_sqlite_connector", "rmp_serde", "zeroize", "asn1_der", "fluence_keypair",
            "trust_graph", "ref_cast", "serde", "serde_bytes",
        ]
        .iter()
        .filter(|x| **x != name)
        .map(|s| s.to_string())
        .collect();
        self.module(name, name, dir, &dir.join(root), &externs, name, None);
    }

    fn module(&mut self, krate: &str, key: &str, dir: &FsPath, file: &FsPath, externs: &HashSet<String>, mname: &str, inline: Option<Vec<Item>>) {
        let items = match inline {
            Some(i) => i,
            None => {
                let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
                parse_file(&text).unwrap_or_else(|e| panic!("{}: {e}", file.display())).items
            }
        };
        let items = hoist_local_types(items);
        for it in &items {
            if let Item::Macro(m) = it {
                if norm(&m.mac.path).ends_with("lazy_static") {
                    self.statics.extend(lazy_statics(m.mac.tokens.clone()).iter().map(|x| x.0.to_string()));
                }
            }
        }
        let cx = Cx {
            maps: PathMap { krate: krate.into(), externs: externs.clone() },
            key: key.to_string(),
            is_storage: key.ends_with("storage_impl"),
        };
        self.emit(&format!("pub mod {mname} {{"));
        self.emit("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::*;\n#[allow(unused_imports)] use crate::spec::*;\n#[allow(unused_imports)] use crate::ext;\nverus! {");
        self.emit("broadcast use {crate::vx::vx_axioms, crate::ext::ext_axioms, crate::spec::spec_axioms};");
        let saved = std::mem::take(&mut self.tail);
        let mut imported: HashSet<String> = HashSet::new();
        for it in &items {
            if let Item::Use(u) = it {
                if cfg_out(&u.attrs) {
                    continue;
                }
                let mut flat = vec![];
                flatten(&u.tree, vec![], &mut flat);
                for (path, alias) in flat {
                    self.emit_use(&cx, &u.vis, path, alias, &items, &mut imported);
                }
            }
        }
        if let Some(t) = self.ov.items.get(&format!("mod {key}")).cloned() {
            self.emit(&t);
        }
        let mut submods = vec![];
        for it in items {
            match it {
                Item::Use(_) => {}
                Item::Mod(m) => {
                    if cfg_out(&m.attrs) || SKIP_MODS.contains(&m.ident.to_string().as_str()) {
                        continue;
                    }
                    submods.push(m);
                }
                it => self.item(&cx, it),
            }
        }
        let t = std::mem::replace(&mut self.tail, saved);
        self.emit(&t);
        self.emit("} // verus!");
        for m in submods {
            let n = m.ident.to_string();
            let k = format!("{key}::{n}");
            if let Some((_, its)) = m.content {
                self.module(krate, &k, dir, file, externs, &n, Some(its));
            } else {
                let a = dir.join(format!("{n}.rs"));
                let b = dir.join(&n).join("mod.rs");
                let f = if a.exists() { a } else { b };
                let nd = if mname == krate { dir.join("") } else { dir.join(mname) };
                self.module(krate, &k, &nd, &f, externs, &n, None);
            }
        }
        self.emit("}");
    }

    fn emit_use(&mut self, cx: &Cx, vis: &Visibility, path: Vec<String>, alias: Option<String>, items: &[Item], imported: &mut HashSet<String>) {
        if alias.as_deref() == Some("_") {
            return;
        }
        let drop_first = ["thiserror", "derivative", "lazy_static", "log", "ref_cast", "ring_compat"];
        if drop_first.contains(&path[0].as_str()) {
            return;
        }
        let full = path.join("::");
        let drop_full = [
            "std::convert::TryFrom", "std::convert::TryInto", "std::convert::From", "std::convert::Into", "core::convert::TryFrom", "std::str::FromStr",
            "std::result::Result", "std::fmt::Display", "std::fmt::Write", "std::cell::RefCell", "core::convert::TryInto",
            "std::ops::DerefMut", "marine_rs_sdk::marine", "marine_rs_sdk::module_manifest", "marine_rs_sdk::WasmLoggerBuilder", "std::convert::AsRef",
            "std::time::SystemTime", "std::time::UNIX_EPOCH", "std::fmt::Debug", "std::iter::FromIterator", "ring::signature::KeyPair",
        ];
        if drop_full.contains(&full.as_str()) || full == "asn1_der::Asn1Der" {
            return;
        }
        let last = alias.clone().unwrap_or_else(|| path.last().unwrap().clone());
        if full.ends_with("::wrapped_try") || full.ends_with("::with_tg") || full.ends_with("storage_impl::create_tables") {
            return;
        }
        let mut mapped = match cx.maps.map_path_str(&path) {
            Some(m) => m.join("::"),
            None => {
                // sibling module of the crate root, or enum of this module
                let local = items.iter().any(|i| match i {
                    Item::Mod(m) => m.ident == path[0].as_str(),
                    Item::Enum(m) => m.ident == path[0].as_str(),
                    _ => false,
                });
                if local {
                    format!("self::{full}")
                } else if path[0] == "std" || path[0] == "core" || path[0] == "alloc" || path[0] == "self" || path[0] == "super" {
                    full.clone()
                } else {
                    full.clone()
                }
            }
        };
        if mapped.ends_with("::self") {
            mapped.truncate(mapped.len() - 6);
        }
        if last != "*" && !imported.insert(last.clone()) {
            return;
        }
        let v = if matches!(vis, Visibility::Public(_)) { "pub " } else { "" };
        let al = match alias {
            Some(a) => format!(" as {a}"),
            None => String::new(),
        };
        self.emit(&format!("#[allow(unused_imports)] {v}use {mapped}{al};"));
    }

    fn item(&mut self, cx: &Cx, it: Item) {
        match it {
            Item::Const(c) => self.konst(cx, &c.ident, &c.ty, &c.expr),
            Item::Static(c) => self.konst(cx, &c.ident, &c.ty, &c.expr),
            Item::Type(t) => {
                let ty = self.ty(cx, &t.ty);
                let (n, g) = (&t.ident, &t.generics);
                self.emit(&txt(quote! { pub type #n #g = #ty; }));
            }
            Item::Struct(s) => {
                if cfg_out(&s.attrs) || self.dropped(&cx.key, &s.ident.to_string()) {
                    return;
                }
                self.known_types.insert(s.ident.to_string());
                let (n, g, wh) = (&s.ident, &s.generics, &s.generics.where_clause);
                let f = self.fields(cx, &s.fields, true);
                let body = match &s.fields {
                    Fields::Named(_) => txt(quote! { pub struct #n #g #wh { #f } }),
                    Fields::Unnamed(_) => txt(quote! { pub struct #n #g ( #f ); }),
                    Fields::Unit => txt(quote! { pub struct #n; }),
                };
                self.emit(&body);
                self.derived(cx, &s.ident, &derives(&s.attrs), Some(&s.fields));
                self.derived_serde(cx, &s.ident, &s.attrs, &[(None, &s.fields)]);
            }
            Item::Enum(e) => {
                if cfg_out(&e.attrs) || self.dropped(&cx.key, &e.ident.to_string()) {
                    return;
                }
                self.known_types.insert(e.ident.to_string());
                let mut vs = TokenStream::new();
                let vars: Vec<Variant> = e.variants.iter().filter(|v| !cfg_out(&v.attrs)).cloned().collect();
                for v in &vars {
                    let n = &v.ident;
                    let f = self.fields(cx, &v.fields, false);
                    vs.extend(match &v.fields {
                        Fields::Named(_) => quote! { #n { #f }, },
                        Fields::Unnamed(_) => quote! { #n ( #f ), },
                        Fields::Unit => quote! { #n, },
                    });
                }
                let n = &e.ident;
                self.emit(&txt(quote! { pub enum #n { #vs } }));
                let d = derives(&e.attrs);
                self.derived(cx, &e.ident, &d, None);
                let vf: Vec<(Option<&Ident>, &Fields)> = vars.iter().map(|v| (Some(&v.ident), &v.fields)).collect();
                let plain = vars.iter().all(|v| serde_attr(&v.attrs) == Some((true, true)));
                if plain {
                    self.derived_serde(cx, &e.ident, &e.attrs, &vf);
                }
                if d.iter().any(|x| x == "ThisError") {
                    self.this_error(cx, &e.ident, &vars);
                }
            }
            Item::Fn(f) => {
                if cfg_out(&f.attrs) {
                    return;
                }
                let key = format!("{}::{}", cx.key, f.sig.ident);
                let t = self.function(cx, &key, &f.sig, Some(&f.block), None, &f.sig.ident.to_string(), "pub ");
                self.emit_fn_text(t);
            }
            Item::Impl(i) => self.imp(cx, i),
            Item::Trait(t) => {
                let n = &t.ident;
                let k = format!("{}::{}", cx.key, n);
                self.emit(&format!("pub trait {} : Sized {{", n));
                if let Some(x) = self.ov.items.get(&format!("trait {k}")).cloned() {
                    self.emit(&x);
                }
                for ti in &t.items {
                    match ti {
                        TraitItem::Type(a) => {
                            let (n, b) = (&a.ident, &a.bounds);
                            self.emit(&txt(quote! { type #n : #b; }));
                        }
                        TraitItem::Fn(f) => {
                            let key = format!("{k}::{}", f.sig.ident);
                            let t = self.function(cx, &key, &f.sig, f.default.as_ref(), None, &f.sig.ident.to_string(), "");
                            self.emit_fn_text(t);
                        }
                        _ => {}
                    }
                }
                self.emit("}");
            }
            Item::Macro(m) => {
                let n = norm(&m.mac.path);
                // lazily initialised statics: the initialiser becomes a function, uses become calls
                if n.ends_with("lazy_static") {
                    for (name, ty, e) in lazy_statics(m.mac.tokens.clone()) {
                        let f = format_ident!("vx_static_{}", name);
                        let it: ItemFn = parse_quote! { pub fn #f() -> #ty { #e } };
                        let key = format!("{}::{}", cx.key, name);
                        let t = self.function(cx, &key, &it.sig, Some(&it.block), None, &f.to_string(), "pub ");
                        self.emit_fn_text(t);
                    }
                    return;
                }
                self.skipped.push(format!("{}: macro {}!", cx.key, n));
            }
            _ => {}
        }
    }

    fn dropped(&self, modkey: &str, n: &str) -> bool {
        let k = format!("{modkey}::{n}");
        self.ov.drops.iter().any(|d| wild(d, &k))
    }

    fn fields(&self, cx: &Cx, f: &Fields, pubs: bool) -> TokenStream {
        let mut o = TokenStream::new();
        for x in f {
            let t = self.ty(cx, &x.ty);
            let p = if pubs { quote! { pub } } else { quote! {} };
            match &x.ident {
                Some(n) => o.extend(quote! { #p #n : #t, }),
                None => o.extend(quote! { #p #t, }),
            }
        }
        o
    }

    fn derived(&mut self, cx: &Cx, n: &Ident, d: &[String], f: Option<&Fields>) {
        for x in d {
            match x.as_str() {
                "Clone" => self.emit(&format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}")),
                "Copy" => self.emit(&format!("impl Copy for {n} {{}}")),
                "PartialEq" => self.emit(&format!(
                    "impl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) {{ unimplemented!() }} }}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}"
                )),
                "Eq" => self.emit(&format!("impl Eq for {n} {{}}")),
                "Default" => {
                    let mut e = String::new();
                    if let Some(f) = f {
                        for x in f {
                            if let Some(i) = &x.ident {
                                let t = norm(&x.ty);
                                match t.as_str() {
                                    "String" => e += &format!("r.{i}@.len() == 0, "),
                                    "u64" | "u32" | "i64" | "usize" | "u8" => e += &format!("r.{i} == 0, "),
                                    _ => {}
                                }
                            }
                        }
                    }
                    let e = if e.is_empty() { String::new() } else { format!("ensures {e}") };
                    self.emit(&format!("impl {n} {{ #[verifier::external_body] pub fn default() -> (r: Self) {e} {{ unimplemented!() }} }}"));
                }
                "Asn1Der" => {
                    // what asn1_der_derive generates: a SEQUENCE of the fields in order
                    let fs: Vec<(String, String)> = f.map(|f| f.iter().filter_map(|x| x.ident.as_ref().map(|i| (i.to_string(), txt(self.ty(cx, &x.ty).to_token_stream())))).collect()).unwrap_or_default();
                    let k = fs.len();
                    let enc = fs.iter().map(|(i, _)| format!("der(self.{i}.dv())")).collect::<Vec<_>>().join(" + ");
                    let ok = fs.iter().enumerate().map(|(j, (_, t))| format!(" && <{t}>::der_ok(l[{j}])")).collect::<String>();
                    let is = fs.iter().enumerate().map(|(j, (i, t))| format!(" && <{t}>::der_is(l[{j}], s.{i})")).collect::<String>();
                    self.emit(&format!(
                        "impl crate::ext::asn1_der::IntoDerObject for {n} {{ open spec fn dv(self) -> (u8, Seq<u8>) {{ use crate::ext::asn1_der::*; (0x30u8, {enc}) }}\n#[verifier::external_body] fn into_der_object(self) -> (r: crate::ext::asn1_der::DerObject) {{ unimplemented!() }}\n#[verifier::external_body] fn serialized_len(&self) -> (r: usize) {{ unimplemented!() }} }}\nimpl crate::ext::asn1_der::FromDerObject for {n} {{ open spec fn der_ok(o: (u8, Seq<u8>)) -> bool {{ use crate::ext::asn1_der::*; o.0 == 0x30 && match seq_read(o.1) {{ Some(l) => l.len() == {k}{ok}, None => false }} }}\nopen spec fn der_is(o: (u8, Seq<u8>), s: Self) -> bool {{ use crate::ext::asn1_der::*; match seq_read(o.1) {{ Some(l) => l.len() == {k}{is}, None => false }} }}\n#[verifier::external_body] fn from_der_object(der_object: crate::ext::asn1_der::DerObject) -> (r: Result<Self, crate::ext::asn1_der::Asn1DerError>) {{ unimplemented!() }} }}"
                    ));
                }
                "RefCast" => {
                    if let Some(Fields::Unnamed(u)) = f {
                        let t = self.ty(cx, &u.unnamed[0].ty);
                        let t = txt(t.to_token_stream());
                        self.emit(&format!("impl {n} {{ #[verifier::external_body] pub fn ref_cast(p: &{t}) -> (r: &Self) ensures r.0 == *p {{ unimplemented!() }} }}"));
                    }
                }
                _ => {}
            }
        }
    }

    /// derived Serialize/Deserialize: the declared fields in order; the obligation is that what is written is read back
    fn derived_serde(&mut self, cx: &Cx, n: &Ident, attrs: &[Attribute], vars: &[(Option<&Ident>, &Fields)]) {
        let d = derives(attrs);
        if !d.iter().any(|x| x == "Serialize") || !d.iter().any(|x| x == "Deserialize") || serde_attr(attrs) != Some((true, true)) {
            return;
        }
        let known = ["Duration", "PublicKey", "Signature", "Trust", "Auth", "Revocation", "VerifyingKey"];
        let (mut tok, mut dom, mut ok, mut is, mut pf) = (String::new(), String::new(), String::new(), String::new(), String::new());
        for (vi, (v, fs)) in vars.iter().enumerate() {
            let mut names = vec![];
            let (mut ts, mut ds, mut os, mut ii, mut ps) = (vec![], String::new(), String::new(), String::new(), String::new());
            let mut rd = 0;
            for (j, f) in fs.iter().enumerate() {
                let t = norm(&f.ty);
                let last = t.rsplit("::").next().unwrap();
                if !(t == "Vec<u8>" || t == "String" || known.contains(&last)) || t.starts_with("libsecp256k1") {
                    return;
                }
                let Some((w, r)) = serde_attr(&f.attrs) else { return };
                let ty = txt(self.ty(cx, &f.ty).to_token_stream());
                let field = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_else(|| j.to_string());
                let acc = if v.is_some() { format!("a{j}") } else { format!("self.{field}") };
                names.push((field.clone(), format!("a{j}"), format!("b{j}")));
                if w {
                    ts.push(format!("<{ty} as Tokd>::tok(&{acc})"));
                }
                let y = if v.is_some() { format!("b{j}") } else { format!("y.{field}") };
                let x = if v.is_some() { format!("a{j}") } else { format!("x.{field}") };
                if r {
                    ds += &format!(" && <{ty} as Read>::de_dom(l[{rd}])");
                    os += &format!(" && <{ty} as Read>::de_ok(l[{rd}])");
                    ii += &format!(" && <{ty} as Read>::de_is(l[{rd}], {y})");
                    rd += 1;
                }
                ps += &format!("<{ty} as RoundTrip>::lemma_rt({x}); ");
            }
            let ts = format!("seq![{}]", ts.join(", "));
            match v {
                None => {
                    tok = format!("Tok::L({ts})");
                    dom = format!("match t {{ Tok::L(l) => l.len() == {rd}{ds}, _ => false }}");
                    ok = format!("match t {{ Tok::L(l) => l.len() == {rd}{os}, _ => false }}");
                    is = format!("match t {{ Tok::L(l) => l.len() == {rd}{ii}, _ => false }}");
                    pf = ps;
                }
                Some(vn) => {
                    let named = matches!(fs, Fields::Named(_));
                    let pat = |k: usize| {
                        let l: Vec<String> = names.iter().map(|x| if named { format!("{}: {}", x.0, if k == 0 { &x.1 } else { &x.2 }) } else { if k == 0 { x.1.clone() } else { x.2.clone() } }).collect();
                        if names.is_empty() { format!("{n}::{vn}") } else if named { format!("{n}::{vn} {{ {} }}", l.join(", ")) } else { format!("{n}::{vn}({})", l.join(", ")) }
                    };
                    tok += &format!("{} => Tok::V({vi}, {ts}), ", pat(0));
                    dom += &format!("(match t {{ Tok::V(v, l) => v == {vi} && l.len() == {rd}{ds}, _ => false }}) || ");
                    ok += &format!("(match t {{ Tok::V(v, l) => v == {vi} && l.len() == {rd}{os}, _ => false }}) || ");
                    is += &format!("{} => (match t {{ Tok::V(v, l) => v == {vi} && l.len() == {rd}{ii}, _ => false }}), ", pat(1));
                    pf += &format!("{} => {{ {ps} }}, ", pat(0));
                }
            }
        }
        if vars.iter().any(|v| v.0.is_some()) {
            tok = format!("match *self {{ {tok} }}");
            dom += "false";
            ok += "false";
            is = format!("match y {{ {is} }}");
            pf = format!("match x {{ {pf} }}");
        }
        let k = format!("{}::{}::derived serde", cx.key, n);
        let st = self.line;
        self.emit(&format!("mod vx_serde_{n} {{ use super::*; use vstd::prelude::*; use crate::ext::serde::*; verus! {{\nimpl Tokd for {n} {{ open spec fn tok(&self) -> Tok {{ {tok} }} }}\nimpl Read for {n} {{ open spec fn de_dom(t: Tok) -> bool {{ {dom} }}\nopen spec fn de_ok(t: Tok) -> bool {{ {ok} }}\nopen spec fn de_is(t: Tok, y: Self) -> bool {{ {is} }} }}\nimpl RoundTrip for {n} {{ proof fn lemma_rt(x: Self) {{ {pf} }} }}\nimpl Serialize for {n} {{ #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {{ unimplemented!() }} }}\nimpl<'de> Deserialize<'de> for {n} {{ #[verifier::external_body] fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {{ unimplemented!() }} }}\n}} }}"));
        self.fns.push(json!({"key": k, "start": st, "end": self.line, "kind": "derived", "props": ["C23"], "loops": 0, "lost": [], "unsupported": []}));
    }

    fn this_error(&mut self, cx: &Cx, n: &Ident, vars: &[Variant]) {
        let mut arms = TokenStream::new();
        let mut nonempty = true;
        for v in vars {
            let vn = &v.ident;
            // #[from]
            if let Fields::Unnamed(u) = &v.fields {
                if u.unnamed.len() == 1 && has_attr(&u.unnamed[0].attrs, "from") {
                    let t = txt(self.ty(cx, &u.unnamed[0].ty).to_token_stream());
                    self.emit(&format!(
                        "impl From<{t}> for {n} {{ fn from(e: {t}) -> (r: Self) ensures r == {n}::{vn}(e) {{ {n}::{vn}(e) }} }}\nimpl vstd::std_specs::convert::FromSpecImpl<{t}> for {n} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(e: {t}) -> Self {{ {n}::{vn}(e) }} }}"
                    ));
                }
            }
            let mut lit = String::new();
            for a in &v.attrs {
                if a.path().is_ident("error") {
                    if let Meta::List(l) = &a.meta {
                        if let Ok(s) = parse2::<LitStr>(l.tokens.clone()) {
                            lit = s.value();
                        }
                    }
                }
            }
            let mut pos = vec![];
            let mut named = BTreeMap::new();
            let mut pats = vec![];
            let mut types = vec![];
            for (i, f) in v.fields.iter().enumerate() {
                let id = match &f.ident {
                    Some(x) => x.clone(),
                    None => format_ident!("a{}", i),
                };
                pats.push(id.clone());
                types.push(norm(&f.ty));
                let e: Expr = parse_quote!(#id);
                if f.ident.is_some() {
                    named.insert(id.to_string(), e);
                } else {
                    pos.push(e);
                }
            }
            let pat: TokenStream = match &v.fields {
                Fields::Named(_) => quote! { #n::#vn { #(#pats),* } },
                Fields::Unnamed(_) => quote! { #n::#vn ( #(#pats),* ) },
                Fields::Unit => quote! { #n::#vn },
            };
            let mut d = self.ds(&cx.maps);
            let e = d.fmt_pieces(&lit, &named, &pos, false).unwrap_or_else(|| parse_quote!("".vx_to_string()));
            arms.extend(quote! { #pat => #e, });
            // does the text have a non-empty part?
            let stripped: String = {
                let mut o = String::new();
                let mut depth = 0;
                for c in lit.chars() {
                    match c {
                        '{' => depth += 1,
                        '}' => depth -= 1,
                        c if depth == 0 => o.push(c),
                        _ => {}
                    }
                }
                o
            };
            if stripped.is_empty() && (types.first().map(|t| t == "String").unwrap_or(true)) {
                nonempty = false;
            }
        }
        let ok = if nonempty { "s.len() > 0" } else { "true" };
        let st = self.line;
        let t = format!(
            "impl VxToString for {n} {{ open spec fn vx_str_ok(&self, s: Seq<char>) -> bool {{ {ok} }}\nfn vx_to_string(&self) -> (r: String) {{ {} }} }}",
            txt(quote! { match self { #arms } })
        );
        self.emit(&t);
        let k = format!("{}::{}::to_string", cx.key, n);
        self.fns.push(json!({"key": k, "start": st, "end": self.line, "kind": "derived", "props": ["C22"], "loops": 0, "lost": [], "unsupported": []}));
    }

    fn konst(&mut self, cx: &Cx, n: &Ident, ty: &Type, e: &Expr) {
        let t = norm(ty);
        if ["u32", "u64", "i64", "usize", "u8", "i32"].contains(&t.as_str()) {
            self.emit(&txt(quote! { pub const #n : #ty = #e; }));
            return;
        }
        let ts = txt(ty.to_token_stream()).replace("& ", "&").replace('&', "&'static ");
        let mut e2 = e.clone();
        let mut ens = String::new();
        let _ = cx;
        if let (Type::Reference(_), Expr::Reference(r)) = (ty, e) {
            if let Expr::Array(a) = &*r.expr {
                let el = &a.elems;
                ens = format!("ensures {n}@ == seq![{}]", el.iter().map(|x| format!("{}u8", norm(x).trim_end_matches("u8"))).collect::<Vec<_>>().join(", "));
            }
        }
        if let Expr::Tuple(t) = e {
            let mut v = vec![];
            for (i, x) in t.elems.iter().enumerate() {
                v.push(format!("{n}.{i}@ == {}@", norm(x)));
            }
            ens = format!("ensures {}", v.join(", "));
        }
        if let Expr::Lit(l) = e {
            if let Lit::Str(_) = &l.lit {
                ens = format!("ensures {n}@ == {}@", norm(e));
            }
        }
        Strip.visit_expr_mut(&mut e2);
        self.emit(&format!("pub exec const {n}: {ts} {ens} {{ {} }}", txt(e2.to_token_stream())));
    }

    fn emit_fn_text(&mut self, t: Vec<(String, J)>) {
        for (text, mut j) in t {
            let st = self.line;
            self.emit(&text);
            j["start"] = json!(st);
            j["end"] = json!(self.line);
            self.fns.push(j);
        }
    }

    fn imp(&mut self, cx: &Cx, i: ItemImpl) {
        if cfg_out(&i.attrs) {
            return;
        }
        let st = norm(&i.self_ty);
        if self.dropped(&cx.key, &st) {
            return;
        }
        let sty = txt(self.ty(cx, &i.self_ty).to_token_stream());
        let (g, wh) = (txt(i.generics.params.to_token_stream()), txt(i.generics.where_clause.to_token_stream()));
        let g = if g.is_empty() { String::new() } else { format!("<{g}>") };
        let Some((_, tr, _)) = &i.trait_ else {
            self.emit(&format!("impl{g} {sty} {wh} {{"));
            for it in &i.items {
                if let ImplItem::Fn(f) = it {
                    if cfg_out(&f.attrs) {
                        continue;
                    }
                    let key = format!("{}::{}::{}", cx.key, base_name(&i.self_ty), f.sig.ident);
                    let t = self.function(cx, &key, &f.sig, Some(&f.block), None, &f.sig.ident.to_string(), "pub ");
                    self.emit_fn_text(t);
                }
                if let ImplItem::Const(c) = it {
                    let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                    self.emit(&txt(quote! { pub const #n : #t = #e; }));
                }
            }
            self.emit("}");
            return;
        };
        let seg = tr.segments.last().unwrap();
        let tn = seg.ident.to_string();
        if SKIP_TRAITS.contains(&tn.as_str()) {
            self.skipped.push(format!("{}: impl {} for {}", cx.key, tn, st));
            return;
        }
        let args: Vec<Type> = match &seg.arguments {
            PathArguments::AngleBracketed(a) => a
                .args
                .iter()
                .filter_map(|x| match x {
                    GenericArgument::Type(t) => Some(t.clone()),
                    _ => None,
                })
                .collect(),
            _ => vec![],
        };
        let argkey = if args.is_empty() { String::new() } else { format!("<{}>", args.iter().map(norm).collect::<Vec<_>>().join(",")) };
        let assoc: BTreeMap<String, Type> = i
            .items
            .iter()
            .filter_map(|x| match x {
                ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                _ => None,
            })
            .collect();
        let fns: Vec<&ImplItemFn> = i
            .items
            .iter()
            .filter_map(|x| match x {
                ImplItem::Fn(f) => Some(f),
                _ => None,
            })
            .collect();
        let fkey = |f: &ImplItemFn| format!("{}::{}::{}{}", cx.key, st, f.sig.ident, argkey);
        match tn.as_str() {
            "FromStr" | "Display" => {
                self.emit(&format!("impl{g} {sty} {wh} {{"));
                for f in &fns {
                    let k = fkey(f);
                    let ss = assoc.get("Err").map(|t| ("Err".to_string(), self.ty(cx, t)));
                    let t = self.function(cx, &k, &f.sig, Some(&f.block), ss, &f.sig.ident.to_string(), "pub ");
                    self.emit_fn_text(t);
                }
                self.emit("}");
                if tn == "Display" {
                    if let Some(t) = self.ov.items.get(&format!("vxstr {}::{}", cx.key, st)).cloned() {
                        self.emit(&format!("impl VxToString for {sty} {{ {t}\nfn vx_to_string(&self) -> (r: String) {{ let mut f = crate::vx::fmt::Formatter::vx_new(); let _ = self.fmt(&mut f); f.vx_finish() }} }}"));
                    }
                }
            }
            "ToString" => {
                let t = self.ov.items.get(&format!("vxstr {}::{}", cx.key, st)).cloned().unwrap_or("open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { true }".into());
                self.emit(&format!("impl VxToString for {sty} {{ {t}"));
                for f in &fns {
                    let k = fkey(f);
                    let t = self.function(cx, &k, &f.sig, Some(&f.block), None, "vx_to_string", "");
                    self.emit_fn_text(t);
                }
                self.emit("}");
            }
            "From" | "TryFrom" => {
                let a = txt(self.ty(cx, &args[0]).to_token_stream());
                let f = fns[0];
                let k = fkey(f);
                let ov = self.ov.fns.get(&k).cloned().unwrap_or_default();
                let trm = txt({
                    let mut p = tr.clone();
                    let mut d = self.ds(&cx.maps);
                    d.visit_path_mut(&mut p);
                    p.to_token_stream()
                });
                self.emit(&format!("impl{g} {trm} for {sty} {wh} {{"));
                let mut err = String::new();
                if let Some(e) = assoc.get("Error") {
                    err = txt(self.ty(cx, e).to_token_stream());
                    self.emit(&format!("type Error = {err};"));
                }
                let t = self.function(cx, &k, &f.sig, Some(&f.block), None, &f.sig.ident.to_string(), "");
                self.emit_fn_text(t);
                self.emit("}");
                let p0 = ov.params.first().cloned().unwrap_or("v".into());
                let tos = |s: &str| {
                    let mut m = BTreeMap::new();
                    m.insert(p0.clone(), "self".to_string());
                    m.insert("Self".to_string(), sty.clone());
                    subst(s, &m)
                };
                if tn == "From" {
                    if !ov.fromspec.is_empty() {
                        self.emit(&format!("impl{g} vstd::std_specs::convert::FromSpecImpl<{a}> for {sty} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec({p0}: {a}) -> Self {{ {} }} }}", ov.fromspec));
                    } else {
                        self.emit(&format!("impl{g} vstd::std_specs::convert::FromSpecImpl<{a}> for {sty} {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: {a}) -> Self {{ arbitrary() }} }}"));
                    }
                    if i.generics.params.is_empty() {
                        let rel = if !ov.fromspec.is_empty() {
                            format!("r == {}", tos(&ov.fromspec))
                        } else if !ov.tryrel.is_empty() {
                            tos(&ov.tryrel)
                        } else {
                            "true".into()
                        };
                        let req = if ov.requires.trim().is_empty() { String::new() } else { tos(&ov.requires) };
                        let req = if req.is_empty() { "true".to_string() } else { req.trim().trim_end_matches(',').replace(",\n", " && ") };
                        self.emit(&format!("impl VxInto<{sty}> for {a} {{ open spec fn into_req(self) -> bool {{ {req} }} open spec fn into_rel(self, r: {sty}) -> bool {{ {rel} }} fn vx_into(self) -> (r: {sty}) {{ <{sty} as From<{a}>>::from(self) }} }}"));
                    }
                } else {
                    self.emit(&format!("impl{g} vstd::std_specs::convert::TryFromSpecImpl<{a}> for {sty} {{ open spec fn obeys_try_from_spec() -> bool {{ false }} open spec fn try_from_spec(v: {a}) -> Result<Self, Self::Error> {{ arbitrary() }} }}"));
                    let rel = if !ov.tryrel.is_empty() { tos(&ov.tryrel) } else { "true".into() };
                    self.emit(&format!("impl VxTryInto<{sty}> for {a} {{ type Error = {err}; open spec fn ti_rel(self, r: Result<{sty}, {err}>) -> bool {{ {rel} }} fn vx_try_into(self) -> (r: Result<{sty}, {err}>) {{ <{sty} as TryFrom<{a}>>::try_from(self) }} }}"));
                }
            }
            _ => {
                let mut p = tr.clone();
                let mut d = self.ds(&cx.maps);
                d.visit_path_mut(&mut p);
                let trm = txt(p.to_token_stream());
                self.emit(&format!("impl{g} {trm} for {sty} {wh} {{"));
                let own = self.ov.items.get(&format!("impl {}::{}:{}", cx.key, st, tn)).cloned();
                if let Some(t) = own.or_else(|| self.ov.items.get(&format!("impl {}::*:{}", cx.key, tn)).cloned()) {
                    self.emit(&t);
                }
                let mut fns = fns;
                if tn == "Hash" && !fns.iter().any(|f| f.sig.ident == "hash_slice") {
                    self.emit("#[verifier::external_body] fn hash_slice<VxH: crate::vx::hash::Hasher>(data: &[Self], state: &mut VxH) { unimplemented!() }");
                }
                if tn == "Visitor" {
                    // the model of serde knows these two
                    let known = ["visit_str", "visit_bytes"];
                    for f in fns.iter().filter(|f| !known.contains(&f.sig.ident.to_string().as_str())) {
                        self.skipped.push(fkey(f));
                    }
                    fns.retain(|f| known.contains(&f.sig.ident.to_string().as_str()));
                    for (k, t) in known.iter().zip(["&str", "&[u8]"]) {
                        if !fns.iter().any(|f| f.sig.ident == k) {
                            self.emit(&format!("#[verifier::external_body] fn {k}<E: crate::ext::serde::de::Error>(self, v: {t}) -> Result<Self::Value, E> {{ unimplemented!() }}"));
                        }
                    }
                }
                for (n, t) in &assoc {
                    let t = txt(self.ty(cx, t).to_token_stream());
                    self.emit(&format!("type {n} = {t};"));
                }
                for f in &fns {
                    let k = fkey(f);
                    let t = self.function(cx, &k, &f.sig, Some(&f.block), None, &f.sig.ident.to_string(), "");
                    self.emit_fn_text(t);
                }
                self.emit("}");
            }
        }
    }

    /// text of the function (and of functions lifted out of it go to self.tail)
    fn function(
        &mut self,
        cx: &Cx,
        key: &str,
        sig: &Signature,
        block: Option<&Block>,
        self_subst: Option<(String, Type)>,
        name: &str,
        vis: &str,
    ) -> Vec<(String, J)> {
        let drops = self.ov.drops.clone();
        if drops.iter().any(|d| wild(d, key)) {
            self.skipped.push(key.to_string());
            return vec![];
        }
        self.seen.insert(key.to_string());
        let ov_opt = self.ov.fns.get(key).cloned();
        let has = ov_opt.is_some();
        let mut ov = ov_opt.unwrap_or_default();
        match std::env::var("VX_PROBE").as_deref() {
            Ok("start") if has => ov.start.push_str("\n  proof { assert(false); }\n"),
            Ok("end") if has => ov.tail.push_str("\n  proof { assert(false); }\n"),
            _ => {}
        }
        let mut ov = ov;
        if has {
            self.ov.fns.get_mut(key).unwrap().used = true;
        }
        let mut lost: Vec<String> = vec![];
        let static_block = block.map(|b| {
            let mut b = b.clone();
            if !self.statics.is_empty() {
                Statics(&self.statics).visit_block_mut(&mut b);
            }
            b
        });
        let block = static_block.as_ref();

        // ---- signature
        let mut ds = self.ds(&cx.maps);
        ds.self_subst = self_subst.clone();
        let mut sig = sig.clone();
        let mut muts: Vec<String> = vec![];
        let mut gen_extra: Vec<TokenStream> = vec![];
        let mut real: Vec<(String, Type)> = vec![];
        let mut ptext: Vec<String> = vec![];
        let mut has_self = None;
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    has_self = Some(r.mutability.is_some() && r.reference.is_some());
                    ptext.push(txt(quote! { #r }));
                }
                FnArg::Typed(t) => {
                    let n = match &*t.pat {
                        Pat::Ident(i) => {
                            if i.mutability.is_some() {
                                muts.push(i.ident.to_string());
                            }
                            i.ident.to_string()
                        }
                        Pat::Wild(_) => format!("vx_p{}", real.len()),
                        _ => {
                            lost.push("pattern parameter".into());
                            format!("vx_p{}", real.len())
                        }
                    };
                    if let Type::ImplTrait(it) = &*t.ty {
                        let b = norm(&it.bounds);
                        let id = format_ident!("VxG{}", gen_extra.len());
                        if b == "AsMut<[u8]>" {
                            gen_extra.push(quote! { #id: crate::vx::VxBytesMut });
                        } else {
                            let bb = &it.bounds;
                            gen_extra.push(quote! { #id: #bb });
                        }
                        *t.ty = parse_quote!(#id);
                    }
                    ds.visit_type_mut(&mut t.ty);
                    real.push((n.clone(), (*t.ty).clone()));
                    ptext.push(format!("{n}: {}", txt(t.ty.to_token_stream())));
                }
            }
        }
        if let ReturnType::Type(_, t) = &mut sig.output {
            ds.visit_type_mut(t);
        }
        let ret = ret_type(&sig).map(|t| txt(t.to_token_stream()));
        let mut generics = sig.generics.clone();
        for p in generics.params.iter_mut() {
            ds.visit_generic_param_mut(p);
        }
        if let Some(w) = &mut generics.where_clause {
            ds.visit_where_clause_mut(w);
        }
        let mut gp: Vec<String> = generics.params.iter().map(|p| txt(p.to_token_stream())).collect();
        gp.extend(gen_extra.iter().map(|g| txt(g.clone())));
        let gtext = if gp.is_empty() { String::new() } else { format!("<{}>", gp.join(", ")) };
        let wtext = txt(generics.where_clause.to_token_stream());

        // ---- parameter map
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        let mut ovp: Vec<String> = ov.params.iter().filter(|p| *p != "self").cloned().collect();
        let mut tgparam = false;
        if ovp.first().map(|p| p == "vx_tg").unwrap_or(false) {
            ovp.remove(0);
            tgparam = true;
        }
        if has {
            if ovp.len() != real.len() {
                lost.push(format!("parameters: contract has {}, code has {}", ovp.len(), real.len()));
            } else {
                for (a, (b, _)) in ovp.iter().zip(real.iter()) {
                    if a != b {
                        map.insert(a.clone(), b.clone());
                    }
                }
            }
        }
        if tgparam {
            ptext.insert(0, "vx_tg: &mut crate::trust_graph::TrustGraph<crate::service::storage_impl::SQLiteStorage>".into());
        }

        // ---- body
        let mut body_text = None;
        let mut nloops = 0;
        let mut shapes: Vec<String> = vec![];
        let mut unsupported = vec![];
        if let Some(b) = block {
            let mut b = b.clone();
            let orig_text = norm(&b);
            Strip.visit_block_mut(&mut b);
            // `collect()` as the value of the function collects into its return type
            if let (Some(Stmt::Expr(Expr::MethodCall(m), None)), Some(t)) = (b.stmts.last_mut(), ret_type(&sig)) {
                if m.method == "collect" && m.turbofish.is_none() && norm(&t).starts_with("Result<") {
                    m.turbofish = Some(parse_quote!(::<#t>));
                }
            }
            // nested functions
            let mut ren = BTreeMap::new();
            let mut nested = vec![];
            b.stmts.retain(|s| {
                if let Stmt::Item(Item::Fn(f)) = s {
                    nested.push(f.clone());
                    false
                } else {
                    true
                }
            });
            for f in &nested {
                ren.insert(f.sig.ident.to_string(), format!("vxn{}_{}", self.fns.len() + self.seen.len(), f.sig.ident));
            }
            if !nested.is_empty() {
                Rename(ren.clone()).visit_block_mut(&mut b);
                for f in &nested {
                    let mut fb = (*f.block).clone();
                    Rename(ren.clone()).visit_block_mut(&mut fb);
                    let k = format!("{key}::{}", f.sig.ident);
                    let t = self.function(cx, &k, &f.sig, Some(&fb), None, &ren[&f.sig.ident.to_string()], "pub ");
                    self.push_tail(t);
                }
            }
            // roles
            let mut roles = Roles { want: &ov.roles, found: Default::default(), count: Default::default() };
            syn::visit::Visit::visit_block(&mut roles, &b);
            for (n, m) in &ov.roles {
                match roles.found.get(n) {
                    Some(v) => {
                        map.insert(format!("${n}"), v.clone());
                    }
                    None => lost.push(format!("local `{n}` ({m})")),
                }
            }
            // hooks
            let mut at = AtIns { ov: &ov, hit: vec![0; ov.at.len()] };
            at.visit_block_mut(&mut b);
            for (i, h) in at.hit.iter().enumerate() {
                if *h == 0 {
                    lost.push(format!("statement `{}`", ov.at[i].0));
                }
            }
            // lifted closures
            let lift_ret = if !ov.lift.is_empty() {
                parse_str::<Type>(&ov.lift).ok().map(|t| self.ty(cx, &t))
            } else {
                ret_type(&sig).and_then(|t| self.res_from.get(&norm(&t).rsplit("::").next().unwrap().to_string()).cloned())
            };
            ds.lift = Some(LiftCtx { fname: name.to_string(), params: real.clone(), ret: lift_ret, body_text: orig_text });
            ds.collect_hint = ov.collect.clone();
            if cx.is_storage {
                ds.sql = Some(has_self.unwrap_or(false));
            }
            ds.sql_base = self.sqls.len();
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ds.visit_block_mut(&mut b)));
            if ok.is_err() {
                ds.unsupported.push("translation failed".into());
            }
            for s in ds.sqls.drain(..) {
                self.sqls.push(s);
                self.sql_owner.push(key.to_string());
            }
            nloops = ds.loops.len();
            shapes = ds.loops.iter().map(|l| l.shape.clone()).collect();
            unsupported = ds.unsupported.clone();
            let expect = ov.nloops.unwrap_or(ov.loops.len());
            if has && ov.trusted.is_empty() && nloops != expect {
                lost.push(format!("loops: contract has {expect}, code has {nloops}"));
            }
            let lifted = std::mem::take(&mut ds.lifted);
            for f in lifted {
                let k = format!("{}::{}", cx.key, f.sig.ident);
                // already desugared paths are stable under a second mapping
                let t = self.function(cx, &k, &f.sig, Some(&f.block), None, &f.sig.ident.to_string(), "pub ");
                self.push_tail(t);
            }
            // assemble
            let mut pre: Vec<Stmt> = vec![];
            for m in &muts {
                let id = ident(m);
                pre.push(parse_quote!(let mut #id = #id;));
            }
            let mut stmts = b.stmts.clone();
            if has && quote::quote!(#(#stmts)*).to_string().contains("\"\"") {
                ov.start.push_str("\n  proof { reveal_strlit(\"\"); }\n");
            }
            let txt = quote::quote!(#(#stmts)*).to_string();
            if has && key.starts_with("service") && (txt.contains("==") || txt.contains("!=")) {
                ov.start.push_str("\n  proof { crate::vx::axiom_string_obeys(); }\n");
            }
            if has && (txt.contains("==") || txt.contains("!=")) {
                ov.start.push_str("\n  proof { crate::vx::axiom_bytes_obey(); }\n");
            }
            if !ov.start.trim().is_empty() {
                stmts.insert(0, parse_quote!(__vxh!(start);));
            }
            if !ov.tail.trim().is_empty() {
                let last = stmts.pop();
                match last {
                    Some(Stmt::Expr(e, None)) => {
                        stmts.push(parse_quote!(let vx_ret = #e;));
                        stmts.push(parse_quote!(__vxh!(tail);));
                        stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                    }
                    Some(s) => {
                        stmts.push(s);
                        stmts.push(parse_quote!(__vxh!(tail);));
                    }
                    None => stmts.push(parse_quote!(__vxh!(tail);)),
                }
            }
            let all: Vec<Stmt> = pre.into_iter().chain(stmts).collect();
            let mut fh = FH { ov: &ov, map: &map };
            let mut p = print::P { out: String::new(), ind: 0, hooks: &mut fh };
            p.ts(quote! { { #(#all)* } });
            body_text = Some(p.out);
        }

        let demoted = self.demote.contains(key);
        let external = block.is_some() && (!has || !ov.trusted.is_empty() || demoted || !lost.is_empty() || !unsupported.is_empty());
        let kind = if block.is_none() {
            "trait"
        } else if !has {
            "uncontracted"
        } else if !ov.trusted.is_empty() {
            "trusted"
        } else if demoted || !lost.is_empty() || !unsupported.is_empty() {
            "demoted"
        } else {
            "proved"
        };

        // A body that is not verified on this run is cut off by an assumption rather than by
        // `external_body`: Verus orders its nodes by that attribute, and an added one reorders
        // (and so can unsettle) unrelated obligations.
        let cut = external && kind != "trusted" && !ret.as_deref().unwrap_or("").contains("impl ");
        let mut s = String::new();
        if external && !cut {
            s.push_str("#[verifier::external_body]\n");
        } else if cut {
        } else if block.is_some() {
            if nloops > 0 {
                s.push_str("#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n");
            }
            s.push_str(&ov.attrs);
        }
        let head_at = s.len();
        let rn = "vx_r".to_string();
        if !ov.ret.is_empty() {
            map.insert(ov.ret.clone(), rn.clone());
        }
        // a parameter that shadows its own function (Verus refers to the function by name in its specification)
        let shadow = !ptext.iter().any(|p| p.ends_with("self")) && ptext.iter().any(|p| p.trim_start_matches("mut ").trim_start().starts_with(&format!("{name}:")) || p.starts_with(&format!("{name} :")));
        let emit_name = if shadow { format!("{name}__fn") } else { name.to_string() };
        s.push_str(&format!("{vis}fn {emit_name}{gtext}({})", ptext.join(", ")));
        if let Some(r) = &ret {
            s.push_str(&format!(" -> ({rn}: {r})"));
        }
        if !wtext.is_empty() {
            s.push_str(&format!("\n{wtext}"));
            if !wtext.ends_with(',') {
                s.push(',');
            }
        }
        let clause = |t: &str| -> String {
            let t = subst(t, &map);
            let t = t.trim_end().to_string();
            if has_comma(&t) {
                t
            } else {
                t + ","
            }
        };
        if !ov.requires.trim().is_empty() {
            s.push_str(&format!("\nrequires\n{}", clause(&ov.requires)));
        }
        let mut ens = String::new();
        if !ov.ensures.trim().is_empty() {
            ens.push_str(&clause(&ov.ensures));
            ens.push('\n');
        }
        if !ov.tryrel.trim().is_empty() {
            ens.push_str(&clause(&ov.tryrel));
        }
        if !ens.trim().is_empty() {
            s.push_str(&format!("\nensures\n{ens}"));
        }
        let head = s[head_at..].to_string();
        match (&body_text, external) {
            (None, _) => s.push(';'),
            (Some(b), true) => {
                s.push_str(if cut { "\n{ proof { assume(false); } vstd::pervasive::unreached() }" } else { "\n{ unimplemented!() }" });
                if std::env::var("VX_DUMP").is_ok() {
                    s.push_str(&format!("\n/*BODY {} */", b.replace("/*", "").replace("*/", "")));
                }
            }
            (Some(b), false) => {
                s.push('\n');
                s.push_str(b.trim());
            }
        }
        let j = json!({
            "key": key, "kind": kind, "props": ov.props, "lost": lost, "unsupported": unsupported, "loops": nloops, "shapes": shapes, "head": head,
            "trusted": ov.trusted, "start": 0, "end": 0, "probed": kind == "proved",
        });
        vec![(s, j)]
    }

    fn push_tail(&mut self, t: Vec<(String, J)>) {
        // hoisted functions are emitted at the end of the module; mark with a placeholder
        for (text, j) in t {
            self.tail.push_str(&format!("/*VXFN {}*/\n{}\n/*VXEND {}*/\n", j, text, j["key"].as_str().unwrap()));
        }
    }
}

/// types declared inside a function body (with their impls and imports) become items of the module
fn hoist_local_types(items: Vec<Item>) -> Vec<Item> {
    fn from_block(b: &mut Block, out: &mut Vec<Item>) {
        if !b.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Struct(_) | Item::Enum(_)))) {
            return;
        }
        b.stmts.retain(|s| match s {
            Stmt::Item(i @ (Item::Struct(_) | Item::Enum(_) | Item::Impl(_) | Item::Use(_))) => {
                out.push(i.clone());
                false
            }
            _ => true,
        });
    }
    let mut out = vec![];
    let mut res = vec![];
    for mut it in items {
        match &mut it {
            Item::Fn(f) if !cfg_out(&f.attrs) => from_block(&mut f.block, &mut out),
            Item::Impl(i) if !cfg_out(&i.attrs) => {
                for x in &mut i.items {
                    if let ImplItem::Fn(f) = x {
                        from_block(&mut f.block, &mut out);
                    }
                }
            }
            _ => {}
        }
        res.push(it);
    }
    res.extend(out);
    res
}

/// what a `#[serde(..)]` attribute says about a field: written, read; None where it is not understood
fn serde_attr(attrs: &[Attribute]) -> Option<(bool, bool)> {
    let (mut w, mut r) = (true, true);
    for a in attrs.iter().filter(|a| a.path().is_ident("serde")) {
        let l = match &a.meta {
            Meta::List(l) => l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).ok()?,
            _ => return None,
        };
        for m in l {
            match norm(m.path()).as_str() {
                "skip" => (w, r) = (false, false),
                "skip_serializing" => w = false,
                "skip_deserializing" => r = false,
                "rename" | "default" | "alias" | "rename_all" | "deny_unknown_fields" => {}
                _ => return None,
            }
        }
    }
    Some((w, r))
}

fn base_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        t => norm(t),
    }
}

fn flatten(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut q = pre;
            q.push(p.ident.to_string());
            flatten(&p.tree, q, out)
        }
        UseTree::Name(n) => {
            let mut q = pre;
            if n.ident != "self" {
                q.push(n.ident.to_string());
            }
            out.push((q, None))
        }
        UseTree::Rename(r) => {
            let mut q = pre;
            if r.ident != "self" {
                q.push(r.ident.to_string());
            }
            out.push((q, Some(r.rename.to_string())))
        }
        UseTree::Glob(_) => {
            let mut q = pre;
            q.push("*".into());
            out.push((q, None))
        }
        UseTree::Group(g) => {
            for x in &g.items {
                flatten(x, pre.clone(), out)
            }
        }
    }
}

fn collect_res_from(dir: &FsPath, ex: &mut Ex, maps: &PathMap) {
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let p = e.path();
        if p.extension().map(|x| x == "rs").unwrap_or(false) {
            if let Ok(f) = parse_file(&std::fs::read_to_string(&p).unwrap()) {
                for it in f.items {
                    if let Item::Impl(i) = it {
                        if let Some((_, tr, _)) = &i.trait_ {
                            let s = tr.segments.last().unwrap();
                            if s.ident == "From" {
                                if let PathArguments::AngleBracketed(a) = &s.arguments {
                                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                                        if norm(t).starts_with("Result<") {
                                            let mut t = t.clone();
                                            ex.ds(maps).visit_type_mut(&mut t);
                                            ex.res_from.insert(base_name(&i.self_ty), t);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

fn main() {
    let mut repo = PathBuf::from("/repo");
    let mut ovdir = PathBuf::from("/verif/contracts");
    let mut outf = PathBuf::from("/dev/stdout");
    let mut mapf = None;
    let mut demote = HashSet::new();
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--repo" => repo = a.next().unwrap().into(),
            "--contracts" => ovdir = a.next().unwrap().into(),
            "--out" => outf = a.next().unwrap().into(),
            "--map" => mapf = Some(PathBuf::from(a.next().unwrap())),
            "--demote" => {
                demote.insert(a.next().unwrap());
            }
            "--probe" => std::env::set_var("VX_PROBE", a.next().unwrap()),
            _ => panic!("unknown option {x}"),
        }
    }
    let mut ov = Overlay::default();
    let mut names: Vec<PathBuf> = std::fs::read_dir(&ovdir).unwrap().flatten().map(|e| e.path()).collect();
    names.sort();
    for p in &names {
        if p.extension().map(|x| x == "ov").unwrap_or(false) {
            overlay::parse(&std::fs::read_to_string(p).unwrap(), &mut ov);
        }
    }
    let mut ex = Ex {
        ov,
        out: String::new(),
        line: 1,
        fns: vec![],
        demote,
        sqls: vec![],
        sql_owner: vec![],
        res_from: Default::default(),
        skipped: vec![],
        tail: String::new(),
        seen: Default::default(),
        known_types: Default::default(),
        statics: Default::default(),
    };
    ex.emit("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code, unused_must_use)]\n#![feature(allocator_api)]\nuse vstd::prelude::*;");
    let mut libs: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for m in ["vx", "ext", "spec", "graph", "db", "svc"] {
        let st = ex.line;
        ex.emit(&format!("pub mod {m} {{"));
        let t = std::fs::read_to_string(ovdir.join(format!("{m}.rs"))).unwrap();
        ex.emit(&t);
        ex.emit("}");
        libs.insert(m.to_string(), (st, ex.line));
    }
    let svc = repo.join("service/src");
    let maps = PathMap { krate: "service".into(), externs: HashSet::new() };
    collect_res_from(&svc, &mut ex, &maps);
    ex.crate_mod("fluence_keypair", &repo.join("keypair/src"), "lib.rs");
    ex.crate_mod("trust_graph", &repo.join("trust-graph/src"), "lib.rs");
    ex.crate_mod("service", &svc, "main.rs");
    let (sqltext, bad) = sql::render(&ex.sqls);
    ex.emit(&sqltext);
    ex.emit("fn main() {}");
    // line ranges of hoisted functions
    let mut extra = vec![];
    let mut cur: Option<(J, usize)> = None;
    for (i, l) in ex.out.lines().enumerate() {
        if let Some(r) = l.strip_prefix("/*VXFN ") {
            let j: J = serde_json::from_str(r.trim_end_matches("*/")).unwrap();
            cur = Some((j, i + 1));
        } else if l.starts_with("/*VXEND ") {
            let (mut j, st) = cur.take().unwrap();
            j["start"] = json!(st);
            j["end"] = json!(i + 1);
            extra.push(j);
        }
    }
    ex.fns.extend(extra);
    for b in &bad {
        let k = ex.sql_owner[*b].clone();
        for f in ex.fns.iter_mut() {
            if f["key"] == json!(k) {
                f["unsupported"].as_array_mut().unwrap().push(json!(format!("SQL outside the supported fragment: {}", ex.sqls[*b])));
            }
        }
    }
    let missing: Vec<J> = ex.ov.fns.values().filter(|f| !f.used).map(|f| json!({"key": f.path, "props": f.props})).collect();
    std::fs::write(&outf, &ex.out).unwrap();
    if let Some(m) = mapf {
        let j = json!({"functions": ex.fns, "missing": missing, "skipped": ex.skipped, "sql": ex.sqls, "sql_owner": ex.sql_owner, "libs": libs});
        std::fs::write(m, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    }
}
