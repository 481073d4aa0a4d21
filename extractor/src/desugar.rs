//! Mechanical desugaring of function bodies into the Verus subset.
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn norm(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

#[derive(Clone, Debug)]
pub struct LoopInfo {
    pub kind: String, // for, while, loop, pipe
    pub pat: Option<String>,
    pub base: String, // source text of what is iterated, normalised
    pub shape: String, // adaptor structure of the loop, without the leaf expressions
}

/// adaptor structure of an iterated expression
fn shape(e: &Expr) -> String {
    match e {
        Expr::Paren(p) => shape(&p.expr),
        Expr::Reference(r) => shape(&r.expr),
        Expr::Range(_) => "range".into(),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "iter" | "into_iter" | "iter_mut" | "vx_into_iter" | "as_slice" | "clone" | "to_vec" | "borrow" => shape(&m.receiver),
                "rev" | "step_by" | "skip" | "take" | "enumerate" | "zip" | "chain" | "windows" | "chunks" | "lines" | "split" | "drain" | "cloned" | "copied"
                | "map" | "filter" | "filter_map" | "flat_map" | "peekable" | "skip_while" | "take_while" | "split_first" | "vx_rev" | "vx_step_by" => {
                    format!("{}.{}", shape(&m.receiver), n.trim_start_matches("vx_"))
                }
                _ => "seq".into(),
            }
        }
        Expr::Index(i) => match &*i.index {
            Expr::Range(_) => format!("{}[..]", shape(&i.expr)),
            _ => "seq".into(),
        },
        _ => "seq".into(),
    }
}

pub struct Ds<'a> {
    pub maps: &'a PathMap,
    pub n: usize,
    pub loops: Vec<LoopInfo>,
    pub collects: usize,
    pub collect_hint: BTreeMap<usize, String>,
    pub unsupported: Vec<String>,
    pub hint: Option<String>,
    pub sql: Option<bool>, // storage module: Some(mutable self?)
    pub sqls: Vec<String>,
    pub sql_base: usize,
    pub self_subst: Option<(String, Type)>, // Self::Err -> type
    pub lift: Option<LiftCtx>,
    pub lifted: Vec<ItemFn>,
    pub used_tg: bool,
    pub sites: Vec<String>,
    pub bufs: HashSet<String>, // results of `as_mut()`
    pub term: String,
}

pub struct LiftCtx {
    pub fname: String,
    pub params: Vec<(String, Type)>,
    pub ret: Option<Type>,
    pub body_text: String,
}

pub struct PathMap {
    pub krate: String,
    pub externs: HashSet<String>,
}

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

fn pe<T: syn::parse::Parse>(ts: TokenStream) -> T {
    let s = ts.to_string();
    syn::parse2(ts).unwrap_or_else(|e| panic!("internal parse error {e} in {s}"))
}

/// a loop body has type (): its last expression may be written without `;`
fn semi(v: &[Stmt]) -> Vec<Stmt> {
    let mut v = v.to_vec();
    if let Some(Stmt::Expr(_, t @ None)) = v.last_mut() {
        *t = Some(Default::default());
    }
    v
}

impl PathMap {
    pub fn map_path_str(&self, segs: &[String]) -> Option<Vec<String>> {
        let f = segs[0].as_str();
        let s: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
        let v = |x: &[&str]| Some(x.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        let cat = |a: &[&str], b: &[&str]| {
            Some(a.iter().chain(b.iter()).map(|s| s.to_string()).collect::<Vec<_>>())
        };
        match s.as_slice() {
            ["crate", "fluence_keypair" | "ext" | "vx" | "spec", ..] => return Some(segs.to_vec()),
            ["crate", rest @ ..] => return cat(&["crate", &self.krate], rest),
            ["std" | "core", "time", rest @ ..] => return cat(&["crate", "vx"], rest),
            ["failure", "_core", "time", rest @ ..] => return cat(&["crate", "vx"], rest),
            ["std" | "core", "collections", rest @ ..] => return cat(&["crate", "vx"], rest),
            ["std" | "core", "hash", rest @ ..] => return cat(&["crate", "vx", "hash"], rest),
            ["std" | "core", "borrow", rest @ ..] => return cat(&["crate", "vx"], rest),
            ["std" | "core", "fmt", rest @ ..] => return cat(&["crate", "vx", "fmt"], rest),
            ["std" | "core", "num", "ParseIntError"] => return v(&["crate", "vx", "ParseIntError"]),
            ["std" | "core", "array", "TryFromSliceError"] => return v(&["crate", "vx", "TryFromSliceError"]),
            ["std" | "core", "cmp", x @ ("min" | "max")] => return v(&["crate", "vx", x]),
            ["std" | "core", "mem", "transmute"] => return v(&["crate", "vx", "transmute"]),
            ["std", "sync", "Arc"] => return v(&["crate", "vx", "Arc"]),
            ["IntoIterator"] => return v(&["crate", "vx", "VxIntoIter"]),
            ["u64", "max_value"] => return v(&["crate", "vx", "u64_max_value"]),
            ["u64", "from_le_bytes"] => return v(&["crate", "vx", "u64_from_le_bytes"]),
            ["u32", "default"] => return v(&["crate", "vx", "u32_default"]),
            ["u64", "default"] => return v(&["crate", "vx", "u64_default"]),
            ["u32", "try_from"] => return v(&["crate", "vx", "u32_try_from"]),
            ["i64", "from"] => return v(&["crate", "vx", "i64_from"]),
            _ => {}
        }
        if self.externs.contains(f) {
            if f == "trust_graph" || f == "fluence_keypair" {
                return cat(&["crate"], &s);
            }
            return cat(&["crate", "ext"], &s);
        }
        None
    }
    pub fn map_path(&self, p: &mut Path) {
        if p.leading_colon.is_some() || p.segments.is_empty() {
            return;
        }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(new) = self.map_path_str(&segs) {
            // keep generic args of the last segments
            let mut args: Vec<PathArguments> = p.segments.iter().map(|s| s.arguments.clone()).collect();
            let mut out: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
            let k = new.len();
            for (i, n) in new.iter().enumerate() {
                let from_end = k - i;
                let a = if from_end <= args.len() {
                    let l = args.len();
                    std::mem::replace(&mut args[l - from_end], PathArguments::None)
                } else {
                    PathArguments::None
                };
                out.push(PathSegment { ident: ident(n), arguments: a });
            }
            p.segments = out;
        }
    }
}

enum Stage {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Enumerate,
    Cloned,
}

struct HasQ(bool);
impl<'a> Visit<'a> for HasQ {
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_q(e: &Expr) -> bool {
    let mut h = HasQ(false);
    h.visit_expr(e);
    h.0
}

impl<'a> Ds<'a> {
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    fn block_of(e: Expr) -> Vec<Stmt> {
        match e {
            Expr::Block(b) if b.label.is_none() => b.block.stmts,
            e => vec![Stmt::Expr(e, None)],
        }
    }

    /// closure or path applied to argument expressions
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Expr {
        match f {
            Expr::Closure(c) => {
                let mut st: Vec<Stmt> = vec![];
                for (p, a) in c.inputs.iter().zip(args.into_iter()) {
                    match p {
                        Pat::Wild(_) => {}
                        Pat::Type(pt) => {
                            let (pp, ty) = (&pt.pat, &pt.ty);
                            st.push(pe(quote! { let #pp : #ty = #a; }))
                        }
                        p => st.push(pe(quote! { let #p = #a; })),
                    }
                }
                let body = (*c.body).clone();
                let body = if has_q(&body) { self.cps(body) } else { body };
                if st.is_empty() {
                    return body;
                }
                st.extend(Self::block_of(body));
                pe(quote! { { #(#st)* } })
            }
            f => pe(quote! { #f(#(#args),*) }),
        }
    }

    /// body of a closure containing `?`: turn into nested matches
    fn cps(&mut self, e: Expr) -> Expr {
        let stmts = Self::block_of(e);
        self.cps_stmts(stmts)
    }
    fn cps_stmts(&mut self, mut st: Vec<Stmt>) -> Expr {
        for i in 0..st.len() {
            let n = self.fresh();
            let v = format_ident!("vx_v{}", n);
            let er = format_ident!("vx_e{}", n);
            match &st[i] {
                Stmt::Local(l) => {
                    if let Some(init) = &l.init {
                        if let Expr::Try(t) = &*init.expr {
                            if !has_q(&t.expr) {
                                let inner = &t.expr;
                                let pat = &l.pat;
                                let pre: Vec<Stmt> = st[..i].to_vec();
                                let rest = self.cps_stmts(st[i + 1..].to_vec());
                                return pe(quote! {{ #(#pre)* match #inner { Ok(#v) => { let #pat = #v; #rest } Err(#er) => Err(#er) } }});
                            }
                        }
                        if has_q(&init.expr) {
                            self.unsupported.push("`?` nested in a closure".into());
                        }
                    }
                }
                Stmt::Expr(Expr::Try(t), Some(_)) if !has_q(&t.expr) => {
                    let inner = &t.expr;
                    let pre: Vec<Stmt> = st[..i].to_vec();
                    let rest = self.cps_stmts(st[i + 1..].to_vec());
                    return pe(quote! {{ #(#pre)* match #inner { Ok(_) => #rest, Err(#er) => Err(#er) } }});
                }
                Stmt::Expr(Expr::Try(t), None) if !has_q(&t.expr) => {
                    // tail `E?` in a closure returning E's value: not expressible without its type
                    let _ = t;
                    self.unsupported.push("tail `?` in a closure".into());
                }
                Stmt::Expr(x, _) => {
                    if has_q(x) {
                        self.unsupported.push("`?`/return nested in a closure".into());
                    }
                }
                _ => {}
            }
        }
        let s: Vec<Stmt> = st.drain(..).collect();
        pe(quote! { { #(#s)* } })
    }

    fn is_option(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "first" | "last" | "get" | "get_mut" | "checked_sub" | "checked_add" | "checked_mul"
                    | "checked_pow" | "checked_div" | "then" | "then_some" | "pop" | "pop_front" | "pop_back" | "peek"
                    | "ok" | "find" | "position" | "as_integer" | "as_string" | "as_binary" | "as_float" | "nth"
                    | "split_first" | "split_last" | "strip_prefix" | "strip_suffix" | "err" => true,
                    "map" | "filter" | "cloned" | "copied" | "as_ref" | "and_then" | "or" | "or_else" | "as_mut" => {
                        self.is_option(&m.receiver)
                    }
                    _ => false,
                }
            }
            Expr::Call(c) => {
                let f = norm(&c.func);
                f == "Some" || f.ends_with("as_public_key")
            }
            Expr::Paren(p) => self.is_option(&p.expr),
            _ => false,
        }
    }

    /// `(*buf).iter()` on the result of `as_mut()`
    fn buf_iter(&self, r: &Expr) -> Option<Expr> {
        let mut x = r;
        while let Expr::Paren(p) = x {
            x = &p.expr;
        }
        if let Expr::Unary(u) = x {
            if matches!(u.op, UnOp::Deref(_)) {
                x = &u.expr;
            }
        }
        if self.bufs.contains(&norm(x)) {
            return Some(pe(quote! { (#x).vx_deref().vx_iter() }));
        }
        None
    }
    fn source(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                match m.method.to_string().as_str() {
                    "into_iter" => Some(pe(quote! { (#r).vx_into_iter() })),
                    "iter" => {
                        if let Some(e) = self.buf_iter(r) {
                            return Some(e);
                        }
                        Some(pe(quote! { (#r).vx_iter() }))
                    }
                    "lines" => Some(pe(quote! { (#r).vx_lines() })),
                    "drain" => Some(pe(quote! { (#r).vx_into_iter() })),
                    "step_by" => {
                        let k = &m.args[0];
                        if let Some((a, b)) = Self::range(r) {
                            Some(pe(quote! { crate::vx::range_step(#a, #b, #k) }))
                        } else {
                            None
                        }
                    }
                    "rev" => {
                        if let Some((a, b)) = Self::range(r) {
                            return Some(pe(quote! { crate::vx::range_rev(#a, #b) }));
                        }
                        None
                    }
                    "vx_into_iter" | "vx_iter" | "vx_lines" => Some(e.clone()),
                    "as_ref" | "clone" => None,
                    _ => None,
                }
            }
            Expr::Paren(p) => self.source(&p.expr),
            Expr::Range(_) => {
                let (a, b) = Self::range(e)?;
                Some(pe(quote! { crate::vx::range(#a, #b) }))
            }
            _ => None,
        }
    }
    fn range(e: &Expr) -> Option<(Expr, Expr)> {
        match e {
            Expr::Paren(p) => Self::range(&p.expr),
            Expr::Range(r) => {
                let s = r.start.as_ref()?;
                let e = r.end.as_ref()?;
                match r.limits {
                    RangeLimits::HalfOpen(_) => Some(((**s).clone(), (**e).clone())),
                    RangeLimits::Closed(_) => Some(((**s).clone(), pe(quote! { (#e) + 1 }))),
                }
            }
            _ => None,
        }
    }

    /// decompose an iterator chain into a materialised base vector and fused stages
    fn chain(&mut self, e: &Expr) -> Option<(Expr, Vec<Stage>)> {
        if let Some(b) = self.source(e) {
            return Some((b, vec![]));
        }
        match e {
            Expr::Paren(p) => self.chain(&p.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "map" | "filter" | "filter_map" => {
                        let (b, mut s) = self.chain(&m.receiver)?;
                        let f = m.args[0].clone();
                        s.push(match n.as_str() {
                            "map" => Stage::Map(f),
                            "filter" => Stage::Filter(f),
                            _ => Stage::FilterMap(f),
                        });
                        Some((b, s))
                    }
                    "enumerate" => {
                        let (b, mut s) = self.chain(&m.receiver)?;
                        if !s.is_empty() {
                            let v = self.mat(b, s);
                            return Some((v, vec![Stage::Enumerate]));
                        }
                        s.push(Stage::Enumerate);
                        Some((b, s))
                    }
                    "cloned" | "copied" => {
                        let (b, mut s) = self.chain(&m.receiver)?;
                        s.push(Stage::Cloned);
                        Some((b, s))
                    }
                    "rev" => {
                        let (b, s) = self.chain(&m.receiver)?;
                        let v = self.mat(b, s);
                        Some((pe(quote! { crate::vx::rev(#v) }), vec![]))
                    }
                    "skip" => {
                        let (b, s) = self.chain(&m.receiver)?;
                        let k = m.args[0].clone();
                        let v = self.mat(b, s);
                        Some((pe(quote! { crate::vx::skip(#v, #k) }), vec![]))
                    }
                    "take" => {
                        let (b, s) = self.chain(&m.receiver)?;
                        let k = m.args[0].clone();
                        let v = self.mat(b, s);
                        Some((pe(quote! { crate::vx::take(#v, #k) }), vec![]))
                    }
                    "zip" => {
                        let (b, s) = self.chain(&m.receiver)?;
                        let v = self.mat(b, s);
                        let a = m.args[0].clone();
                        let (b2, s2) = match self.chain(&a) {
                            Some(x) => x,
                            None => (pe(quote! { (#a).vx_into_iter() }), vec![]),
                        };
                        let v2 = self.mat(b2, s2);
                        Some((pe(quote! { crate::vx::zip(#v, #v2) }), vec![]))
                    }
                    "chain" => {
                        let (b, s) = self.chain(&m.receiver)?;
                        let v = self.mat(b, s);
                        let a = m.args[0].clone();
                        let (b2, s2) = match self.chain(&a) {
                            Some(x) => x,
                            None => (pe(quote! { (#a).vx_into_iter() }), vec![]),
                        };
                        let v2 = self.mat(b2, s2);
                        Some((pe(quote! { crate::vx::chain(#v, #v2) }), vec![]))
                    }
                    "peekable" | "by_ref" => None,
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// materialise fused stages into a vector
    fn mat(&mut self, base: Expr, stages: Vec<Stage>) -> Expr {
        if stages.is_empty() {
            return base;
        }
        let k = self.loops.len();
        let acc = format_ident!("vx_acc_{}", k);
        self.pipe(
            base,
            stages,
            quote! { let mut #acc = Vec::new(); },
            |_, it| vec![pe(quote! { #acc.push(#it); })],
            quote! { #acc },
        )
    }

    fn stages(&mut self, stages: &[Stage], item: Expr, act: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        if stages.is_empty() {
            return act(self, item);
        }
        let n = self.fresh();
        let y = format_ident!("vx_y{}", n);
        match &stages[0] {
            Stage::Map(f) => {
                let v = self.apply(f, vec![item]);
                let mut out: Vec<Stmt> = vec![pe(quote! { let #y = #v; })];
                out.extend(self.stages(&stages[1..], pe(quote! { #y }), act));
                out
            }
            Stage::Cloned => {
                let mut out: Vec<Stmt> = vec![pe(quote! { let #y = #item.clone(); })];
                out.extend(self.stages(&stages[1..], pe(quote! { #y }), act));
                out
            }
            Stage::Filter(f) => {
                let v = self.apply(f, vec![pe(quote! { &#item })]);
                let inner = self.stages(&stages[1..], item, act);
                vec![pe(quote! { let #y = #v; }), pe(quote! { if #y { #(#inner)* } })]
            }
            Stage::FilterMap(f) => {
                let v = self.apply(f, vec![item]);
                let inner = self.stages(&stages[1..], pe(quote! { #y }), act);
                vec![pe(quote! { if let Some(#y) = #v { #(#inner)* } })]
            }
            Stage::Enumerate => {
                let k = self.loops.len() - 1;
                let cnt = format_ident!("vx_cnt_{}", k);
                let mut out: Vec<Stmt> = vec![pe(quote! { let #y = (#cnt, #item); })];
                out.extend(self.stages(&stages[1..], pe(quote! { #y }), act));
                out.push(pe(quote! { #cnt = #cnt + 1; }));
                out
            }
        }
    }

    fn pipe(
        &mut self,
        base: Expr,
        stages: Vec<Stage>,
        init: TokenStream,
        mut act: impl FnMut(&mut Self, Expr) -> Vec<Stmt>,
        result: TokenStream,
    ) -> Expr {
        let k = self.loops.len();
        let st: String = stages
            .iter()
            .map(|s| match s {
                Stage::Map(_) => ".map",
                Stage::Filter(_) => ".filter",
                Stage::FilterMap(_) => ".filter_map",
                Stage::Enumerate => ".enumerate",
                Stage::Cloned => ".cloned",
            })
            .collect();
        let sh = format!("{}{}.{}", shape(&base), st, self.term);
        self.loops.push(LoopInfo { kind: "pipe".into(), pat: None, base: norm(&base), shape: sh });
        let b = format_ident!("vx_b_{}", k);
        let it = format_ident!("vx_it_{}", k);
        let x = format_ident!("vx_x_{}", k);
        let cnt = format_ident!("vx_cnt_{}", k);
        let cinit = if stages.iter().any(|s| matches!(s, Stage::Enumerate)) {
            quote! { let mut #cnt: usize = 0; }
        } else {
            quote! {}
        };
        let body = self.stages(&stages, pe(quote! { #x }), &mut act);
        let kk = k.to_string();
        let kt: TokenStream = kk.parse().unwrap();
        pe(quote! {{
            #init
            #cinit
            let #b = #base;
            __vxh!(before #kt);
            for #x in __vxit!(#it, #b) {
                __vxinv!(#kt);
                __vxh!(lstart #kt);
                #(#body)*
                __vxh!(lend #kt);
            }
            __vxh!(after #kt);
            #result
        }})
    }

    fn fmt_expr(&mut self, args: TokenStream, nl: bool) -> Option<Expr> {
        let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let a = parse::Parser::parse2(parser, args).ok()?;
        let a: Vec<Expr> = a.into_iter().collect();
        if a.is_empty() {
            return Some(pe(if nl { quote! { "\n".vx_to_string() } } else { quote! { "".vx_to_string() } }));
        }
        let lit = match &a[0] {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        let mut pos: Vec<Expr> = vec![];
        for x in &a[1..] {
            if let Expr::Assign(as_) = x {
                named.insert(norm(&as_.left), (*as_.right).clone());
            } else {
                pos.push(x.clone());
            }
        }
        self.fmt_pieces(&lit, &named, &pos, nl)
    }

    pub fn fmt_pieces(&mut self, lit: &str, named: &BTreeMap<String, Expr>, pos: &[Expr], nl: bool) -> Option<Expr> {
        let mut pieces: Vec<Expr> = vec![];
        let mut cur = String::new();
        let ch: Vec<char> = lit.chars().collect();
        let mut i = 0;
        let mut nextpos = 0;
        let flush = |cur: &mut String, pieces: &mut Vec<Expr>| {
            if !cur.is_empty() {
                let l = LitStr::new(cur, Span::call_site());
                pieces.push(pe(quote! { crate::vx::lit(#l) }));
                cur.clear();
            }
        };
        while i < ch.len() {
            if ch[i] == '{' {
                if i + 1 < ch.len() && ch[i + 1] == '{' {
                    cur.push('{');
                    i += 2;
                    continue;
                }
                flush(&mut cur, &mut pieces);
                let mut j = i + 1;
                let mut inner = String::new();
                while ch[j] != '}' {
                    inner.push(ch[j]);
                    j += 1;
                }
                i = j + 1;
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.trim().to_string(), b.to_string()),
                    None => (inner.trim().to_string(), String::new()),
                };
                let e: Expr = if name.is_empty() {
                    let e = pos.get(nextpos)?.clone();
                    nextpos += 1;
                    e
                } else if let Ok(n) = name.parse::<usize>() {
                    pos.get(n)?.clone()
                } else if let Some(e) = named.get(&name) {
                    e.clone()
                } else {
                    let id = ident(&name);
                    pe(quote! { #id })
                };
                if spec.is_empty() {
                    pieces.push(pe(quote! { (&#e).vx_to_string() }));
                } else {
                    let l = LitStr::new(&spec, Span::call_site());
                    pieces.push(pe(quote! { crate::vx::vx_debug(&#e, #l) }));
                }
            } else if ch[i] == '}' {
                cur.push('}');
                i += 2;
            } else {
                cur.push(ch[i]);
                i += 1;
            }
        }
        if nl {
            cur.push('\n');
        }
        flush(&mut cur, &mut pieces);
        if pieces.is_empty() {
            return Some(pe(quote! { "".vx_to_string() }));
        }
        let mut it = pieces.into_iter();
        let mut e = it.next().unwrap();
        for p in it {
            e = pe(quote! { crate::vx::cat(#e, #p) });
        }
        Some(e)
    }

    fn do_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        match name.as_str() {
            "format" => self.fmt_expr(m.tokens.clone(), false),
            "write" | "writeln" => {
                let ts: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                let c = ts
                    .iter()
                    .position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char()==','))
                    .unwrap_or(ts.len());
                let f: TokenStream = ts[..c].iter().cloned().collect();
                let rest: TokenStream = if c < ts.len() { ts[c + 1..].iter().cloned().collect() } else { quote! {} };
                let s = self.fmt_expr(rest, name == "writeln")?;
                Some(pe(quote! { #f.vx_write_str(#s) }))
            }
            "debug_assert" | "assert" => {
                let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                let a = parse::Parser::parse2(parser, m.tokens.clone()).ok()?;
                let c = a.first()?;
                Some(pe(quote! { crate::vx::vx_assert(#c) }))
            }
            "debug_assert_eq" | "assert_eq" => {
                let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                let a = parse::Parser::parse2(parser, m.tokens.clone()).ok()?;
                let (x, y) = (a.get(0)?, a.get(1)?);
                Some(pe(quote! { crate::vx::vx_assert(#x == #y) }))
            }
            "unreachable" | "todo" | "panic" | "unimplemented" => Some(pe(quote! { crate::vx::vx_unreachable() })),
            "eyre::eyre" | "eyre" => Some(pe(quote! { crate::ext::eyre::vx_eyre() })),
            n if n.starts_with("log::") || n == "println" || n == "eprintln" => Some(pe(quote! { () })),
            "matches" => {
                struct MA(Expr, Pat, Option<Expr>);
                impl parse::Parse for MA {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(MA(e, p, g))
                    }
                }
                let MA(e, p, g) = syn::parse2(m.tokens.clone()).ok()?;
                Some(match g {
                    Some(g) => pe(quote! { match #e { #p if #g => true, _ => false } }),
                    None => pe(quote! { match #e { #p => true, _ => false } }),
                })
            }
            "vec" => {
                // parse the contents so that they are desugared too
                if let Ok(a) = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone()) {
                    let v: Vec<Expr> = a.into_iter().collect();
                    if v.is_empty() {
                        return Some(pe(quote! { Vec::new() }));
                    }
                    let n = self.fresh();
                    let id = format_ident!("vx_vec{}", n);
                    return Some(pe(quote! {{ let mut #id = Vec::new(); #( #id.push(#v); )* #id }}));
                }
                struct Rep(Expr, Expr);
                impl parse::Parse for Rep {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(Rep(a, n)) = syn::parse2::<Rep>(m.tokens.clone()) {
                    return Some(pe(quote! { crate::vx::vec_rep(#a, #n) }));
                }
                None
            }
            "__vxh" | "__vxit" | "__vxinv" => None,
            _ => {
                self.unsupported.push(format!("macro {name}!"));
                None
            }
        }
    }

    /// one rewriting step at the root of e
    fn rewrite(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Macro(m) => {
                if ["__vxh", "__vxit", "__vxinv"].iter().any(|x| m.mac.path.is_ident(x)) {
                    return None;
                }
                self.do_macro(&m.mac)
            }
            Expr::MethodCall(m) => self.method(m),
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    let lab = &w.label;
                    return Some(pe(quote! { #lab loop { match #x { #p => #b _ => { break; } } } }));
                }
                None
            }
            Expr::Match(m) => self.str_match(m),
            Expr::Unsafe(u) => {
                let s = &u.block.stmts;
                Some(pe(quote! { { #(#s)* } }))
            }
            Expr::Call(c) => self.call(c),
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                // &a == &b  is  a == b
                if let (Expr::Reference(x), Expr::Reference(y)) = (&*b.left, &*b.right) {
                    if x.mutability.is_none() && y.mutability.is_none() {
                        let (l, op, r) = (&x.expr, &b.op, &y.expr);
                        return Some(pe(quote! { #l #op #r }));
                    }
                }
                None
            }
            Expr::Reference(r) => {
                // &*e  ->  slice view
                if r.mutability.is_none() {
                    if let Expr::Unary(u) = &*r.expr {
                        if matches!(u.op, UnOp::Deref(_)) {
                            let x = &u.expr;
                            return Some(pe(quote! { (#x).vx_deref() }));
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn call(&mut self, c: &ExprCall) -> Option<Expr> {
        let f = norm(&c.func);
        // <[u8; N]>::try_from(e)
        if let Expr::Path(p) = &*c.func {
            if let Some(q) = &p.qself {
                if let Type::Array(a) = &*q.ty {
                    if p.path.segments.last().map(|s| s.ident == "try_from").unwrap_or(false) {
                        let n = &a.len;
                        let x = &c.args[0];
                        return Some(pe(quote! { crate::vx::array_try_from::<{ #n }>(#x) }));
                    }
                }
            }
        }
        if c.args.len() == 1 {
            let x = &c.args[0];
            if f == "Vec::from" || f == "Vec::<u8>::from" {
                return Some(pe(quote! { crate::vx::vec_from(#x) }));
            }
            if f == "String::from" {
                return Some(pe(quote! { crate::vx::string_from(#x) }));
            }
        }
        // capacity hints carry no meaning: arithmetic on lengths inside them is dropped
        if f.ends_with("Vec::with_capacity") && c.args.len() == 1 {
            let a = norm(&c.args[0]);
            let plain = a.chars().all(|x| x.is_alphanumeric() || "_.()+*:&".contains(x)) && !a.contains('!');
            if (a.contains('+') || a.contains('*')) && plain {
                let fp = &c.func;
                return Some(pe(quote! { #fp(0) }));
            }
        }
        if (f == "with_tg" || f == "wrapped_try") && c.args.len() == 1 {
            if let Expr::Closure(cl) = &c.args[0] {
                return self.do_lift(f == "with_tg", cl);
            }
        }
        None
    }

    fn do_lift(&mut self, tg: bool, cl: &ExprClosure) -> Option<Expr> {
        let l = self.lift.as_ref()?;
        let n = self.lifted.len();
        let name = format_ident!("{}__c{}", l.fname, n);
        let ret = match &l.ret {
            Some(r) => r.clone(),
            None => {
                self.unsupported.push("closure return type unknown".into());
                return None;
            }
        };
        let body = match &*cl.body {
            Expr::Block(b) => b.block.clone(),
            e => pe(quote! { { #e } }),
        };
        struct Ids(HashSet<String>);
        impl<'a> Visit<'a> for Ids {
            fn visit_ident(&mut self, i: &'a Ident) {
                self.0.insert(i.to_string());
            }
            fn visit_macro(&mut self, m: &'a Macro) {
                fn go(t: TokenStream, s: &mut HashSet<String>) {
                    for x in t {
                        match x {
                            proc_macro2::TokenTree::Ident(i) => {
                                s.insert(i.to_string());
                            }
                            proc_macro2::TokenTree::Group(g) => go(g.stream(), s),
                            proc_macro2::TokenTree::Literal(l) => {
                                let t = l.to_string();
                                let mut r = t.as_str();
                                while let Some(i) = r.find('{') {
                                    let e = r[i..].find(|c| c == '}' || c == ':').map(|k| k + i).unwrap_or(r.len());
                                    s.insert(r[i + 1..e].to_string());
                                    r = &r[e..];
                                }
                            }
                            _ => {}
                        }
                    }
                }
                go(m.tokens.clone(), &mut self.0);
            }
        }
        let mut ids = Ids(HashSet::new());
        ids.visit_block(&body);
        // is a captured parameter used after the closure?
        let whole = &l.body_text;
        let cltext = norm(cl);
        let after = whole.split_once(&cltext).map(|x| x.1.to_string()).unwrap_or_default();
        let used_after = |n: &str| {
            let mut r = after.as_str();
            while let Some(i) = r.find(n) {
                let pre = r[..i].chars().last().map(|c| c.is_alphanumeric() || c == '_' || c == '.').unwrap_or(false);
                let post = r[i + n.len()..].chars().next().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
                if !pre && !post {
                    return true;
                }
                r = &r[i + n.len()..];
            }
            false
        };
        let mut params: Vec<TokenStream> = vec![];
        let mut args: Vec<TokenStream> = vec![];
        if tg {
            self.used_tg = true;
            let pn = match cl.inputs.first() {
                Some(Pat::Ident(i)) => i.ident.clone(),
                Some(Pat::Type(t)) => match &*t.pat {
                    Pat::Ident(i) => i.ident.clone(),
                    _ => return None,
                },
                _ => return None,
            };
            params.push(quote! { #pn: &mut TrustGraph<SQLiteStorage> });
            args.push(quote! { vx_tg });
        }
        for (pn, ty) in &l.params {
            {
                let id = ident(pn);
                if used_after(pn) || !ids.0.contains(pn) {
                    params.push(quote! { #id: &#ty });
                    args.push(quote! { &#id });
                } else {
                    params.push(quote! { #id: #ty });
                    args.push(quote! { #id });
                }
            }
        }
        let stmts = &body.stmts;
        let f: ItemFn = pe(quote! { fn #name(#(#params),*) -> #ret { #(#stmts)* } });
        self.lifted.push(f);
        Some(pe(quote! { #name(#(#args),*) }))
    }

    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        fn lits(p: &Pat) -> Option<Vec<ExprLit>> {
            match p {
                Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![l.clone()]),
                Pat::Or(o) => {
                    let mut v = vec![];
                    for c in &o.cases {
                        v.extend(lits(c)?);
                    }
                    Some(v)
                }
                _ => None,
            }
        }
        if !m.arms.iter().any(|a| lits(&a.pat).is_some()) {
            return None;
        }
        let n = self.fresh();
        let s = format_ident!("vx_s{}", n);
        let x = &m.expr;
        let mut out: TokenStream = quote! { crate::vx::vx_unreachable() };
        for a in m.arms.iter().rev() {
            if a.guard.is_some() {
                return None;
            }
            let b = &a.body;
            match lits(&a.pat) {
                Some(ls) => out = quote! { if #( crate::vx::str_eq(#s, #ls) )||* { #b } else { #out } },
                None => match &a.pat {
                    Pat::Wild(_) => out = quote! { #b },
                    Pat::Ident(i) => out = quote! { { let #i = #s; #b } },
                    _ => return None,
                },
            }
        }
        Some(pe(quote! {{ let #s = #x; #out }}))
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if matches!(name.as_str(), "any" | "all" | "fold" | "for_each" | "collect" | "find" | "position" | "rposition" | "count" | "max" | "min" | "sum") { self.term = name.clone(); }
        let r = &m.receiver;
        let closure_arg = |i: usize| m.args.get(i).cloned();
        // iterator terminals
        match name.as_str() {
            "collect" => {
                if let Some((b, st)) = self.chain(r) {
                    let ci = self.collects;
                    self.collects += 1;
                    let tf = m.turbofish.as_ref().map(|t| norm(t));
                    let hint = self
                        .collect_hint
                        .get(&ci)
                        .cloned()
                        .or(tf.map(|t| t.trim_start_matches("::<").trim_end_matches('>').to_string()))
                        .or(self.hint.take())
                        .unwrap_or("Vec".into());
                    if hint.starts_with("Result") {
                        let k = self.loops.len();
                        let acc = format_ident!("vx_acc_{}", k);
                        let er = format_ident!("vx_err_{}", k);
                        return Some(self.pipe(
                            b,
                            st,
                            quote! { let mut #acc = Vec::new(); let mut #er = None; },
                            |_, it| {
                                vec![pe(quote! { match #it { Ok(vx_v) => { if #er.is_none() { #acc.push(vx_v); } } Err(vx_e) => { if #er.is_none() { #er = Some(vx_e); } } } })]
                            },
                            quote! { match #er { Some(vx_e) => Err(vx_e), None => Ok(#acc) } },
                        ));
                    }
                    let v = self.mat(b, st);
                    if hint.contains("HashSet") {
                        return Some(pe(quote! { crate::vx::HashSet::vx_from_vec(#v) }));
                    }
                    if !hint.starts_with("Vec") && !hint.is_empty() && hint != "_" {
                        self.unsupported.push(format!("collect into {hint}"));
                    }
                    return Some(v);
                }
            }
            "any" | "all" => {
                if let Some((b, st)) = self.chain(r) {
                    let k = self.loops.len();
                    let acc = format_ident!("vx_acc_{}", k);
                    let f = closure_arg(0)?;
                    // all(f) is !any(!f): one loop form for both
                    let any = name == "any";
                    self.term = "any".into();
                    let res = if any { quote! { #acc } } else { quote! { !#acc } };
                    return Some(self.pipe(
                        b,
                        st,
                        quote! { let mut #acc = false; },
                        |s, it| {
                            let v = s.apply(&f, vec![it]);
                            if any {
                                vec![pe(quote! { if #v { #acc = true; } })]
                            } else {
                                vec![pe(quote! { if !(#v) { #acc = true; } })]
                            }
                        },
                        res,
                    ));
                }
            }
            "for_each" => {
                if let Some((b, st)) = self.chain(r) {
                    let f = closure_arg(0)?;
                    return Some(self.pipe(
                        b,
                        st,
                        quote! {},
                        |s, it| {
                            let v = s.apply(&f, vec![it]);
                            vec![Stmt::Expr(v, Some(Default::default()))]
                        },
                        quote! {},
                    ));
                }
            }
            "fold" => {
                if let Some((b, st)) = self.chain(r) {
                    let k = self.loops.len();
                    let acc = format_ident!("vx_acc_{}", k);
                    let init = closure_arg(0)?;
                    let f = closure_arg(1)?;
                    return Some(self.pipe(
                        b,
                        st,
                        quote! { let mut #acc = #init; },
                        |s, it| {
                            let v = s.apply(&f, vec![pe(quote! { #acc }), it]);
                            vec![pe(quote! { #acc = #v; })]
                        },
                        quote! { #acc },
                    ));
                }
            }
            "count" => {
                if let Some((b, st)) = self.chain(r) {
                    let v = self.mat(b, st);
                    return Some(pe(quote! { (#v).len() }));
                }
            }
            "find" | "position" | "rposition" => {
                if let Some((b, st)) = self.chain(r) {
                    let k = self.loops.len();
                    let acc = format_ident!("vx_acc_{}", k);
                    let cn = format_ident!("vx_n_{}", k);
                    let f = closure_arg(0)?;
                    let nm = name.clone();
                    return Some(self.pipe(
                        b,
                        st,
                        quote! { let mut #acc = None; let mut #cn: usize = 0; },
                        |s, it| {
                            if nm == "find" {
                                let v = s.apply(&f, vec![pe(quote! { &#it })]);
                                vec![pe(quote! { if #acc.is_none() { let vx_hit = #v; if vx_hit { #acc = Some(#it); } } })]
                            } else if nm == "position" {
                                let v = s.apply(&f, vec![it]);
                                vec![
                                    pe(quote! { if #acc.is_none() { let vx_hit = #v; if vx_hit { #acc = Some(#cn); } } }),
                                    pe(quote! { #cn = #cn + 1; }),
                                ]
                            } else {
                                let v = s.apply(&f, vec![it]);
                                vec![
                                    pe(quote! { { let vx_hit = #v; if vx_hit { #acc = Some(#cn); } } }),
                                    pe(quote! { #cn = #cn + 1; }),
                                ]
                            }
                        },
                        quote! { #acc },
                    ));
                }
            }
            "nth" if m.args.len() == 1 => {
                if let Some((b, st)) = self.chain(r) {
                    let v = self.mat(b, st);
                    let k = &m.args[0];
                    return Some(pe(quote! { crate::vx::nth(#v, #k) }));
                }
            }
            "max" | "min" | "sum" | "last" | "next" | "nth" => {
                if m.args.is_empty() && (name == "max" || name == "min" || name == "sum") {
                    if let Some((b, st)) = self.chain(r) {
                        let v = self.mat(b, st);
                        let f = format_ident!("seq_{}", name);
                        return Some(pe(quote! { crate::vx::#f(#v) }));
                    }
                }
            }
            "peekable" => {
                if let Some((b, st)) = self.chain(r) {
                    let v = self.mat(b, st);
                    return Some(pe(quote! { crate::vx::Peekable::vx_new(#v) }));
                }
            }
            _ => {}
        }
        // Result / Option combinators
        let n = self.n + 1;
        let v = format_ident!("vx_v{}", n);
        let er = format_ident!("vx_e{}", n);
        let opt = self.is_option(r);
        let bump = |s: &mut Self| s.n += 1;
        let is_fn = |e: &Expr| matches!(e, Expr::Closure(_) | Expr::Path(_));
        match (name.as_str(), m.args.len()) {
            ("map_err", 1) => {
                bump(self);
                let b = self.apply(&m.args[0], vec![pe(quote! { #er })]);
                Some(pe(quote! { match #r { Ok(#v) => Ok(#v), Err(#er) => Err(#b) } }))
            }
            ("map", 1) if is_fn(&m.args[0]) => {
                bump(self);
                let b = self.apply(&m.args[0], vec![pe(quote! { #v })]);
                Some(if opt {
                    pe(quote! { match #r { Some(#v) => Some(#b), None => None } })
                } else {
                    pe(quote! { match #r { Ok(#v) => Ok(#b), Err(#er) => Err(#er) } })
                })
            }
            ("and_then", 1) => {
                bump(self);
                let b = self.apply(&m.args[0], vec![pe(quote! { #v })]);
                Some(if opt {
                    pe(quote! { match #r { Some(#v) => #b, None => None } })
                } else {
                    pe(quote! { match #r { Ok(#v) => #b, Err(#er) => Err(#er) } })
                })
            }
            ("or_else", 1) => {
                bump(self);
                Some(if opt {
                    let b = self.apply(&m.args[0], vec![]);
                    pe(quote! { match #r { Some(#v) => Some(#v), None => #b } })
                } else {
                    let b = self.apply(&m.args[0], vec![pe(quote! { #er })]);
                    pe(quote! { match #r { Ok(#v) => Ok(#v), Err(#er) => #b } })
                })
            }
            ("ok_or_else", 1) => {
                bump(self);
                let b = self.apply(&m.args[0], vec![]);
                Some(pe(quote! { match #r { Some(#v) => Ok(#v), None => Err(#b) } }))
            }
            ("ok_or", 1) => {
                bump(self);
                let b = &m.args[0];
                Some(pe(quote! { match #r { Some(#v) => Ok(#v), None => Err(#b) } }))
            }
            ("ok", 0) => {
                bump(self);
                Some(pe(quote! { match #r { Ok(#v) => Some(#v), Err(_) => None } }))
            }
            ("unwrap_or_else", 1) => {
                bump(self);
                Some(if opt {
                    let b = self.apply(&m.args[0], vec![]);
                    pe(quote! { match #r { Some(#v) => #v, None => #b } })
                } else {
                    let b = self.apply(&m.args[0], vec![pe(quote! { #er })]);
                    pe(quote! { match #r { Ok(#v) => #v, Err(#er) => #b } })
                })
            }
            ("unwrap_or", 1) => {
                bump(self);
                let b = &m.args[0];
                Some(if opt {
                    pe(quote! { match #r { Some(#v) => #v, None => #b } })
                } else {
                    pe(quote! { match #r { Ok(#v) => #v, Err(_) => #b } })
                })
            }
            ("map_or", 2) => {
                bump(self);
                let d = &m.args[0];
                let b = self.apply(&m.args[1], vec![pe(quote! { #v })]);
                Some(if opt {
                    pe(quote! { match #r { Some(#v) => #b, None => #d } })
                } else {
                    pe(quote! { match #r { Ok(#v) => #b, Err(_) => #d } })
                })
            }
            ("map_or_else", 2) => {
                bump(self);
                let b = self.apply(&m.args[1], vec![pe(quote! { #v })]);
                Some(if opt {
                    let d = self.apply(&m.args[0], vec![]);
                    pe(quote! { match #r { Some(#v) => #b, None => #d } })
                } else {
                    let d = self.apply(&m.args[0], vec![pe(quote! { #er })]);
                    pe(quote! { match #r { Ok(#v) => #b, Err(#er) => #d } })
                })
            }
            ("is_some_and", 1) => {
                bump(self);
                let b = self.apply(&m.args[0], vec![pe(quote! { #v })]);
                Some(pe(quote! { match #r { Some(#v) => #b, None => false } }))
            }
            ("is_ok_and", 1) => {
                bump(self);
                let b = self.apply(&m.args[0], vec![pe(quote! { #v })]);
                Some(pe(quote! { match #r { Ok(#v) => #b, Err(_) => false } }))
            }
            ("then", 1) => {
                let b = self.apply(&m.args[0], vec![]);
                Some(pe(quote! { if #r { Some(#b) } else { None } }))
            }
            ("then_some", 1) => {
                let b = &m.args[0];
                Some(pe(quote! { if #r { Some(#b) } else { None } }))
            }
            _ => self.rename(m),
        }
    }

    fn rename(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let a = &m.args;
        // SQL layer
        if let Some(mutable) = self.sql {
            if name == "next" && a.is_empty() {
                let f = if mutable { ident("vx_next") } else { ident("vx_next_ro") };
                return Some(pe(quote! { self.connection.#f(&mut #r) }));
            }
            if (name == "prepare" || name == "execute") && a.len() == 1 {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &a[0] {
                    let id = self.sql_base + self.sqls.len();
                    self.sqls.push(s.value());
                    let f = format_ident!("vx_{}", name);
                    let lit = LitInt::new(&format!("{id}"), Span::call_site());
                    return Some(pe(quote! { #r.#f(#s, Ghost(#lit)) }));
                } else {
                    self.unsupported.push("SQL text is not a literal".into());
                }
            }
        }
        if name == "iter" && a.is_empty() {
            if let Some(e) = self.buf_iter(r) {
                return Some(e);
            }
        }
        // x.serialize(buf.iter_mut()) writes into buf
        if name == "serialize" && a.len() == 1 {
            if let Expr::MethodCall(i) = &a[0] {
                if i.method == "iter_mut" && i.args.is_empty() {
                    let b = &i.receiver;
                    return Some(pe(quote! { #r.serialize(&mut #b) }));
                }
            }
        }
        let new = match (name.as_str(), a.len()) {
            ("to_string", 0) => "vx_to_string",
            ("to_le_bytes", 0) => "vx_to_le_bytes",
            ("try_into", 0) => "vx_try_into",
            ("into", 0) => "vx_into",
            ("unwrap", 0) => "vx_unwrap",
            ("expect", 1) => "vx_expect",
            ("parse", 0) => "vx_parse",
            ("to_owned", 0) => "vx_to_owned",
            ("as_mut", 0) => "vx_as_mut",
            ("lines", 0) => "vx_lines",
            ("iter", 0) => "vx_iter",
            ("into_iter", 0) => "vx_into_iter",
            ("extend", 1) => "vx_extend",
            ("pow", 1) => "vx_pow",
            ("into_string", 0) => "vx_into_string",
            ("eq", 1) => {
                if let Expr::Reference(rf) = &a[0] {
                    if matches!(&*rf.expr, Expr::Tuple(_)) {
                        "vx_tup_eq"
                    } else {
                        return None;
                    }
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        let id = ident(new);
        let tf = &m.turbofish;
        Some(pe(quote! { #r.#id #tf(#a) }))
    }

    fn do_for(&mut self, f: &ExprForLoop) -> Expr {
        let k = self.loops.len();
        let e = (*f.expr).clone();
        let pat = match &*f.pat {
            Pat::Ident(i) => Some(i.ident.to_string()),
            _ => None,
        };
        self.term = "for".into();
        self.loops.push(LoopInfo { kind: "for".into(), pat, base: norm(&e), shape: format!("for {}", shape(&e)) });
        let base: Expr = match self.chain(&e) {
            Some((b, s)) => self.mat(b, s),
            None => pe(quote! { (#e).vx_into_iter() }),
        };
        let b = format_ident!("vx_b_{}", k);
        let it = format_ident!("vx_it_{}", k);
        let p = &f.pat;
        let stmts = semi(&f.body.stmts);
        let stmts = &crate::cont::elim(&stmts).unwrap_or(stmts);
        let kt: TokenStream = k.to_string().parse().unwrap();
        let lab = &f.label;
        // a simple identifier pattern is used directly, others are bound inside
        let (pv, pre): (TokenStream, TokenStream) = match &**p {
            Pat::Ident(i) if i.mutability.is_none() => (quote! { #i }, quote! {}),
            Pat::Wild(_) => {
                let x = format_ident!("vx_x_{}", k);
                (quote! { #x }, quote! {})
            }
            other => {
                let x = format_ident!("vx_x_{}", k);
                (quote! { #x }, quote! { let #other = #x; })
            }
        };
        pe(quote! {{
            let #b = #base;
            __vxh!(before #kt);
            #lab for #pv in __vxit!(#it, #b) {
                __vxinv!(#kt);
                __vxh!(lstart #kt);
                #pre
                #(#stmts)*
                __vxh!(lend #kt);
            }
            __vxh!(after #kt);
        }})
    }
}

impl<'a> VisitMut for Ds<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..10000 {
            match self.rewrite(e) {
                Some(n) => *e = n,
                None => break,
            }
        }
        match e {
            Expr::ForLoop(f) => {
                // already generated?
                let gen = matches!(&*f.expr, Expr::Macro(m) if m.mac.path.is_ident("__vxit"));
                if !gen {
                    let new = self.do_for(f);
                    *e = new;
                    self.visit_expr_mut(e);
                    return;
                } else {
                    self.visit_block_mut(&mut f.body);
                    return;
                }
            }
            Expr::While(w) => {
                let k = self.loops.len();
                self.loops.push(LoopInfo { kind: "while".into(), pat: None, base: norm(&w.cond), shape: if matches!(&*w.cond, Expr::Let(_)) { "while let".into() } else { "while".into() } });
                self.visit_expr_mut(&mut w.cond);
                self.hook_loop(k, &mut w.body);
                self.visit_block_mut(&mut w.body);
                let kt: TokenStream = k.to_string().parse().unwrap();
                let inner = e.clone();
                *e = pe(quote! {{ __vxh!(before #kt); #inner __vxh!(after #kt); }});
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops.len();
                self.loops.push(LoopInfo { kind: "loop".into(), pat: None, base: String::new(), shape: "loop".into() });
                self.hook_loop(k, &mut w.body);
                self.visit_block_mut(&mut w.body);
                let kt: TokenStream = k.to_string().parse().unwrap();
                let inner = e.clone();
                *e = pe(quote! {{ __vxh!(before #kt); #inner __vxh!(after #kt); }});
                return;
            }
            Expr::Closure(_) => {
                self.unsupported.push("closure".into());
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // statement macros -> expressions
        if let Stmt::Macro(m) = s {
            if !["__vxh", "__vxinv"].iter().any(|x| m.mac.path.is_ident(x)) {
                let mac = m.mac.clone();
                let semi = m.semi_token;
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac });
                *s = Stmt::Expr(e, semi);
            } else {
                return;
            }
        }
        if let Stmt::Local(l) = s {
            let h = match &l.pat {
                Pat::Type(t) => Some(norm(&t.ty)),
                _ => None,
            };
            // the hint applies only to a collect at the root of the initialiser
            if let (Some(h), Some(init)) = (h, &l.init) {
                if let Expr::MethodCall(m) = &*init.expr {
                    if m.method == "collect" && m.turbofish.is_none() {
                        self.hint = Some(h);
                    }
                }
            }
            // let x = e.as_mut()  -> let mut x
            if let (Pat::Ident(p), Some(init)) = (&mut l.pat, &l.init) {
                if let Expr::MethodCall(m) = &*init.expr {
                    if m.method == "as_mut" {
                        self.bufs.insert(p.ident.to_string());
                        p.mutability = Some(Default::default());
                    }
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
        self.hint = None;
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some((n, t)) = &self.self_subst {
            if p.segments.len() == 2 && p.segments[0].ident == "Self" && p.segments[1].ident == n.as_str() {
                if let Type::Path(tp) = t {
                    *p = tp.path.clone();
                }
            }
        }
        self.maps.map_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        // Box<dyn Trait> is opaque
        if norm(&*t).starts_with("Box<dyn") {
            *t = pe(quote! { crate::vx::BoxDyn });
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

impl<'a> Ds<'a> {
    fn hook_loop(&mut self, k: usize, b: &mut Block) {
        let kt: TokenStream = k.to_string().parse().unwrap();
        let stmts = &b.stmts;
        // the loop body is a statement list: a trailing expression of unit type gets a semicolon
        let mut v: Vec<Stmt> = stmts.clone();
        if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
            *semi = Some(Default::default());
        }
        let v = crate::cont::elim(&v).unwrap_or(v);
        *b = pe(quote! {{ __vxinv!(#kt); __vxh!(lstart #kt); #(#v)* __vxh!(lend #kt); }});
    }
}

/// strip attributes inside bodies, dropping cfg'd-out parts
pub struct Strip;
pub fn cfg_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = norm(&a.meta);
        s == "cfg(test)" || s == "cfg(target_arch=\"wasm32\")"
    })
}
impl VisitMut for Strip {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => !cfg_out(&l.attrs),
            Stmt::Item(_) => true,
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| !cfg_out(&a.attrs));
        for a in &mut m.arms {
            a.attrs.clear();
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }
}
