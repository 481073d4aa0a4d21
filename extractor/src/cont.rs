//! `continue` removal (Verus `for` loops have none): the statements after a conditional `continue`
//! move into the branches that do not continue. Semantics preserving; gives up (returns the input
//! unchanged, which the verifier then rejects) where names of a branch would be visible in the moved statements.
use quote::{quote, ToTokens};
use syn::visit::{self, Visit};
use syn::*;

struct Has(bool);
impl<'a> Visit<'a> for Has {
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_e(e: &Expr) -> bool {
    let mut h = Has(false);
    h.visit_expr(e);
    h.0
}
fn has_s(s: &Stmt) -> bool {
    let mut h = Has(false);
    h.visit_stmt(s);
    h.0
}
fn has_b(b: &[Stmt]) -> bool {
    b.iter().any(has_s)
}
fn is_cont(e: &Expr) -> bool {
    match e {
        Expr::Continue(c) => c.label.is_none(),
        Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(e, _) if is_cont(e)),
        _ => false,
    }
}
fn sem(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
        *semi = Some(Default::default());
    }
    v
}
/// a branch followed by the rest of the loop body
fn seq(branch: Vec<Stmt>, rest: &[Stmt]) -> Option<Vec<Stmt>> {
    let branch = sem(branch);
    if !has_b(&branch) {
        if branch.is_empty() {
            return Some(rest.to_vec());
        }
        let diverges = matches!(branch.last(), Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_), _)));
        if diverges {
            return Some(branch);
        }
        let mut v: Vec<Stmt> = vec![parse_quote!({ #(#branch)* })];
        v.extend(rest.iter().cloned());
        return Some(v);
    }
    if let Some(Stmt::Expr(e, _)) = branch.last() {
        if is_cont(e) && !has_b(&branch[..branch.len() - 1]) {
            return Some(branch[..branch.len() - 1].to_vec());
        }
    }
    if branch.iter().any(|s| matches!(s, Stmt::Local(_))) && !rest.is_empty() {
        return None;
    }
    let mut v = branch;
    v.extend(rest.iter().cloned());
    elim(&v)
}
fn arm_stmts(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        o => vec![Stmt::Expr(o.clone(), Some(Default::default()))],
    }
}
fn if_(i: &ExprIf, rest: &[Stmt]) -> Option<Expr> {
    if has_e(&i.cond) {
        return None;
    }
    let c = &i.cond;
    let a = seq(i.then_branch.stmts.clone(), rest)?;
    let b: Expr = match &i.else_branch {
        None => {
            let r = seq(vec![], rest)?;
            let r = elim(&r)?;
            parse_quote!({ #(#r)* })
        }
        Some((_, e)) => match &**e {
            Expr::If(j) => {
                let x = if_(j, rest)?;
                parse_quote!({ #x })
            }
            e => {
                let r = seq(arm_stmts(e), rest)?;
                let r = elim(&r)?;
                parse_quote!({ #(#r)* })
            }
        },
    };
    let a = elim(&a)?;
    Some(parse_quote!(if #c { #(#a)* } else #b))
}
pub fn elim(v: &[Stmt]) -> Option<Vec<Stmt>> {
    let Some(n) = v.iter().position(has_s) else { return Some(v.to_vec()) };
    let mut out = v[..n].to_vec();
    let rest = sem(v[n + 1..].to_vec());
    match &v[n] {
        Stmt::Expr(e, _) if is_cont(e) => {}
        Stmt::Expr(Expr::If(i), _) => {
            let e = if_(i, &rest)?;
            out.push(Stmt::Expr(e, Some(Default::default())));
        }
        Stmt::Expr(Expr::Match(m), _) => {
            if has_e(&m.expr) {
                return None;
            }
            let mut arms = vec![];
            for a in &m.arms {
                if a.guard.as_ref().map(|g| has_e(&g.1)).unwrap_or(false) {
                    return None;
                }
                let b = elim(&seq(arm_stmts(&a.body), &rest)?)?;
                let p = &a.pat;
                let g = a.guard.as_ref().map(|(i, e)| quote!(#i #e));
                arms.push(quote!(#p #g => { #(#b)* }));
            }
            let s = &m.expr;
            out.push(parse_quote!(match #s { #(#arms)* };));
        }
        Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
            let x = elim(&seq(b.block.stmts.clone(), &rest)?)?;
            out.extend(x);
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let p = &l.pat;
            if let Some((_, d)) = &init.diverge {
                // let P = e else { ..continue };
                if has_e(&init.expr) {
                    return None;
                }
                let e = &init.expr;
                let a = elim(&rest)?;
                let d = elim(&arm_stmts(d))?;
                out.push(parse_quote!(match #e { #p => { #(#a)* } _ => { #(#d)* } };));
            } else {
                match &*init.expr {
                    // let x = match e { P => v, Q => continue };
                    Expr::Match(m) if !has_e(&m.expr) => {
                        let mut arms = vec![];
                        for a in &m.arms {
                            if a.guard.is_some() {
                                return None;
                            }
                            let q = &a.pat;
                            let body = &a.body;
                            if is_cont(body) {
                                arms.push(quote!(#q => {}));
                            } else if has_e(body) {
                                return None;
                            } else {
                                let r = elim(&rest)?;
                                arms.push(quote!(#q => { let #p = #body; #(#r)* }));
                            }
                        }
                        // names bound by the arm's pattern must not capture names of the rest: only plain rebinding is accepted
                        let bound: Vec<String> = m.arms.iter().flat_map(|a| names(&a.pat)).collect();
                        let own = names(p);
                        let rt = quote!(#(#rest)*).to_string();
                        if bound.iter().any(|b| !own.contains(b) && rt.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == b)) {
                            return None;
                        }
                        let s = &m.expr;
                        out.push(parse_quote!(match #s { #(#arms)* };));
                    }
                    Expr::If(i) if !has_e(&i.cond) => {
                        let (_, els) = i.else_branch.as_ref()?;
                        let c = &i.cond;
                        let r = elim(&rest)?;
                        if is_cont(els) && !has_b(&i.then_branch.stmts) {
                            let t = &i.then_branch;
                            out.push(parse_quote!(if #c { let #p = #t; #(#r)* };));
                        } else {
                            return None;
                        }
                    }
                    _ => return None,
                }
            }
        }
        _ => return None,
    }
    Some(out)
}
fn names(p: &Pat) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> Visit<'a> for N {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut n = N(vec![]);
    n.visit_pat(p);
    let _ = p.to_token_stream();
    n.0
}
