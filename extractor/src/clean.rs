//! Source-level normalisation before translation: statements that do nothing are dropped, and calls
//! of helper functions that carry no contract are replaced by their bodies.
use crate::collect::{Crate, FnDef};
use quote::ToTokens;
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Block, Expr, Pat, Stmt};

fn toks(t: impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

// ---- statements that do nothing ----------------------------------------------------------------
/// No effect, no panic, nothing moved.
fn pure(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(pure),
        Expr::Array(t) => t.elems.iter().all(pure),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Group(p) => pure(&p.expr),
        Expr::Reference(r) => matches!(&*r.expr, Expr::Path(_)) || pure(&r.expr),
        Expr::Unary(u) => !matches!(u.op, syn::UnOp::Deref(_)) && matches!(&*u.expr, Expr::Lit(_)),
        Expr::Block(b) => b.block.stmts.iter().all(noop) || matches!(&b.block.stmts[..], [Stmt::Expr(e, None)] if pure(e)),
        Expr::Unsafe(b) => b.block.stmts.iter().all(noop),
        Expr::Call(c) => {
            let f = toks(&c.func).replace(' ', "");
            let last = f.rsplit("::").next().unwrap_or("").to_string();
            if let Expr::Paren(p) = &*c.func {
                if let Expr::Closure(cl) = &*p.expr {
                    return c.args.is_empty() && pure(&cl.body);
                }
            }
            matches!(last.as_str(), "black_box" | "identity" | "drop" | "forget") && (f == last || f.starts_with("core::") || f.starts_with("std::") || f.starts_with("mem::") || f.starts_with("hint::") || f.starts_with("convert::"))
                && c.args.iter().all(|a| pure(a))
                || matches!(last.as_str(), "compiler_fence" | "size_of")
        }
        Expr::If(i) => pure(&i.cond) && i.then_branch.stmts.iter().all(noop) && i.else_branch.as_ref().map(|e| pure(&e.1)).unwrap_or(true)
            || matches!(&*i.cond, Expr::Lit(l) if matches!(&l.lit, syn::Lit::Bool(b) if !b.value)) && i.else_branch.is_none(),
        Expr::While(w) => matches!(&*w.cond, Expr::Lit(l) if matches!(&l.lit, syn::Lit::Bool(b) if !b.value)),
        Expr::ForLoop(f) => f.body.stmts.is_empty() && matches!(&*f.expr, Expr::Range(r) if r.start.as_deref().map(pure).unwrap_or(false) && r.end.as_deref().map(pure).unwrap_or(false)),
        Expr::Loop(l) => l.label.is_none() && matches!(&l.body.stmts[..], [Stmt::Expr(Expr::Break(b), _)] if b.label.is_none() && b.expr.is_none()),
        Expr::Match(m) => pure(&m.expr) && m.arms.len() == 1 && m.arms[0].guard.is_none() && pure(&m.arms[0].body),
        Expr::Binary(b) => matches!(&*b.left, Expr::Lit(_)) && matches!(&*b.right, Expr::Lit(_)) && matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::Ne(_)),
        Expr::Macro(m) => noop_macro(&m.mac),
        _ => false,
    }
}
fn noop_macro(m: &syn::Macro) -> bool {
    let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    matches!(n.as_str(), "assert" | "debug_assert") && m.tokens.to_string().split(',').next().map(|s| s.trim() == "true").unwrap_or(false)
        || matches!(n.as_str(), "stringify" | "line" | "file" | "module_path")
}
fn noop(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(e, Some(_)) => pure(e) && !matches!(e, Expr::Path(_)),
        Stmt::Expr(e, None) => matches!(e, Expr::Block(_) | Expr::Unsafe(_) | Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Match(_)) && pure(e),
        Stmt::Macro(m) => m.semi_token.is_some() && noop_macro(&m.mac),
        Stmt::Local(l) => {
            let wild = match &l.pat {
                Pat::Wild(_) => true,
                Pat::Type(t) => matches!(&*t.pat, Pat::Wild(_)),
                _ => false,
            };
            match &l.init {
                Some(i) if i.diverge.is_none() => wild && (pure(&i.expr) || matches!(&*i.expr, Expr::Path(_))),
                _ => false,
            }
        }
        Stmt::Item(syn::Item::Static(_)) | Stmt::Item(syn::Item::Use(_)) => true,
        Stmt::Item(_) => false,
    }
}

struct Names(HashMap<String, usize>);
impl<'a> Visit<'a> for Names {
    fn visit_ident(&mut self, i: &'a proc_macro2::Ident) {
        *self.0.entry(i.to_string()).or_default() += 1;
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        fn go(t: proc_macro2::TokenStream, n: &mut HashMap<String, usize>) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) => *n.entry(i.to_string()).or_default() += 1,
                    proc_macro2::TokenTree::Group(g) => go(g.stream(), n),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.0);
        syn::visit::visit_path(self, &m.path);
    }
}
fn names(b: &Block) -> HashMap<String, usize> {
    let mut n = Names(HashMap::new());
    n.visit_block(b);
    n.0
}

struct Dead<'a> {
    count: &'a HashMap<String, usize>,
}
impl VisitMut for Dead<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        syn::visit_mut::visit_block_mut(self, b);
        let n = b.stmts.len();
        let mut k = 0;
        b.stmts.retain(|s| {
            k += 1;
            if k == n && matches!(s, Stmt::Expr(_, None)) {
                return true;
            }
            if noop(s) {
                return false;
            }
            // a local that is never mentioned again
            if let Stmt::Local(l) = s {
                let id = match &l.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    Pat::Type(t) => if let Pat::Ident(i) = &*t.pat { Some(i.ident.to_string()) } else { None },
                    _ => None,
                };
                if let (Some(id), Some(i)) = (id, &l.init) {
                    if i.diverge.is_none() && self.count.get(&id) == Some(&1) && pure(&i.expr) {
                        return false;
                    }
                }
            }
            if let Stmt::Item(syn::Item::Const(c)) = s {
                return self.count.get(&c.ident.to_string()) != Some(&1);
            }
            true
        });
    }
}

// ---- helpers without a contract ----------------------------------------------------------------
struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn has_ret_e(e: &Expr) -> bool {
    let mut h = HasRet(false);
    h.visit_expr(e);
    h.0
}
fn has_ret_s(s: &Stmt) -> bool {
    let mut h = HasRet(false);
    h.visit_stmt(s);
    h.0
}
/// Rewrites the statement list so that no `return` remains, or gives up.
fn unreturn(ss: &[Stmt]) -> Option<Vec<Stmt>> {
    for (k, s) in ss.iter().enumerate() {
        if !has_ret_s(s) {
            continue;
        }
        let mut out = ss[..k].to_vec();
        let rest = &ss[k + 1..];
        let last = rest.iter().all(|s| matches!(s, Stmt::Item(_)));
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr {
                    if has_ret_e(e) {
                        return None;
                    }
                    out.push(Stmt::Expr((**e).clone(), None));
                }
                return Some(out);
            }
            Stmt::Expr(Expr::If(i), semi) => {
                if has_ret_e(&i.cond) {
                    return None;
                }
                let then_ret = always_returns(&i.then_branch.stmts);
                let mut j = i.clone();
                if last && semi.is_none() {
                    j.then_branch.stmts = unreturn(&i.then_branch.stmts)?;
                    if let Some((t, e)) = &i.else_branch {
                        let ss = match &**e {
                            Expr::Block(b) => unreturn(&b.block.stmts)?,
                            e => unreturn(&[Stmt::Expr(e.clone(), None)])?,
                        };
                        j.else_branch = Some((*t, Box::new(Expr::Block(parse_quote!({ #(#ss)* })))));
                    }
                    out.push(Stmt::Expr(Expr::If(j), None));
                    return Some(out);
                }
                if then_ret {
                    j.then_branch.stmts = unreturn(&i.then_branch.stmts)?;
                    let mut el: Vec<Stmt> = vec![];
                    if let Some((_, e)) = &i.else_branch {
                        if has_ret_e(e) {
                            return None;
                        }
                        el.push(Stmt::Expr((**e).clone(), Some(Default::default())));
                    }
                    el.extend(rest.iter().cloned());
                    let el = unreturn(&el)?;
                    j.else_branch = Some((Default::default(), Box::new(Expr::Block(parse_quote!({ #(#el)* })))));
                    out.push(Stmt::Expr(Expr::If(j), None));
                    return Some(out);
                }
                return None;
            }
            Stmt::Expr(Expr::Block(b), None) if last => {
                let inner = unreturn(&b.block.stmts)?;
                out.push(Stmt::Expr(Expr::Block(parse_quote!({ #(#inner)* })), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Unsafe(b), None) if last => {
                let inner = unreturn(&b.block.stmts)?;
                out.push(Stmt::Expr(Expr::Unsafe(parse_quote!(unsafe { #(#inner)* })), None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(ss.to_vec())
}
fn always_returns(ss: &[Stmt]) -> bool {
    match ss.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => {
            always_returns(&i.then_branch.stmts)
                && match &i.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => always_returns(&b.block.stmts),
                        e => always_returns(&[Stmt::Expr(e.clone(), None)]),
                    },
                    None => false,
                }
        }
        _ => false,
    }
}

/// Names bound inside a block.
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
    }
}
/// Replaces a parameter by its argument.
struct Subst {
    p: String,
    a: Expr,
}
impl Subst {
    fn is_p(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(x) if x.path.is_ident(&self.p))
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) && self.is_p(&u.expr) {
                if let Expr::Reference(r) = &self.a {
                    *e = (*r.expr).clone();
                    return;
                }
            }
        }
        if self.is_p(e) {
            *e = self.a.clone();
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let a = match &self.a {
            Expr::Path(_) => self.a.to_token_stream(),
            a => quote::quote!((#a)),
        };
        m.tokens = subst_toks(m.tokens.clone(), &self.p, &a);
    }
}
fn subst_toks(t: proc_macro2::TokenStream, p: &str, a: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    let mut out = proc_macro2::TokenStream::new();
    let mut dot = false;
    for x in t {
        let was_dot = dot;
        dot = matches!(&x, proc_macro2::TokenTree::Punct(q) if q.as_char() == '.');
        match x {
            proc_macro2::TokenTree::Ident(ref i) if !was_dot && i == p => out.extend(a.clone()),
            proc_macro2::TokenTree::Group(g) => {
                let mut h = proc_macro2::Group::new(g.delimiter(), subst_toks(g.stream(), p, a));
                h.set_span(g.span());
                out.extend([proc_macro2::TokenTree::Group(h)]);
            }
            x => out.extend([x]),
        }
    }
    out
}
struct Rename(String, String);
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
        if *i == self.0 {
            *i = proc_macro2::Ident::new(&self.1, i.span());
        }
    }
    fn visit_member_mut(&mut self, _: &mut syn::Member) {}
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let n = proc_macro2::Ident::new(&self.1, proc_macro2::Span::call_site());
        m.tokens = subst_toks(m.tokens.clone(), &self.0, &quote::quote!(#n));
    }
}

/// The helper's body with arguments in place of parameters, as a block expression.
fn inlined(h: &FnDef, args: &[Expr], uniq: usize) -> Option<Block> {
    if h.block.stmts.iter().any(|s| matches!(s, Stmt::Item(i) if !matches!(i, syn::Item::Const(_) | syn::Item::Use(_)))) {
        return None;
    }
    let mut body: Block = Block { brace_token: Default::default(), stmts: unreturn(&h.block.stmts)? };
    let mut lets: Vec<Stmt> = vec![];
    let mut bound = Bound(BTreeSet::new());
    bound.visit_block(&body);
    let mut ps = vec![];
    for p in &h.sig.inputs {
        match p {
            syn::FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => ps.push((i.ident.to_string(), i.mutability.is_some(), (*t.ty).clone())),
                _ => return None,
            },
            _ => return None,
        }
    }
    if ps.len() != args.len() {
        return None;
    }
    // locals of the helper that would capture a name used by an argument
    let mut used = Names(HashMap::new());
    args.iter().for_each(|a| used.visit_expr(a));
    for n in &bound.0 {
        if used.0.contains_key(n) {
            Rename(n.clone(), format!("{n}__h{uniq}")).visit_block_mut(&mut body);
        }
    }
    // parameters get private names first, so that substituting one cannot hit another
    let mut priv_names = vec![];
    for (n, _, _) in &ps {
        let q = format!("{n}__p{uniq}");
        if !bound.0.contains(n) {
            Rename(n.clone(), q.clone()).visit_block_mut(&mut body);
        } else {
            return None; // shadowed parameter
        }
        priv_names.push(q);
    }
    for (((n, m, ty), q), a) in ps.iter().zip(&priv_names).zip(args) {
        let simple = match a {
            Expr::Path(p) => p.path.get_ident().is_some(),
            Expr::Reference(r) => matches!(&*r.expr, Expr::Path(p) if p.path.get_ident().is_some()),
            _ => false,
        };
        let lit = matches!(a, Expr::Lit(_));
        // a by-value scalar may be overtaken by a later change of the caller's variable
        let by_ref = matches!(ty, syn::Type::Reference(_)) || matches!(a, Expr::Path(_)) && !scalar(ty);
        if !*m && (lit || simple && by_ref) {
            Subst { p: q.clone(), a: a.clone() }.visit_block_mut(&mut body);
        } else {
            let fresh = proc_macro2::Ident::new(&if used.0.contains_key(n) { q.clone() } else { n.clone() }, proc_macro2::Span::call_site());
            Rename(q.clone(), fresh.to_string()).visit_block_mut(&mut body);
            if scalar(ty) {
                lets.push(if *m { parse_quote!(let mut #fresh: #ty = #a;) } else { parse_quote!(let #fresh: #ty = #a;) });
            } else {
                lets.push(if *m { parse_quote!(let mut #fresh = #a;) } else { parse_quote!(let #fresh = #a;) });
            }
        }
    }
    lets.extend(body.stmts);
    Some(Block { brace_token: Default::default(), stmts: lets })
}
fn scalar(t: &syn::Type) -> bool {
    matches!(toks(t).as_str(), "usize" | "bool" | "u8" | "u16" | "u32" | "u64" | "isize" | "i32" | "i64")
}

struct Inline<'a> {
    cr: &'a Crate,
    f: &'a FnDef,
    n: usize,
    changed: bool,
}
impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let name = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                {
                    if let Some(full) = self.cr.resolve(self.f, &name) {
                        if let Some(h) = self.cr.fns.get(&full) {
                            if helper(self.cr, h) && full != self.f.path && self.n < 40 {
                                let args: Vec<Expr> = c.args.iter().cloned().collect();
                                self.n += 1;
                                if let Some(b) = inlined(h, &args, self.n) {
                                    *e = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
                                    self.changed = true;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}
/// A free function nobody wrote a contract for.
fn helper(cr: &Crate, h: &FnDef) -> bool {
    let names = cr.kinds["fns"].as_object().map(|o| o.contains_key(&h.path)).unwrap_or(false);
    let nested_known = cr.kinds["fns"].as_object().map(|o| o.keys().any(|k| k.starts_with(&format!("{}::", h.path)))).unwrap_or(false);
    let kept = cr.kinds["keep"].as_array().map(|o| o.iter().any(|k| k.as_str() == Some(&h.path))).unwrap_or(false);
    !names && !nested_known && !kept && h.self_ty.is_none() && h.path != "maybe_grow" && !toks(&h.sig.output).contains("impl") && !cr.wanted(&h.path)
}

// ---- other spellings of the same thing ---------------------------------------------------------
#[derive(Default)]
struct Desugar {
    n: usize,
}
fn ordering(name: &str) -> Expr {
    let i = proc_macro2::Ident::new(name, proc_macro2::Span::call_site());
    parse_quote!(core::cmp::Ordering::#i)
}
/// The condition under which an integer or boolean pattern matches, with the name it binds.
fn scalar_cond(p: &Pat, m: &Expr) -> Option<(Option<Expr>, Option<proc_macro2::Ident>)> {
    Some(match p {
        Pat::Wild(_) => (None, None),
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.ident.to_string().chars().next().map(|c| c.is_lowercase()).unwrap_or(false) => (None, Some(i.ident.clone())),
        Pat::Lit(l) => match &l.lit {
            syn::Lit::Bool(b) => (Some(if b.value { m.clone() } else { parse_quote!(!#m) }), None),
            syn::Lit::Int(_) => (Some(parse_quote!(#m == #l)), None),
            _ => return None,
        },
        Pat::Range(r) => {
            let lo: Option<Expr> = r.start.as_ref().and_then(|s| if toks(s) == "0" { None } else { Some(parse_quote!(#m >= #s)) });
            let hi: Option<Expr> = r.end.as_ref().map(|e| match r.limits {
                syn::RangeLimits::Closed(_) => parse_quote!(#m <= #e),
                _ => parse_quote!(#m < #e),
            });
            match (lo, hi) {
                (Some(a), Some(b)) => (Some(parse_quote!(#a && #b)), None),
                (Some(a), None) | (None, Some(a)) => (Some(a), None),
                (None, None) => (None, None),
            }
        }
        Pat::Paren(q) => return scalar_cond(&q.pat, m),
        Pat::Or(o) => {
            let mut all: Option<Expr> = None;
            for c in &o.cases {
                let (c, b) = scalar_cond(c, m)?;
                if b.is_some() {
                    return None;
                }
                let c = c?;
                all = Some(match all {
                    None => c,
                    Some(a) => parse_quote!(#a || #c),
                });
            }
            (Some(parse_quote!((#all))), None)
        }
        _ => return None,
    })
}
fn scalar_pat(p: &Pat) -> bool {
    match p {
        Pat::Range(_) => true,
        Pat::Lit(l) => matches!(l.lit, syn::Lit::Bool(_) | syn::Lit::Int(_)),
        Pat::Or(o) => o.cases.iter().any(scalar_pat),
        Pat::Paren(q) => scalar_pat(&q.pat),
        _ => false,
    }
}
fn block_of(e: &Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        e => parse_quote!({ #e }),
    }
}
fn conjuncts(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
            conjuncts(&b.left, out);
            conjuncts(&b.right, out);
        }
        e => out.push(e.clone()),
    }
}
fn view_iter(e: &Expr) -> Option<(Expr, bool)> {
    // (base, enumerated) of `base.iter()`, `base.into_iter()` or either with `.enumerate()`
    let Expr::MethodCall(m) = e else { return None };
    if (m.method == "iter" || m.method == "into_iter") && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_)) {
        return Some(((*m.receiver).clone(), false));
    }
    if m.method == "enumerate" && m.args.is_empty() {
        if let Some((b, false)) = view_iter(&m.receiver) {
            return Some((b, true));
        }
    }
    None
}
impl VisitMut for Desugar {
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // let P(x) = e else { .. };
        if let Stmt::Local(l) = s {
            if let Some(i) = &l.init {
                if let (Some((_, d)), Pat::TupleStruct(ts)) = (&i.diverge, &l.pat) {
                    if ts.elems.len() == 1 && ts.path.is_ident("Some") {
                        if let Pat::Ident(x) = &ts.elems[0] {
                            let (e, id) = (&i.expr, &x.ident);
                            let pat = &ts.elems[0];
                            *s = parse_quote!(let #pat = match #e { Some(#id) => #id, None => #d };);
                        }
                    }
                }
            }
        }
        syn::visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        self.n += 1;
        let n = self.n;
        let fresh = |k: usize| proc_macro2::Ident::new(&format!("d{n}_{k}"), proc_macro2::Span::call_site());
        let new: Option<Expr> = match &*e {
            Expr::Assign(a) => match (&*a.left, &*a.right) {
                (Expr::Tuple(l), Expr::Tuple(r)) if l.elems.len() == r.elems.len() => {
                    let ids: Vec<_> = (0..l.elems.len()).map(fresh).collect();
                    let (ls, rs): (Vec<_>, Vec<_>) = (l.elems.iter().collect(), r.elems.iter().collect());
                    Some(parse_quote!({ #(let #ids = #rs;)* #(#ls = #ids;)* }))
                }
                (Expr::Tuple(l), r) if l.elems.iter().all(|x| matches!(x, Expr::Path(_) | Expr::Infer(_))) => {
                    let ids: Vec<_> = (0..l.elems.len()).map(fresh).collect();
                    let sets: Vec<Stmt> = l.elems.iter().zip(&ids).filter(|(x, _)| !matches!(x, Expr::Infer(_))).map(|(x, i)| parse_quote!(#x = #i;)).collect();
                    let pats: Vec<Pat> = l.elems.iter().zip(&ids).map(|(x, i)| if matches!(x, Expr::Infer(_)) { parse_quote!(_) } else { parse_quote!(#i) }).collect();
                    Some(parse_quote!({ let (#(#pats),*) = #r; #(#sets)* }))
                }
                _ => None,
            },
            Expr::Match(m) if m.arms.iter().any(|a| a.guard.is_some() || scalar_pat(&a.pat)) => {
                let simple = matches!(&*m.expr, Expr::Path(_));
                let id = fresh(0);
                let on: Expr = if simple { (*m.expr).clone() } else { parse_quote!(#id) };
                let mut acc: Option<Expr> = None;
                let mut ok = true;
                for a in m.arms.iter().rev() {
                    let Some((c, b)) = scalar_cond(&a.pat, &on) else { ok = false; break };
                    let mut body = block_of(&a.body);
                    let mut g = a.guard.as_ref().map(|g| (*g.1).clone());
                    if let Some(b) = b {
                        let s: Stmt = parse_quote!(let #b = #on;);
                        body.stmts.insert(0, s);
                        if let Some(g) = &mut g {
                            Subst { p: b.to_string(), a: on.clone() }.visit_expr_mut(g);
                        }
                    }
                    let c = match (c, g) {
                        (Some(c), Some(g)) => Some(parse_quote!(#c && (#g))),
                        (Some(c), None) => Some(c),
                        (None, g) => g,
                    };
                    acc = Some(match (c, acc.take()) {
                        (None, _) | (Some(_), None) => Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: body }),
                        (Some(c), Some(Expr::If(i))) => parse_quote!(if #c #body else #i),
                        (Some(c), Some(Expr::Block(b))) => parse_quote!(if #c #body else #b),
                        (Some(_), Some(_)) => { ok = false; break }
                    });
                }
                match (ok, acc) {
                    (true, Some(a)) if simple => Some(a),
                    (true, Some(a)) => {
                        let s = &m.expr;
                        Some(parse_quote!({ let #id = #s; #a }))
                    }
                    _ => None,
                }
            }
            Expr::If(i) if i.else_branch.is_none() => {
                // let chains
                let mut cs = vec![];
                conjuncts(&i.cond, &mut cs);
                if cs.len() > 1 && cs.iter().any(|c| matches!(c, Expr::Let(_))) {
                    let mut b = i.then_branch.clone();
                    for c in cs.iter().rev() {
                        b = parse_quote!({ if #c #b });
                    }
                    match &b.stmts[..] {
                        [Stmt::Expr(x, _)] => Some(x.clone()),
                        _ => None,
                    }
                } else {
                    None
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => {
                struct Mt(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for Mt {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Mt> {
                        let e = i.parse()?;
                        let _: syn::Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            let _: syn::Token![if] = i.parse()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _: Option<syn::Token![,]> = i.parse()?;
                        Ok(Mt(e, p, g))
                    }
                }
                match syn::parse2::<Mt>(m.mac.tokens.clone()) {
                    Ok(Mt(x, p, None)) => {
                        let mut y: Expr = parse_quote!(match #x { #p => true, _ => false });
                        if let Expr::Match(m) = &y {
                            if scalar_pat(&m.arms[0].pat) {
                                self.visit_expr_mut(&mut y);
                            }
                        }
                        Some(y)
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) if m.args.is_empty() => {
                let r = &m.receiver;
                let cmp = |op: &str, o: &str| -> Expr {
                    let o = ordering(o);
                    if op == "==" { parse_quote!((#r == #o)) } else { parse_quote!((#r != #o)) }
                };
                match m.method.to_string().as_str() {
                    "is_lt" => Some(cmp("==", "Less")),
                    "is_gt" => Some(cmp("==", "Greater")),
                    "is_eq" => Some(cmp("==", "Equal")),
                    "is_ne" => Some(cmp("!=", "Equal")),
                    "is_le" => Some(cmp("!=", "Greater")),
                    "is_ge" => Some(cmp("!=", "Less")),
                    _ => None,
                }
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "is_some_and" | "is_none_or") && m.args.len() == 1 => match &m.args[0] {
                Expr::Closure(c) if c.inputs.len() == 1 && matches!(&c.inputs[0], Pat::Ident(_)) => {
                    let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                    let d: Expr = if m.method == "is_some_and" { parse_quote!(false) } else { parse_quote!(true) };
                    Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
                }
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "then_some" && m.args.len() == 1 => {
                let (c, x) = (&m.receiver, &m.args[0]);
                let (a, b) = (fresh(0), fresh(1));
                Some(parse_quote!({ let #a = #c; let #b = #x; if #a { Some(#b) } else { None } }))
            }
            Expr::MethodCall(m) if m.method == "then" && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()) => {
                let Expr::Closure(c) = &m.args[0] else { unreachable!() };
                let (r, b) = (&m.receiver, block_of(&c.body));
                Some(parse_quote!(if #r { Some(#b) } else { None }))
            }
            Expr::MethodCall(m) if m.method == "unwrap_or" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(_) | Expr::Path(_)) => {
                let (r, d) = (&m.receiver, &m.args[0]);
                let x = fresh(0);
                Some(parse_quote!(match #r { Some(#x) => #x, None => #d }))
            }
            Expr::MethodCall(m) if m.method == "map_or" && m.args.len() == 2 && matches!(&m.args[0], Expr::Lit(_)) => match &m.args[1] {
                Expr::Closure(c) if c.inputs.len() == 1 && matches!(&c.inputs[0], Pat::Ident(_)) => {
                    let (r, p, b, d) = (&m.receiver, &c.inputs[0], &c.body, &m.args[0]);
                    Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
                }
                _ => None,
            },
            Expr::ForLoop(f) => {
                let mut g = f.clone();
                let mut changed = false;
                // a..=b
                let mut inner: &mut Expr = &mut g.expr;
                if let Expr::MethodCall(m) = inner {
                    if m.method == "rev" {
                        inner = &mut m.receiver;
                    } else {
                        inner = &mut *Box::leak(Box::new(parse_quote!(())));
                    }
                }
                while let Expr::Paren(p) = inner {
                    inner = &mut p.expr;
                }
                if let Expr::Range(r) = inner {
                    if let (syn::RangeLimits::Closed(_), Some(b)) = (r.limits, r.end.clone()) {
                        r.limits = syn::RangeLimits::HalfOpen(Default::default());
                        r.end = Some(parse_quote!(#b + 1));
                        changed = true;
                    }
                }
                // over the elements of a view
                if let Some((base, en)) = view_iter(&f.expr) {
                    let id = fresh(0);
                    let parts = match (&*f.pat, en) {
                        (Pat::Tuple(t), true) if t.elems.len() == 2 => Some((t.elems[0].clone(), t.elems[1].clone())),
                        (p, false) => Some((parse_quote!(_), p.clone())),
                        _ => None,
                    };
                    if let Some((ip, xp)) = parts {
                        let mut b = f.body.clone();
                        b.stmts.insert(0, parse_quote!(let #xp = &#base[#id];));
                        if !matches!(ip, Pat::Wild(_)) {
                            b.stmts.insert(0, parse_quote!(let #ip = #id;));
                        }
                        g.pat = Box::new(parse_quote!(#id));
                        g.expr = Box::new(parse_quote!(0..#base.len()));
                        g.body = b;
                        changed = true;
                    }
                }
                if changed { Some(Expr::ForLoop(g)) } else { None }
            }
            _ => None,
        };
        if let Some(x) = new {
            *e = x;
        }
    }
}

/// A closure bound to a name that is then only handed to one call is written at that call.
struct Moved<'a> {
    count: &'a HashMap<String, usize>,
}
impl VisitMut for Moved<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        syn::visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k < b.stmts.len() {
            let hit = match &b.stmts[k] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(i), Some(x)) if matches!(&*x.expr, Expr::Closure(c) if c.inputs.len() == 2 && c.inputs.iter().all(|i| !matches!(i, Pat::Type(t) if !matches!(&*t.ty, syn::Type::Reference(_))))) && self.count.get(&i.ident.to_string()) == Some(&2) => {
                        Some((i.ident.to_string(), (*x.expr).clone()))
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some((n, c)) = hit {
                let mut a = AsArg { n, c, done: false };
                for s in &mut b.stmts[k + 1..] {
                    a.visit_stmt_mut(s);
                }
                if a.done {
                    b.stmts.remove(k);
                    continue;
                }
            }
            k += 1;
        }
    }
}
struct AsArg {
    n: String,
    c: Expr,
    done: bool,
}
impl VisitMut for AsArg {
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        for a in &mut c.args {
            let hit = match a {
                Expr::Path(p) => p.path.is_ident(&self.n),
                Expr::Reference(r) => matches!(&*r.expr, Expr::Path(p) if p.path.is_ident(&self.n)),
                _ => false,
            };
            if hit {
                let x = self.c.clone();
                match a {
                    Expr::Reference(r) => *r.expr = x,
                    a => *a = x,
                }
                self.done = true;
                return;
            }
        }
        syn::visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_expr_loop_mut(&mut self, _: &mut syn::ExprLoop) {}
    fn visit_expr_while_mut(&mut self, _: &mut syn::ExprWhile) {}
    fn visit_expr_for_loop_mut(&mut self, _: &mut syn::ExprForLoop) {}
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

pub fn run(cr: &mut Crate) {
    let paths: Vec<String> = cr.fns.keys().cloned().collect();
    for p in &paths {
        let mut b = cr.fns[p].block.clone();
        Desugar::default().visit_block_mut(&mut b);
        let count = names(&b);
        Moved { count: &count }.visit_block_mut(&mut b);
        cr.fns.get_mut(p).unwrap().block = b;
    }
    for p in &paths {
        let count = names(&cr.fns[p].block);
        let mut b = cr.fns[p].block.clone();
        Dead { count: &count }.visit_block_mut(&mut b);
        cr.fns.get_mut(p).unwrap().block = b;
    }
    let mut n = 0;
    for _ in 0..4 {
        let mut any = false;
        for p in &paths {
            if !cr.wanted(p) {
                continue;
            }
            let f = cr.fns[p].clone();
            let mut b = f.block.clone();
            let mut v = Inline { cr, f: &f, n, changed: false };
            v.visit_block_mut(&mut b);
            n = v.n;
            if v.changed {
                any = true;
                cr.fns.get_mut(p).unwrap().block = b;
            }
        }
        if !any {
            break;
        }
    }
}
