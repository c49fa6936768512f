//! Follows renamed and moved functions, structs and fields.
//!
//! Contracts are attached by the names the pinned tree uses (contracts/sigs.json lists them with
//! their types).  Where a name is gone and exactly one new item of the same type stands in its place, the
//! tree is read again with the new name replaced by the old one.
use crate::collect::Crate;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};

#[derive(Default, Clone)]
pub struct Maps {
    /// item name -> pinned item name
    pub items: HashMap<String, String>,
    /// (module, field) -> pinned field
    pub fields: HashMap<(String, String), String>,
    /// full path -> pinned full path (moved items)
    pub alias: HashMap<String, String>,
}

fn split(p: &str) -> (&str, &str) {
    p.rsplit_once("::").unwrap_or(("", p))
}

fn sig_of(s: &syn::Signature) -> String {
    let ins: Vec<String> = s
        .inputs
        .iter()
        .map(|a| match a {
            syn::FnArg::Receiver(r) => r.to_token_stream().to_string(),
            syn::FnArg::Typed(t) => t.ty.to_token_stream().to_string(),
        })
        .collect();
    format!("{} ({}) {} {}", s.generics.params.to_token_stream(), ins.join(", "), s.output.to_token_stream(), s.generics.where_clause.to_token_stream())
}

pub fn params(s: &syn::Signature) -> Vec<String> {
    s.inputs
        .iter()
        .map(|a| match a {
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                _ => "_".into(),
            },
            _ => "self".into(),
        })
        .collect()
}

pub fn sigs(cr: &Crate) -> Value {
    let mut f = BTreeMap::new();
    for (p, d) in &cr.fns {
        f.insert(p.clone(), json!([sig_of(&d.sig), d.ord, params(&d.sig)]));
    }
    let mut s = BTreeMap::new();
    for (p, d) in &cr.structs {
        s.insert(p.clone(), json!(d.fields.iter().map(|(n, t)| vec![n.clone(), t.to_token_stream().to_string()]).collect::<Vec<_>>()));
    }
    json!({"fns": f, "structs": s, "enums": cr.enums})
}

impl Maps {
    /// Adds what the tree, read with the current maps, still lacks; false when nothing is new.
    pub fn extend(&mut self, cr: &Crate, pin: &Value) -> bool {
        let (pf, ps) = match (pin["fns"].as_object(), pin["structs"].as_object()) {
            (Some(a), Some(b)) => (a, b),
            _ => return false,
        };
        let mut names: HashSet<&str> = pf.keys().chain(ps.keys()).map(|p| split(p).1).collect();
        let empty = serde_json::Map::new();
        let pe = pin["enums"].as_object().unwrap_or(&empty);
        names.extend(pe.keys().map(|p| split(p).1));
        names.extend(cr.fns.keys().chain(cr.structs.keys()).filter(|p| pf.contains_key(*p) || ps.contains_key(*p)).map(|p| split(p).1));
        let mut any = false;
        let mut item = |m: &mut Maps, new: &str, old: &str| {
            let (nm, ns) = split(new);
            let (om, os) = split(old);
            if ns != os {
                if !names.contains(ns) && m.items.get(ns).map(|x| x == os).unwrap_or(true) {
                    any |= m.items.insert(ns.to_string(), os.to_string()).is_none();
                }
            } else if nm != om {
                any |= m.alias.insert(new.to_string(), old.to_string()).is_none();
            }
        };
        // structs
        let fresh: Vec<&String> = cr.structs.keys().filter(|p| !ps.contains_key(*p)).collect();
        for old in ps.keys().filter(|p| !cr.structs.contains_key(*p)) {
            let of: Vec<String> = ps[old].as_array().unwrap().iter().map(|x| x[0].as_str().unwrap().to_string()).collect();
            let has = |p: &&&String| cr.structs[**p].fields.iter().map(|x| x.0.clone()).collect::<Vec<_>>() == of;
            let mut c: Vec<&&String> = fresh.iter().filter(|p| split(p).1 == split(old).1).filter(has).collect();
            if c.is_empty() {
                c = fresh.iter().filter(|p| split(p).0 == split(old).0).filter(has).collect();
            }
            if let [one] = c[..] {
                item(self, one, old);
            }
        }
        // enums of plain names, and their variants
        for (old, vs) in pe {
            let of: Vec<String> = vs.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            match cr.enums.get(old) {
                None => {
                    let c: Vec<&String> = cr.enums.iter().filter(|(p, v)| !pe.contains_key(*p) && split(p).0 == split(old).0 && (**v == of || v.len() == of.len())).map(|x| x.0).collect();
                    if let [one] = c[..] {
                        item(self, one, old);
                    }
                }
                Some(v) if v.len() == of.len() => {
                    for (o, n) in of.iter().zip(v) {
                        if o != n && !of.contains(n) && !v.contains(o) {
                            item(self, &format!("{old}::{n}"), &format!("{old}::{o}"));
                        }
                    }
                }
                _ => {}
            }
        }
        // functions
        let fresh: Vec<&String> = cr.fns.keys().filter(|p| !pf.contains_key(*p)).collect();
        let gone: Vec<&String> = pf.keys().filter(|p| !cr.fns.contains_key(*p)).collect();
        let osig = |p: &str| pf[p][0].as_str().unwrap().to_string();
        let used = |p: &&String| cr.kinds["fns"].get(p.as_str()).is_some();
        for old in gone.iter().copied().filter(used) {
            let same = |p: &&String| sig_of(&cr.fns[*p].sig) == osig(old);
            let mut c: Vec<&String> = fresh.iter().copied().filter(|p| split(p).1 == split(old).1).filter(same).collect();
            if c.is_empty() {
                let here = |p: &&String| split(p).0 == split(old).0;
                c = fresh.iter().copied().filter(here).filter(same).collect();
                c.sort_by_key(|p| cr.fns[*p].ord);
                let mut peers: Vec<&String> = gone.iter().copied().filter(|p| split(p).0 == split(old).0 && osig(p) == osig(old)).collect();
                peers.sort_by_key(|p| pf[*p][1].as_u64());
                if c.len() == peers.len() {
                    let k = peers.iter().position(|p| *p == old).unwrap();
                    c = vec![c[k]];
                }
            }
            if let [one] = c[..] {
                item(self, one, old);
            }
        }
        // fields
        for (p, d) in &cr.structs {
            let of: Vec<String> = match ps.get(p) {
                Some(v) => v.as_array().unwrap().iter().map(|x| x[0].as_str().unwrap().to_string()).collect(),
                None => continue,
            };
            let nf: Vec<String> = d.fields.iter().map(|x| x.0.clone()).collect();
            if of.len() != nf.len() || of == nf {
                continue;
            }
            for (o, n) in of.iter().zip(&nf) {
                if o == n || of.contains(n) || nf.contains(o) {
                    continue;
                }
                let key = (d.module.clone(), n.clone());
                let clash = cr.structs.iter().any(|(q, e)| e.module == d.module && ps.get(q).map(|v| v.as_array().unwrap().iter().any(|x| x[0] == json!(n))).unwrap_or(false));
                if !clash && self.fields.get(&key).map(|x| x == o).unwrap_or(true) {
                    any |= self.fields.insert(key, o.clone()).is_none();
                }
            }
        }
        any
    }
}

pub struct Apply<'a> {
    pub maps: &'a Maps,
    pub module: String,
}
impl Apply<'_> {
    fn id(&self, i: &mut syn::Ident) {
        if let Some(o) = self.maps.items.get(&i.to_string()) {
            *i = syn::Ident::new(o, i.span());
        }
    }
    fn member(&self, m: &mut syn::Member) -> bool {
        if let syn::Member::Named(i) = m {
            if let Some(o) = self.maps.fields.get(&(self.module.clone(), i.to_string())) {
                *i = syn::Ident::new(o, i.span());
                return true;
            }
        }
        false
    }
}
impl Apply<'_> {
    fn tokens(&self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        use proc_macro2::{Group, Ident, TokenTree};
        let (mut dot, mut joint) = (false, false);
        t.into_iter()
            .map(|x| {
                let was_dot = dot;
                let is_dot = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
                dot = is_dot && !joint && matches!(&x, TokenTree::Punct(p) if p.spacing() == proc_macro2::Spacing::Alone);
                joint = is_dot && matches!(&x, TokenTree::Punct(p) if p.spacing() == proc_macro2::Spacing::Joint);
                match x {
                    TokenTree::Group(g) => {
                        let mut n = Group::new(g.delimiter(), self.tokens(g.stream()));
                        n.set_span(g.span());
                        TokenTree::Group(n)
                    }
                    TokenTree::Ident(i) => {
                        let f = self.maps.fields.get(&(self.module.clone(), i.to_string())).filter(|_| was_dot);
                        match f.or_else(|| self.maps.items.get(&i.to_string())) {
                            Some(o) => TokenTree::Ident(Ident::new(o, i.span())),
                            None => TokenTree::Ident(i),
                        }
                    }
                    x => x,
                }
            })
            .collect()
    }
}
impl VisitMut for Apply<'_> {
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if !self.maps.fields.is_empty() || !self.maps.items.is_empty() {
            m.tokens = self.tokens(m.tokens.clone());
        }
    }
    fn visit_signature_mut(&mut self, s: &mut syn::Signature) {
        self.id(&mut s.ident);
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_item_struct_mut(&mut self, s: &mut syn::ItemStruct) {
        self.id(&mut s.ident);
        visit_mut::visit_item_struct_mut(self, s);
    }
    fn visit_item_enum_mut(&mut self, e: &mut syn::ItemEnum) {
        self.id(&mut e.ident);
        for v in e.variants.iter_mut() {
            self.id(&mut v.ident);
        }
        visit_mut::visit_item_enum_mut(self, e);
    }
    fn visit_path_segment_mut(&mut self, s: &mut syn::PathSegment) {
        self.id(&mut s.ident);
        visit_mut::visit_path_segment_mut(self, s);
    }
    fn visit_use_name_mut(&mut self, s: &mut syn::UseName) {
        self.id(&mut s.ident);
    }
    fn visit_use_rename_mut(&mut self, s: &mut syn::UseRename) {
        self.id(&mut s.ident);
        self.id(&mut s.rename);
    }
    fn visit_expr_method_call_mut(&mut self, e: &mut syn::ExprMethodCall) {
        self.id(&mut e.method);
        visit_mut::visit_expr_method_call_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        // a local of the same name stays consistent with its uses
        self.id(&mut p.ident);
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_mut(&mut self, f: &mut syn::Field) {
        if let Some(i) = &f.ident {
            if let Some(o) = self.maps.fields.get(&(self.module.clone(), i.to_string())) {
                f.ident = Some(syn::Ident::new(o, i.span()));
            }
        }
        visit_mut::visit_field_mut(self, f);
    }
    fn visit_expr_field_mut(&mut self, e: &mut syn::ExprField) {
        self.member(&mut e.member);
        visit_mut::visit_expr_field_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if self.member(&mut f.member) && f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if self.member(&mut f.member) && f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
}
