use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;

/// One function of the crate (free, nested, method or Drop::drop body).
#[derive(Clone)]
pub struct FnDef {
    pub path: String,   // e.g. par::merge_sort::merge
    pub module: String, // e.g. par::merge_sort
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<String>, // full struct path for methods
    pub unwinds: bool,
    pub parent: Option<String>, // enclosing fn path for nested fns
    pub ord: usize,
}

pub struct StructDef {
    pub path: String,
    pub fields: Vec<(String, syn::Type)>,
    pub has_drop: bool,
    pub module: String,
}

pub struct Crate {
    pub fns: BTreeMap<String, FnDef>,
    pub structs: BTreeMap<String, StructDef>,
    pub consts: BTreeMap<String, syn::Expr>,
    /// enums of plain names: their variants in the order they are declared
    pub enums: BTreeMap<String, Vec<String>>,
    pub const_ty: BTreeMap<String, syn::Type>,
    /// module -> local name -> full path
    pub uses: BTreeMap<String, HashMap<String, String>>,
    pub kinds: Value,
    pub macros: BTreeMap<String, proc_macro2::TokenStream>,
    pub maps: crate::renames::Maps,
    pub pin: Value,
}

/// Evaluates a cfg predicate for the verified configuration: default features plus rayon, no
/// miri, no test, 64-bit.
pub fn cfg_on(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().all(|a| {
        if !a.path().is_ident("cfg") {
            return true;
        }
        let m: syn::Meta = match a.parse_args() {
            Ok(m) => m,
            Err(_) => return true,
        };
        eval(&m)
    })
}
fn eval(m: &syn::Meta) -> bool {
    match m {
        syn::Meta::Path(p) => {
            let s = p.get_ident().map(|i| i.to_string()).unwrap_or_default();
            matches!(s.as_str(), "debug_assertions" | "unix")
        }
        syn::Meta::NameValue(nv) => {
            let k = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            let v = match &nv.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
                _ => String::new(),
            };
            match k.as_str() {
                "feature" => matches!(v.as_str(), "default" | "std" | "alloc" | "stacker" | "rayon"),
                "target_pointer_width" => v == "64",
                "panic" => v == "unwind",
                _ => false,
            }
        }
        syn::Meta::List(l) => {
            let inner = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
                .unwrap_or_default();
            let k = l.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            match k.as_str() {
                "all" => inner.iter().all(eval),
                "any" => inner.iter().any(eval),
                "not" => !inner.iter().all(eval),
                _ => false,
            }
        }
    }
}

pub fn ty_last(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => ty_last(&r.elem),
        _ => None,
    }
}

impl Crate {
    pub fn load(src: &str, kinds: &Value, maps: &crate::renames::Maps) -> Crate {
        let mut c = Crate {
            fns: BTreeMap::new(),
            structs: BTreeMap::new(),
            enums: BTreeMap::new(),
            consts: BTreeMap::new(),
            const_ty: BTreeMap::new(),
            uses: BTreeMap::new(),
            kinds: kinds.clone(),
            macros: BTreeMap::new(),
            maps: maps.clone(),
            pin: Value::Null,
        };
        c.load_file(&format!("{src}/lib.rs"), src, "");
        c
    }
    fn load_file(&mut self, file: &str, dir: &str, module: &str) {
        let text = match std::fs::read_to_string(file) {
            Ok(t) => t,
            Err(_) => return,
        };
        let mut f = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("parse error {file}: {e}");
                std::process::exit(3);
            }
        };
        syn::visit_mut::VisitMut::visit_file_mut(&mut crate::renames::Apply { maps: &self.maps, module: module.to_string() }, &mut f);
        self.uses.entry(module.to_string()).or_default();
        self.items(&f.items, dir, module, None);
    }
    fn items(&mut self, items: &[syn::Item], dir: &str, module: &str, parent: Option<&str>) {
        let pfx = |n: &str| {
            let base = parent.unwrap_or(module);
            if base.is_empty() {
                n.to_string()
            } else {
                format!("{base}::{n}")
            }
        };
        for it in items {
            match it {
                syn::Item::Mod(m) if cfg_on(&m.attrs) => {
                    let name = m.ident.to_string();
                    let full = if module.is_empty() { name.clone() } else { format!("{module}::{name}") };
                    if let Some((_, its)) = &m.content {
                        self.uses.entry(full.clone()).or_default();
                        self.items(its, dir, &full, None);
                    } else {
                        let rel = full.replace("::", "/");
                        let f1 = format!("{dir}/{rel}.rs");
                        let f2 = format!("{dir}/{rel}/mod.rs");
                        if std::path::Path::new(&f1).exists() {
                            self.load_file(&f1, dir, &full);
                        } else {
                            self.load_file(&f2, dir, &full);
                        }
                    }
                }
                syn::Item::Use(u) if cfg_on(&u.attrs) => {
                    let mut acc = vec![];
                    use_tree(&u.tree, vec![], &mut acc);
                    for (n, p) in acc {
                        let p = if p[0] == "crate" {
                            p[1..].join("::")
                        } else if p[0] == "super" {
                            let mut m: Vec<&str> = module.split("::").collect();
                            let mut k = 0;
                            while k < p.len() && p[k] == "super" {
                                m.pop();
                                k += 1;
                            }
                            let mut v: Vec<String> = m.iter().map(|s| s.to_string()).collect();
                            v.extend(p[k..].iter().cloned());
                            v.join("::")
                        } else {
                            p.join("::")
                        };
                        self.uses.entry(module.to_string()).or_default().insert(n, p);
                    }
                }
                syn::Item::Const(k) if cfg_on(&k.attrs) => {
                    self.consts.insert(pfx(&k.ident.to_string()), (*k.expr).clone());
                    self.const_ty.insert(pfx(&k.ident.to_string()), (*k.ty).clone());
                }
                // an enum of plain names: its variants are numbered in alphabetical order
                syn::Item::Enum(e) if cfg_on(&e.attrs) && e.variants.iter().all(|v| v.fields.is_empty()) => {
                    let mut ns: Vec<String> = e.variants.iter().filter(|v| cfg_on(&v.attrs)).map(|v| v.ident.to_string()).collect();
                    let declared = ns.clone();
                    ns.sort();
                    let p = pfx(&e.ident.to_string());
                    for (i, n) in ns.iter().enumerate() {
                        let i = i as u8;
                        self.consts.insert(format!("{p}::{n}"), syn::parse_quote!(#i));
                        self.const_ty.insert(format!("{p}::{n}"), syn::parse_quote!(u8));
                    }
                    self.enums.insert(p, declared);
                }
                syn::Item::Fn(f) if cfg_on(&f.attrs) => {
                    self.add_fn(f.sig.clone(), (*f.block).clone(), module, pfx(&f.sig.ident.to_string()), None, parent, dir);
                }
                syn::Item::Struct(s) if cfg_on(&s.attrs) => {
                    let fields = s
                        .fields
                        .iter()
                        .enumerate()
                        .map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.clone()))
                        .collect();
                    let path = pfx(&s.ident.to_string());
                    let has_drop = self.structs.get(&path).map(|s| s.has_drop).unwrap_or(false);
                    let path = self.pinned(path);
                    self.structs.insert(path.clone(), StructDef { path, fields, has_drop, module: module.to_string() });
                }
                syn::Item::Impl(im) if cfg_on(&im.attrs) => {
                    let tyname = match ty_last(&im.self_ty) {
                        Some(t) => t,
                        None => continue,
                    };
                    let spath = self.pinned(pfx(&tyname));
                    let trait_name = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    if trait_name.as_deref() == Some("Drop") {
                        match self.structs.get_mut(&spath) {
                            Some(s) => s.has_drop = true,
                            None => {
                                self.structs.insert(
                                    spath.clone(),
                                    StructDef { path: spath.clone(), fields: vec![], has_drop: true, module: module.to_string() },
                                );
                            }
                        }
                    }
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if !cfg_on(&f.attrs) {
                                continue;
                            }
                            let p = format!("{spath}::{}", f.sig.ident);
                            self.add_fn(f.sig.clone(), f.block.clone(), module, p, Some(spath.clone()), parent, dir);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn add_fn(
        &mut self,
        sig: syn::Signature,
        block: syn::Block,
        module: &str,
        path: String,
        self_ty: Option<String>,
        parent: Option<&str>,
        dir: &str,
    ) {
        let path = self.pinned(path);
        let ord = self.fns.len();
        // nested items
        let nested: Vec<syn::Item> = block
            .stmts
            .iter()
            .filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None })
            .filter(|i| !matches!(i, syn::Item::Const(_)))
            .collect();
        self.fns.insert(
            path.clone(),
            FnDef {
                path: path.clone(),
                module: module.to_string(),
                sig,
                block,
                self_ty,
                unwinds: false,
                parent: parent.map(|s| s.to_string()),
                ord,
            },
        );
        // structs must be seen before impls: two passes are unnecessary because insert keeps has_drop
        self.items(&nested, dir, module, Some(&path));
    }

    fn pinned(&self, p: String) -> String {
        self.maps.alias.get(&p).cloned().unwrap_or(p)
    }
    /// Full path of the item a (possibly qualified) name refers to, seen from `from`.
    pub fn resolve(&self, from: &FnDef, name: &str) -> Option<String> {
        let exists = |p: &str| {
            let q = self.pinned(p.to_string());
            self.fns.contains_key(&q) || self.structs.contains_key(&q) || self.consts.contains_key(&q) || self.enums.contains_key(&q)
        };
        // nested in this fn or in an enclosing one
        let mut scope = Some(from.path.clone());
        while let Some(s) = scope {
            let p = format!("{s}::{name}");
            if exists(&p) {
                return Some(self.pinned(p));
            }
            scope = self.fns.get(&s).and_then(|f| f.parent.clone());
        }
        let first = name.split("::").next().unwrap();
        if first == "crate" {
            let p = name.splitn(2, "::").nth(1)?.to_string();
            return exists(&p).then(|| self.pinned(p));
        }
        let p = if from.module.is_empty() { name.to_string() } else { format!("{}::{name}", from.module) };
        if exists(&p) {
            return Some(self.pinned(p));
        }
        if let Some(u) = self.uses.get(&from.module).and_then(|m| m.get(first)) {
            let rest = &name[first.len()..];
            let p = format!("{u}{rest}");
            if exists(&p) {
                return Some(self.pinned(p));
            }
        }
        if exists(name) {
            return Some(self.pinned(name.to_string()));
        }
        None
    }
    pub fn wanted(&self, path: &str) -> bool {
        self.kinds["fns"].get(path).map(|v| v["skip"] != json!(true)).unwrap_or(false)
            || self.kinds["structs"].as_object().map(|o| o.keys().any(|s| path.starts_with(&format!("{s}::")))).unwrap_or(false)
    }
    /// What the pinned tree calls the parameter at this place.
    pub fn pinned_param(&self, f: &FnDef, name: &str) -> String {
        let now = crate::renames::params(&f.sig);
        let old: Vec<&str> = self.pin["fns"][&f.path][2].as_array().map(|v| v.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
        match now.iter().position(|n| n == name) {
            Some(k) if now.len() == old.len() && !old.contains(&name) && !now.iter().any(|n| n == old[k]) => old[k].to_string(),
            _ => name.to_string(),
        }
    }
    pub fn fn_kind(&self, path: &str) -> &Value {
        &self.kinds["fns"][path]
    }
    pub fn structs_json(&self) -> Vec<Value> {
        let mut v = vec![];
        if let Some(o) = self.kinds["structs"].as_object() {
            for (p, ks) in o {
                if let Some(s) = self.structs.get(p) {
                    let real: Vec<&String> = s.fields.iter().map(|(n, _)| n).collect();
                    v.push(json!({"path": p, "has_drop": s.has_drop, "fields": real, "kinds": ks}));
                } else {
                    v.push(json!({"path": p, "missing": true}));
                }
            }
        }
        v
    }
    /// Which functions can unwind: they call a caller-supplied function, panic!, or a function that can.
    pub fn fixpoint_unwind(&mut self) {
        let mut info: BTreeMap<String, (bool, BTreeSet<String>)> = BTreeMap::new();
        for (p, f) in &self.fns {
            let mut params: BTreeSet<String> = BTreeSet::new();
            let generic_fn: BTreeSet<String> = fn_bounds(&f.sig);
            for a in &f.sig.inputs {
                if let syn::FnArg::Typed(t) = a {
                    if let syn::Pat::Ident(i) = &*t.pat {
                        let mut ty = &*t.ty;
                        if let syn::Type::Reference(r) = ty {
                            ty = &r.elem;
                        }
                        let is_cb = match ty {
                            syn::Type::Path(tp) => tp.path.get_ident().map(|i| generic_fn.contains(&i.to_string())).unwrap_or(false),
                            syn::Type::ImplTrait(_) => true,
                            _ => false,
                        };
                        if is_cb {
                            params.insert(i.ident.to_string());
                        }
                    }
                }
            }
            let mut v = CallScan { params, direct: false, calls: BTreeSet::new() };
            for s in &f.block.stmts {
                if matches!(s, syn::Stmt::Item(syn::Item::Macro(_))) || !matches!(s, syn::Stmt::Item(_)) {
                    v.visit_stmt(s);
                }
            }
            // comparing elements through their own trait
            if p.starts_with("ArrayBase::") {
                let w = quote::ToTokens::to_token_stream(&f.sig.generics.where_clause).to_string();
                if ["A : PartialEq", "A : PartialOrd", "A : Ord", "A : Eq"].iter().any(|b| w.contains(b)) {
                    let mut c = Compares(false);
                    c.visit_block(&f.block);
                    v.direct |= c.0;
                }
            }
            let calls = v.calls.iter().filter_map(|c| self.resolve(f, c)).collect();
            info.insert(p.clone(), (v.direct, calls));
        }
        loop {
            let mut ch = false;
            let ps: Vec<String> = info.keys().cloned().collect();
            for p in ps {
                if info[&p].0 {
                    continue;
                }
                if info[&p].1.iter().any(|c| info.get(c).map(|i| i.0).unwrap_or(false)) {
                    info.get_mut(&p).unwrap().0 = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for (p, f) in self.fns.iter_mut() {
            f.unwinds = info[p].0;
            if let Some(b) = self.kinds["fns"][p]["unwinds"].as_bool() {
                f.unwinds = b;
            }
        }
    }
}

pub fn fn_bounds(sig: &syn::Signature) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    let chk = |b: &syn::TypeParamBound| -> bool {
        if let syn::TypeParamBound::Trait(t) = b {
            let n = t.path.segments.last().unwrap().ident.to_string();
            return matches!(n.as_str(), "FnMut" | "Fn" | "FnOnce" | "Extend");
        }
        false
    };
    for p in &sig.generics.params {
        if let syn::GenericParam::Type(t) = p {
            if t.bounds.iter().any(chk) {
                s.insert(t.ident.to_string());
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let syn::WherePredicate::Type(t) = p {
                if t.bounds.iter().any(chk) {
                    if let syn::Type::Path(tp) = &t.bounded_ty {
                        if let Some(i) = tp.path.get_ident() {
                            s.insert(i.to_string());
                        }
                    }
                }
            }
        }
    }
    s
}

struct Compares(bool);
impl<'a> Visit<'a> for Compares {
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_)) {
            self.0 = true;
        }
        syn::visit::visit_expr_binary(self, b);
    }
}
struct CallScan {
    params: BTreeSet<String>,
    direct: bool,
    calls: BTreeSet<String>,
}
impl<'a> Visit<'a> for CallScan {
    fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            let n = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if self.params.contains(&n) {
                self.direct = true;
            } else {
                self.calls.insert(n);
            }
        }
        syn::visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
        if matches!(e.method.to_string().as_str(), "extend" | "any" | "all") {
            self.direct = true;
        }
        if matches!(&*e.receiver, syn::Expr::Path(p) if p.path.is_ident("self")) {
            self.calls.insert(format!("ArrayBase::{}", e.method));
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let mut ids = BTreeSet::new();
        for t in m.tokens.clone() {
            crate::tr::ids_of(t, &mut ids);
        }
        if m.path.is_ident("panic") || ids.iter().any(|i| self.params.contains(i)) {
            self.direct = true;
        }
    }
}

fn use_tree(t: &syn::UseTree, pre: Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
    match t {
        syn::UseTree::Path(p) => {
            let mut v = pre;
            v.push(p.ident.to_string());
            use_tree(&p.tree, v, out);
        }
        syn::UseTree::Name(n) => {
            let name = n.ident.to_string();
            let mut v = pre;
            if name == "self" {
                let l = v.last().cloned().unwrap_or_default();
                out.push((l, v));
            } else {
                v.push(name.clone());
                out.push((name, v));
            }
        }
        syn::UseTree::Rename(r) => {
            let mut v = pre;
            v.push(r.ident.to_string());
            out.push((r.rename.to_string(), v));
        }
        syn::UseTree::Group(g) => {
            for i in &g.items {
                use_tree(i, pre.clone(), out);
            }
        }
        syn::UseTree::Glob(_) => {}
    }
}
