use crate::collect::{fn_bounds, ty_last, Crate, FnDef};
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::{Expr, Pat, Stmt};

pub type R<T> = Result<T, String>;

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Int(String),
    Bool,
    Unit,
    Never,
    View,
    IView,
    SView,        // view of result slots (MaybeUninit<&mut T>)
    SPlace,       // one result slot
    RVec,         // Vec<&mut T>, its storage is the slots
    PVec(String), // local Vec<(K, integer)>
    PElem(String, String), // one of its pairs: integer type, text of the vector; text is the index
    Ptr,          // reference or raw pointer to an element of the array
    HPtr(String), // raw pointer into a heap (bp: scratch of T, rp: run stack, om: offset bytes)
    Null,
    EPtr,      // element pointer into array or scratch, decided at run time
    Val,       // element value, or reference to a local one
    Owned,     // bitwise copy of an element that would be dropped
    MD,        // ManuallyDrop of an element
    Place,     // *ptr of K::Ptr
    HPlace(String),
    EPlace,
    Buf(String), // local array of uninitialised cells, text is an HPtr
    BufCell(String),
    Cmp(String), // comparator with trait name
    Coll,
    Opt(Box<K>),
    Tup(Vec<K>),
    Struct(String), // full path
    Ord,
    KVal,                // key value (result of a key function)
    Res(Box<K>, Box<K>), // std Result
    MutRef(Box<K>),
    AllocFn(String, bool), // heap, is dealloc
    Clos(usize),
    Slice(String), // slice of heap elements: text is struct with ptr,len
    LVec(Box<K>),   // local Vec of plain data
    LSlice(Box<K>), // slice of one
    LIter(Box<K>),  // iterator that consumed one
    LSpare(String), // its spare capacity: text is the Vec
    LSlot(String),  // one cell of that: text is the position
    Chunks,         // axis_chunks_iter_mut
    TVec,           // Vec of elements used as raw memory only: text is an HPtr into bp
    Adopted,        // view made of raw memory
    Other(String),
}

pub fn mangle(p: &str) -> String {
    p.replace("::", "__")
}

impl K {
    pub fn ty(&self, cr: &Crate) -> String {
        match self {
            K::Int(s) => if s == "_" { "usize".into() } else { s.clone() },
            K::Bool => "bool".into(),
            K::Unit | K::Never => "()".into(),
            K::View => "Vw".into(),
            K::IView => "IVw".into(),
            K::SView => "SVw".into(),
            K::RVec => "RVec".into(),
            K::PVec(i) => format!("PVec<F::K, {i}>"),
            K::Ptr => "MPtr".into(),
            K::HPtr(_) | K::Null | K::Buf(_) => "HPtr".into(),
            K::EPtr => "EPtr".into(),
            K::Val | K::Owned | K::MD => "T".into(),
            K::Opt(k) => format!("Option<{}>", k.ty(cr)),
            K::Tup(v) => format!("({})", v.iter().map(|k| k.ty(cr)).collect::<Vec<_>>().join(", ")),
            K::Struct(s) => {
                let m = mangle(s);
                if struct_generic(cr, s) { format!("{m}<T>") } else { m }
            }
            K::Ord => "Ord3".into(),
            K::KVal => "F::K".into(),
            K::Res(a, b) => format!("Result<{}, {}>", a.ty(cr), b.ty(cr)),
            K::MutRef(k) => format!("&mut {}", k.ty(cr)),
            K::Slice(_) => "HSlice".into(),
            K::LVec(k) => format!("LVec<{}>", k.ty(cr)),
            K::LSlice(k) => format!("&[{}]", k.ty(cr)),
            K::LIter(k) => format!("LIter<{}>", k.ty(cr)),
            K::Chunks => "Chunks".into(),
            K::Other(s) => s.clone(),
            k => format!("/*?{k:?}*/"),
        }
    }
}

pub fn struct_generic(cr: &Crate, s: &str) -> bool {
    cr.kinds["structs"][s]
        .as_object()
        .map(|o| o.values().any(|v| v == "Val" || v == "T"))
        .unwrap_or(false)
}

pub fn parse_kind(s: &str) -> K {
    let s = s.trim();
    if let Some(r) = s.strip_prefix("HPtr:") {
        return K::HPtr(r.into());
    }
    if let Some(r) = s.strip_prefix("Opt:") {
        return K::Opt(Box::new(parse_kind(r)));
    }
    if let Some(r) = s.strip_prefix("Struct:") {
        return K::Struct(r.into());
    }
    if let Some(r) = s.strip_prefix("MutRef:") {
        return K::MutRef(Box::new(parse_kind(r)));
    }
    if let Some(r) = s.strip_prefix("Cmp:") {
        return K::Cmp(r.into());
    }
    if let Some(r) = s.strip_prefix("Slice:") {
        return K::Slice(r.into());
    }
    if let Some(r) = s.strip_prefix("AllocFn:") {
        return K::AllocFn(r.into(), false);
    }
    if let Some(r) = s.strip_prefix("DeallocFn:") {
        return K::AllocFn(r.into(), true);
    }
    if s.starts_with('(') && s.ends_with(')') {
        let inner = &s[1..s.len() - 1];
        return K::Tup(inner.split(',').filter(|x| !x.trim().is_empty()).map(parse_kind).collect());
    }
    match s {
        "Bool" | "bool" => K::Bool,
        "Unit" => K::Unit,
        "View" => K::View,
        "IView" => K::IView,
        "SView" => K::SView,
        "Ptr" => K::Ptr,
        "EPtr" => K::EPtr,
        "Val" => K::Val,
        "Ord" => K::Ord,
        "KVal" => K::KVal,
        "Coll" => K::Coll,
        "usize" | "u8" | "u16" | "u32" | "u64" | "isize" | "i32" | "i64" => K::Int(s.into()),
        o => K::Other(o.into()),
    }
}

#[derive(Clone)]
pub struct Item {
    pub path: String,
    pub name: String,
    pub generics: String,
    pub params: Vec<(String, String)>,
    pub heaps: Vec<(String, bool)>,
    pub cmps: Vec<String>,
    pub views: Vec<String>,
    pub ret: String,
    pub unwinds: bool,
    pub body: Vec<String>,
    pub mutrefs: Vec<String>,
    pub calls: BTreeSet<String>,
    pub uses_esize: bool,
    /// a closure passed as comparator: struct fields (name, type) and the trait it implements
    pub closure: Option<(Vec<(String, String)>, String)>,
}
impl Item {
    pub fn to_json(&self) -> Value {
        json!({"path": self.path, "name": self.name, "generics": self.generics, "params": self.params,
            "heaps": self.heaps, "cmps": self.cmps, "views": self.views, "ret": self.ret, "unwinds": self.unwinds,
            "body": self.body, "mutrefs": self.mutrefs, "calls": self.calls, "closure": self.closure})
    }
}

#[derive(Clone, Debug)]
struct Var {
    k: K,
    em: String,
}
#[derive(Clone, Debug)]
struct DropRec {
    var: String,
    k: K,
    live: bool,
    /// dead on some of the paths that lead here: a flag says which
    maybe: bool,
}
#[derive(Clone, Default, Debug)]
struct Scope {
    vars: HashMap<String, Var>,
    drops: Vec<DropRec>,
}
#[derive(Clone)]
struct LoopInfo {
    depth: usize,
    cont: Option<String>,
    label: Option<String>,
    n: usize,
}
#[derive(Clone)]
struct ClosDef {
    lifted: String,              // path of lifted fn
    caps: Vec<(String, K, bool)>, // captured var name, kind, by mutable reference
    params: Vec<K>,
    ret: K,
    unwinds: bool,
    heaps: Vec<(String, bool)>,
}

struct Cx<'a> {
    cr: &'a Crate,
    f: &'a FnDef,
    path: String,
    scopes: Vec<Scope>,
    items: Vec<Item>,
    tmp: usize,
    loops: usize,
    ifs: usize,
    rets: usize,
    counts: HashMap<String, usize>,
    unwinds: bool,
    ret_k: K,
    heaps: Vec<(String, bool)>,
    local_heaps: Vec<String>,
    loop_stack: Vec<LoopInfo>,
    macros: HashMap<String, (Vec<(String, String)>, TokenStream)>,
    tygen: HashMap<String, String>, // generic of a nested fn -> element type
    clos: Vec<ClosDef>,
    cmps: Vec<String>,
    calls: BTreeSet<String>,
    inline_ret: Vec<()>,
}

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(s.into())
}
fn toks(t: impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

/// Parameter kinds of a crate function, in order, without the heaps.
pub fn param_kinds(cr: &Crate, f: &FnDef) -> R<Vec<(String, K, bool)>> {
    let ov = cr.fn_kind(&f.path);
    let bounds = fn_bounds(&f.sig);
    let mut v = vec![];
    for a in &f.sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => {
                let st = f.self_ty.clone().unwrap_or_default();
                if st == "ArrayBase" {
                    v.push(("self_".to_string(), K::View, false));
                    continue;
                }
                let k = K::Struct(st);
                let k = if r.mutability.is_some() && r.reference.is_some() && f.sig.ident != "drop" {
                    K::MutRef(Box::new(k))
                } else {
                    k
                };
                v.push(("self_".to_string(), k, false));
            }
            syn::FnArg::Typed(t) => {
                let (name, m) = match &*t.pat {
                    Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                    Pat::Wild(_) => (format!("_p{}", v.len()), false),
                    p => return err(format!("{}: parameter pattern {}", f.path, toks(p))),
                };
                let k = if let Some(s) = ov["params"][cr.pinned_param(f, &name)].as_str() {
                    parse_kind(s)
                } else {
                    ty_kind(cr, f, &t.ty, &bounds, ov)?
                };
                v.push((name, k, m));
            }
        }
    }
    Ok(v)
}

pub fn ty_kind(cr: &Crate, f: &FnDef, t: &syn::Type, bounds: &BTreeSet<String>, ov: &Value) -> R<K> {
    let cmp = |n: &str| K::Cmp(ov["cmp"].as_str().map(|s| s.to_string()).unwrap_or_else(|| cb_trait(&f.sig, n)));
    Ok(match t {
        syn::Type::Paren(p) => ty_kind(cr, f, &p.elem, bounds, ov)?,
        syn::Type::Tuple(tt) => {
            if tt.elems.is_empty() {
                K::Unit
            } else {
                K::Tup(tt.elems.iter().map(|e| ty_kind(cr, f, e, bounds, ov)).collect::<R<Vec<_>>>()?)
            }
        }
        syn::Type::Array(a) => {
            let k = ty_kind(cr, f, &a.elem, bounds, ov)?;
            let n = match &a.len {
                Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => i.base10_parse::<usize>().unwrap(),
                e => return err(format!("array length {}", toks(e))),
            };
            K::Tup(vec![k; n])
        }
        syn::Type::Path(p) => {
            let last = p.path.segments.last().unwrap();
            let n = last.ident.to_string();
            let arg = || -> Option<syn::Type> {
                if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                    a.args.iter().rev().find_map(|x| if let syn::GenericArgument::Type(t) = x { Some(t.clone()) } else { None })
                } else {
                    None
                }
            };
            match n.as_str() {
                "usize" | "u8" | "u16" | "u32" | "u64" | "isize" | "i32" | "i64" => K::Int(n),
                "bool" => K::Bool,
                "ArrayViewMut1" | "ArrayView1" => match arg().as_ref().and_then(ty_last).as_deref() {
                    Some("usize") => K::IView,
                    Some("MaybeUninit") => K::SView,
                    _ => K::View,
                },
                "Option" => K::Opt(Box::new(match ty_kind(cr, f, &arg().unwrap(), bounds, ov)? {
                    K::Val => K::Ptr,
                    k => k,
                })),
                "Ordering" => K::Ord,
                "Self" => K::Struct(f.self_ty.clone().unwrap_or_default()),
                "ManuallyDrop" => K::MD,
                "Vec" if matches!(arg(), Some(syn::Type::Reference(ref r)) if matches!(ty_last(&r.elem).as_deref(), Some("A" | "T"))) => K::RVec,
                x if bounds.contains(x) => {
                    if f.sig.generics.where_clause.as_ref().map(|w| toks(w).contains("Extend")).unwrap_or(false) && x == "E" {
                        K::Coll
                    } else {
                        cmp(x)
                    }
                }
                "T" | "A" => K::Val,
                "ArrayBase" => match arg_first(last).as_deref() {
                    Some("S2") => K::IView,
                    _ => K::View,
                },
                "Result" => {
                    if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                        let ts: Vec<&syn::Type> = a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(t) } else { None }).collect();
                        if ts.len() == 2 {
                            return Ok(K::Res(Box::new(ty_kind(cr, f, ts[0], bounds, ov)?), Box::new(ty_kind(cr, f, ts[1], bounds, ov)?)));
                        }
                    }
                    return err(format!("type {}", toks(t)));
                }
                x if is_key_generic(&f.sig, x) => K::KVal,
                x => match cr.resolve(f, x) {
                    Some(p) if cr.enums.contains_key(&p) => K::Int("u8".into()),
                    Some(p) if cr.structs.contains_key(&p) => K::Struct(p),
                    _ => return err(format!("type {}", toks(t))),
                },
            }
        }
        syn::Type::Reference(r) => {
            let inner = ty_kind(cr, f, &r.elem, bounds, ov)?;
            match inner {
                K::Val => {
                    if r.mutability.is_some() {
                        K::Ptr
                    } else {
                        K::Val
                    }
                }
                K::Cmp(_) | K::Coll => inner,
                k if r.mutability.is_some() => match k {
                    K::Int(_) | K::Bool | K::Struct(_) | K::RVec => K::MutRef(Box::new(k)),
                    k => k,
                },
                k => k,
            }
        }
        syn::Type::Ptr(p) => match &*p.elem {
            syn::Type::Path(tp) if tp.path.is_ident("u8") => K::HPtr("om".into()),
            e => match ty_kind(cr, f, e, bounds, ov)? {
                K::Val => K::Ptr,
                K::Struct(s) if s.ends_with("TimSortRun") => K::HPtr("rp".into()),
                k => return err(format!("pointer to {k:?}")),
            },
        },
        syn::Type::Slice(s) if ty_last(&s.elem).as_deref() == Some("MaybeUninit") => K::SView,
        syn::Type::Slice(s) => match ty_kind(cr, f, &s.elem, bounds, ov)? {
            K::Struct(s) if s == run_struct(cr) => K::Slice("rp".into()),
            k if plain(cr, &k) => K::LSlice(Box::new(k)),
            k => return err(format!("slice of {k:?}")),
        },
        syn::Type::ImplTrait(_) => cmp(""),
        _ => return err(format!("type {}", toks(t))),
    })
}

fn run_struct(cr: &Crate) -> String {
    cr.kinds["run_struct"].as_str().unwrap_or("merge_sort::TimSortRun").to_string()
}
/// Data without elements or pointers.
fn plain(cr: &Crate, k: &K) -> bool {
    match k {
        K::Int(_) | K::Bool => true,
        K::Tup(v) => v.iter().all(|k| plain(cr, k)),
        K::Struct(s) => cr.kinds["structs"][s]["#copy"] == "1",
        _ => false,
    }
}
fn arg_first(seg: &syn::PathSegment) -> Option<String> {
    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
        return a.args.iter().find_map(|x| if let syn::GenericArgument::Type(t) = x { ty_last(t) } else { None });
    }
    None
}
/// Every bound written for the type parameter `n`.
fn bounds_of<'a>(sig: &'a syn::Signature, n: &str) -> Vec<&'a syn::TraitBound> {
    let mut v = vec![];
    let mut add = |bs: &'a syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>| {
        for b in bs {
            if let syn::TypeParamBound::Trait(t) = b {
                v.push(t);
            }
        }
    };
    for p in &sig.generics.params {
        if let syn::GenericParam::Type(t) = p {
            if t.ident == n {
                add(&t.bounds);
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let syn::WherePredicate::Type(t) = p {
                if let syn::Type::Path(tp) = &t.bounded_ty {
                    if tp.path.is_ident(n) {
                        add(&t.bounds);
                    }
                }
            }
        }
    }
    v
}
/// Which comparator model a callback parameter of type `n` has, from its Fn bound.
fn cb_trait(sig: &syn::Signature, n: &str) -> String {
    for b in bounds_of(sig, n) {
        if let syn::PathArguments::Parenthesized(p) = &b.path.segments.last().unwrap().arguments {
            let ret = match &p.output {
                syn::ReturnType::Type(_, t) => toks(t),
                _ => "()".into(),
            };
            let mutable = p.inputs.iter().any(|t| matches!(t, syn::Type::Reference(r) if r.mutability.is_some()));
            return match (p.inputs.len(), ret.as_str()) {
                (2, "bool") if mutable => "Bucket",
                (2, "bool") => "Less",
                (2, r) if r.ends_with("Ordering") => "Cmp3",
                (1, "bool") => "Pred",
                (1, r) if r.ends_with("Ordering") => "Probe",
                (1, _) => "KeyFn",
                _ => "Less",
            }
            .to_string();
        }
    }
    "Less".into()
}
/// A type parameter that is the result of a key function, or compared with one.
fn is_key_generic(sig: &syn::Signature, n: &str) -> bool {
    n != "A" && n != "T" && bounds_of(sig, n).iter().any(|b| matches!(b.path.segments.last().unwrap().ident.to_string().as_str(), "Ord" | "PartialOrd" | "PartialEq" | "Eq"))
}
/// Whether elements themselves are compared (`A: Ord`, `A: PartialEq`, ...).
fn elem_ord(sig: &syn::Signature) -> bool {
    ["A", "T"].iter().any(|n| bounds_of(sig, n).iter().any(|b| matches!(b.path.segments.last().unwrap().ident.to_string().as_str(), "Ord" | "PartialOrd" | "PartialEq" | "Eq")))
}

fn kind_heaps(cr: &Crate, k: &K, hs: &mut BTreeSet<String>) {
    match k {
        K::View | K::Ptr => {
            hs.insert("hp".into());
        }
        K::EPtr => {
            hs.insert("hp".into());
            hs.insert("bp".into());
        }
        K::HPtr(h) | K::Slice(h) | K::AllocFn(h, _) => {
            hs.insert(h.clone());
        }
        K::SView | K::RVec => {
            hs.insert("sp".into());
        }
        K::Opt(k) | K::MutRef(k) => kind_heaps(cr, k, hs),
        K::Tup(v) => v.iter().for_each(|k| kind_heaps(cr, k, hs)),
        K::Struct(s) => {
            if let Some(o) = cr.kinds["structs"][s].as_object() {
                for v in o.values() {
                    if let Some(v) = v.as_str() {
                        kind_heaps(cr, &parse_kind(v), hs);
                    }
                }
            }
        }
        _ => {}
    }
}

/// The memories a function works on: (name, mutable).
pub fn heaps_of(cr: &Crate, f: &FnDef) -> R<Vec<(String, bool)>> {
    let ov = cr.fn_kind(&f.path);
    if let Some(a) = ov["heaps"].as_array() {
        return Ok(a
            .iter()
            .map(|x| {
                let s = x.as_str().unwrap();
                if let Some(r) = s.strip_prefix('&') { (r.to_string(), false) } else { (s.to_string(), true) }
            })
            .collect());
    }
    let mut hs = BTreeSet::new();
    for (_, k, _) in param_kinds(cr, f)? {
        kind_heaps(cr, &k, &mut hs);
    }
    hs.remove("om");
    let s = toks(&f.sig);
    let ro = !(s.contains("ArrayViewMut1") || s.contains("& mut T") || s.contains("* mut") || s.contains("mut self") || s.contains("& 'a mut T") || s.contains("mut A"));
    Ok(hs.into_iter().map(|h| (h, !ro)).collect())
}

pub fn ret_kind(cr: &Crate, f: &FnDef) -> R<K> {
    let ov = cr.fn_kind(&f.path);
    if let Some(s) = ov["ret"].as_str() {
        return Ok(parse_kind(s));
    }
    match &f.sig.output {
        syn::ReturnType::Default => Ok(K::Unit),
        syn::ReturnType::Type(_, t) => ty_kind(cr, f, t, &BTreeSet::new(), ov),
    }
}

pub fn translate_const(cr: &Crate, path: &str, e: &Expr) -> R<String> {
    let ty = toks(&cr.const_ty[path]);
    if ty != "usize" && ty != "u32" && ty != "u8" {
        return err("const type");
    }
    Ok(format!("pub const {}: {} = {};", mangle(path), ty, toks(e)))
}

fn is_closure_returning(f: &FnDef) -> Option<(syn::ExprClosure, syn::TypeImplTrait)> {
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        if let syn::Type::ImplTrait(it) = &**t {
            let last = f.block.stmts.iter().filter(|s| !matches!(s, Stmt::Item(_))).collect::<Vec<_>>();
            if last.len() == 1 {
                if let Stmt::Expr(Expr::Closure(c), None) = last[0] {
                    return Some((c.clone(), it.clone()));
                }
            }
        }
    }
    None
}

pub fn translate_fn(cr: &Crate, path: &str) -> R<Vec<Item>> {
    let f = &cr.fns[path];
    if let Some((c, it)) = is_closure_returning(f) {
        return translate_closure_fn(cr, f, &c, &it);
    }
    translate_fn_with(cr, f, HashMap::new(), None)
}

/// A function returning a closure `|pats| body`: extracted as the function that applies it.
fn translate_closure_fn(cr: &Crate, f: &FnDef, c: &syn::ExprClosure, it: &syn::TypeImplTrait) -> R<Vec<Item>> {
    let mut cx = Cx::new(cr, f, f.path.clone());
    cx.unwinds = true;
    let mut inputs = None;
    let mut out = K::Unit;
    for b in &it.bounds {
        if let syn::TypeParamBound::Trait(t) = b {
            if let syn::PathArguments::Parenthesized(p) = &t.path.segments.last().unwrap().arguments {
                inputs = Some(p.inputs.clone());
                if let syn::ReturnType::Type(_, t) = &p.output {
                    out = ty_kind(cr, f, t, &BTreeSet::new(), &Value::Null)?;
                }
            }
        }
    }
    let inputs = inputs.ok_or("closure type")?;
    let mut params: Vec<(String, K, bool)> = param_kinds(cr, f)?;
    cx.push();
    for (n, k, _) in &params {
        if let K::Cmp(_) = k {
            cx.cmps.push(n.clone());
        }
        cx.bind(n, k.clone());
    }
    for (p, t) in c.inputs.iter().zip(inputs.iter()) {
        bind_pat_ty(cr, f, p, t, &mut params, &mut cx)?;
    }
    cx.ret_k = out.clone();
    let mut body = vec![];
    cx.entry(&mut body);
    let e = &c.body;
    let (t, k) = cx.ex(e, &mut body)?;
    cx.finish(t, k, &mut body)?;
    cx.pop();
    let heaps = vec![];
    let item = cx.make_item(params, heaps, out, body)?;
    let mut v = cx.items;
    v.push(item);
    Ok(v)
}
fn bind_pat_ty(cr: &Crate, f: &FnDef, p: &Pat, t: &syn::Type, params: &mut Vec<(String, K, bool)>, cx: &mut Cx) -> R<()> {
    let t = if let syn::Type::Paren(pp) = t { &*pp.elem } else { t };
    match (p, t) {
        (Pat::Reference(pr), syn::Type::Reference(tr)) => bind_pat_ty(cr, f, &pr.pat, &tr.elem, params, cx),
        (Pat::Tuple(pt), syn::Type::Tuple(tt)) => {
            for (p, t) in pt.elems.iter().zip(tt.elems.iter()) {
                bind_pat_ty(cr, f, p, t, params, cx)?;
            }
            Ok(())
        }
        (Pat::Wild(_), _) => Ok(()),
        (Pat::Ident(i), t) => {
            let k = ty_kind(cr, f, t, &BTreeSet::new(), &Value::Null)?;
            cx.bind(&i.ident.to_string(), k.clone());
            params.push((i.ident.to_string(), k, i.mutability.is_some()));
            Ok(())
        }
        _ => err(format!("closure pattern {}", toks(p))),
    }
}

fn translate_fn_with(cr: &Crate, f: &FnDef, tygen: HashMap<String, String>, over: Option<(String, Vec<K>)>) -> R<Vec<Item>> {
    let path = over.as_ref().map(|o| o.0.clone()).unwrap_or(f.path.clone());
    let mut cx = Cx::new(cr, f, path);
    cx.tygen = tygen;
    cx.unwinds = f.unwinds;
    cx.ret_k = ret_kind(cr, f).map_err(|e| format!("{}: {e}", f.path))?;
    let mut params = param_kinds(cr, f)?;
    if let Some((_, ks)) = &over {
        for (p, k) in params.iter_mut().zip(ks) {
            p.1 = k.clone();
        }
    }
    cx.heaps = if over.is_some() { vec![] } else { heaps_of(cr, f)? };
    cx.push();
    let mut body = vec![];
    for (n, k, _) in &params {
        if let K::Cmp(_) = k {
            cx.cmps.push(n.clone());
        }
        cx.bind(n, k.clone());
        if let K::MutRef(_) = k {
            let em = if let K::MutRef(b) = k { if matches!(**b, K::Struct(_)) { n.clone() } else { format!("(*{n})") } } else { n.clone() };
            cx.scopes.last_mut().unwrap().vars.get_mut(n).unwrap().em = em;
        }
    }
    cx.entry(&mut body);
    for (n, k, m) in &params {
        if *m && !matches!(k, K::Cmp(_) | K::MutRef(_) | K::Coll | K::AllocFn(..)) {
            body.push(format!("let ghost {n}_in = {n}; let mut {n} = {n};"));
        }
    }
    body.push("//@@ start".into());
    let (t, k) = cx.stmts(&f.block.stmts, &mut body)?;
    cx.finish(t, k, &mut body)?;
    let heaps = cx.heaps.clone();
    let ret = cx.ret_k.clone();
    let item = cx.make_item(params, heaps, ret, body)?;
    let mut v = cx.items;
    v.push(item);
    Ok(v)
}

impl<'a> Cx<'a> {
    fn new(cr: &'a Crate, f: &'a FnDef, path: String) -> Cx<'a> {
        Cx {
            cr,
            f,
            path,
            scopes: vec![],
            items: vec![],
            tmp: 0,
            loops: 0,
            ifs: 0,
            rets: 0,
            counts: HashMap::new(),
            unwinds: false,
            ret_k: K::Unit,
            heaps: vec![],
            local_heaps: vec![],
            loop_stack: vec![],
            macros: HashMap::new(),
            tygen: HashMap::new(),
            clos: vec![],
            cmps: vec![],
            calls: BTreeSet::new(),
            inline_ret: vec![],
        }
    }
    fn make_item(&mut self, params: Vec<(String, K, bool)>, heaps: Vec<(String, bool)>, ret: K, body: Vec<String>) -> R<Item> {
        let cr = self.cr;
        let mut ps: Vec<(String, String)> = vec![];
        let mut views = vec![];
        let mut mutrefs = vec![];
        let mut gen = vec![if self.f.self_ty.as_deref() == Some("ArrayBase") && elem_ord(&self.f.sig) { "T: Copy + KOrd".to_string() } else { "T: Copy".to_string() }];
        let mut nf = 0;
        for (h, m) in &heaps {
            ps.push((h.clone(), format!("{}{}", if *m { "&mut " } else { "&" }, heap_ty(h))));
        }
        for (n, k, _) in &params {
            match k {
                K::Cmp(tr) => {
                    nf += 1;
                    let g = if nf == 1 { "F".to_string() } else { format!("F{nf}") };
                    gen.push(format!("{g}: {tr}<T>"));
                    ps.push((n.clone(), format!("&mut {g}")));
                }
                K::Coll => {
                    gen.push("E: Coll".into());
                    ps.push((n.clone(), "&mut E".into()));
                }
                K::AllocFn(..) => {}
                K::View => {
                    views.push(n.clone());
                    ps.push((n.clone(), k.ty(cr)));
                }
                K::Struct(_) if n == "self_" => {
                    ps.push((n.clone(), format!("&{}", k.ty(cr))));
                }
                K::MutRef(_) => {
                    mutrefs.push(n.clone());
                    ps.push((n.clone(), k.ty(cr)));
                }
                _ => ps.push((n.clone(), k.ty(cr))),
            }
        }
        if !ps.iter().any(|(_, t)| t.contains('T') && (t.contains("<T>") || t == "T" || t == "&T")) && nf == 0 && !heaps.iter().any(|h| h.0 == "hp" || h.0 == "bp") {
            gen.remove(0);
        }
        let rt = ret.ty(cr);
        let rt = if self.unwinds { format!("Result<{rt}, Unwind>") } else { rt };
        Ok(Item {
            path: self.path.clone(),
            name: mangle(&self.path),
            generics: if gen.is_empty() { String::new() } else { format!("<{}>", gen.join(", ")) },
            params: ps,
            heaps,
            cmps: self.cmps.clone(),
            views,
            ret: rt,
            unwinds: self.unwinds,
            body,
            mutrefs,
            calls: self.calls.clone(),
            uses_esize: false,
            closure: None,
        })
    }
    fn entry(&mut self, body: &mut Vec<String>) {
        body.push("//@@ entry".into());
    }
    fn finish(&mut self, t: String, k: K, body: &mut Vec<String>) -> R<()> {
        if k == K::Never {
            return Ok(());
        }
        let t = self.coerce(t, k, &self.ret_k.clone(), body)?;
        let t = self.drop_all_save(t, 0, body)?;
        self.rets += 1;
        body.push("//@@ tail".into());
        body.push(if self.unwinds { format!("Ok({t})") } else { t });
        Ok(())
    }
    fn push(&mut self) {
        self.scopes.push(Scope::default());
    }
    fn pop(&mut self) {
        self.scopes.pop();
    }
    fn bind(&mut self, n: &str, k: K) {
        self.bind_as(n, k, n.to_string());
    }
    fn bind_as(&mut self, n: &str, k: K, em: String) {
        self.scopes.last_mut().unwrap().vars.insert(n.to_string(), Var { k, em });
    }
    fn lookup(&self, n: &str) -> Option<&Var> {
        self.scopes.iter().rev().find_map(|s| s.vars.get(n))
    }
    fn set_kind(&mut self, n: &str, k: K) {
        for s in self.scopes.iter_mut().rev() {
            if let Some(v) = s.vars.get_mut(n) {
                v.k = k;
                return;
            }
        }
    }
    fn fresh(&mut self) -> String {
        self.tmp += 1;
        format!("t__{}", self.tmp)
    }
    fn count(&mut self, n: &str) -> usize {
        let c = self.counts.entry(n.to_string()).or_insert(0);
        *c += 1;
        *c
    }
    fn hp_ref(&self, h: &str, mutable: bool) -> R<String> {
        if self.local_heaps.iter().any(|x| x == h) {
            return Ok(if mutable { format!("&mut {h}") } else { format!("&{h}") });
        }
        match self.heaps.iter().find(|x| x.0 == h) {
            Some((_, m)) => {
                if mutable && !m {
                    return err(format!("{}: {h} is read-only here", self.path));
                }
                Ok(if mutable || !*m { h.to_string() } else { format!("&*{h}") })
            }
            None => err(format!("{}: memory {h} not available", self.path)),
        }
    }
    fn need(&self, h: &str) -> R<()> {
        self.hp_ref(h, false).map(|_| ())
    }

    // ---- drops -------------------------------------------------------------------------------
    fn is_guard(&self, k: &K) -> bool {
        match k {
            K::Struct(s) => self.cr.structs.get(s).map(|s| s.has_drop).unwrap_or(false),
            K::Owned => true,
            _ => false,
        }
    }
    fn add_drop_flag(&mut self, var: &str, k: &K, out: &mut Vec<String>) {
        if self.is_guard(k) && self.flagged(var) {
            out.push(format!("let mut {var}__live = true;"));
        }
        self.add_drop(var, k);
    }
    fn add_drop(&mut self, var: &str, k: &K) {
        if self.is_guard(k) {
            self.scopes.last_mut().unwrap().drops.push(DropRec { var: var.into(), k: k.clone(), live: true, maybe: false });
        }
    }
    fn emit_drop(&self, d: &DropRec, body: &mut Vec<String>) -> R<()> {
        if d.maybe {
            body.push(format!("if {}__live {{", d.var));
        }
        match &d.k {
            K::Owned => body.push(format!("drop_element({});", d.var)),
            K::Struct(s) => {
                let p = format!("{s}::drop");
                let f = self.cr.fns.get(&p).ok_or(format!("no drop fn {p}"))?;
                let mut a = vec![];
                for (h, m) in heaps_of(self.cr, f)? {
                    a.push(self.hp_ref(&h, m)?);
                }
                a.push(format!("&{}", d.var));
                body.push(format!("{}({});", mangle(&p), a.join(", ")));
            }
            K::TVec => body.push(format!("bp.free_vec({});", d.var)),
            K::Adopted => body.push(format!("unadopt({}, {}, {});", self.hp_ref("hp", true)?, self.hp_ref("bp", true)?, d.var)),
            _ => {}
        }
        if d.maybe {
            body.push("}".into());
        }
        Ok(())
    }
    fn drops_from(&self, depth: usize, body: &mut Vec<String>) -> R<usize> {
        let mut n = 0;
        for s in self.scopes[depth..].iter().rev() {
            for d in s.drops.iter().rev() {
                if d.live {
                    self.emit_drop(d, body)?;
                    n += 1;
                }
            }
        }
        Ok(n)
    }
    fn any_drops(&self, depth: usize) -> bool {
        self.scopes[depth..].iter().any(|s| s.drops.iter().any(|d| d.live))
    }
    /// Emits the drops of every scope from `depth` on, saving a value that must survive them.
    fn drop_all_save(&mut self, t: String, depth: usize, body: &mut Vec<String>) -> R<String> {
        if !self.any_drops(depth) {
            return Ok(t);
        }
        let r = if t == "()" {
            t
        } else {
            let r = self.fresh();
            body.push(format!("let {r} = {t};"));
            r
        };
        body.push("//@@ predrop".into());
        self.drops_from(depth, body)?;
        Ok(r)
    }
    /// Wraps a call that can unwind.
    fn unwinding(&mut self, call: String, name: &str, n: usize, out: &mut Vec<String>) -> R<String> {
        if !self.unwinds {
            return err(format!("{}: unexpected unwinding call {name}", self.path));
        }
        let t = self.fresh();
        out.push(format!("let {t} = match {call} {{ Ok(x__) => x__, Err(e__) => {{"));
        out.push(format!("//@@ unwind {name} {n}"));
        self.drops_from(0, out)?;
        out.push("//@@ unwound".into());
        out.push(format!("//@@ unwound {name} {n}"));
        out.push("return Err(e__); } };".into());
        Ok(t)
    }

    // ---- coercions ---------------------------------------------------------------------------
    fn coerce(&mut self, t: String, k: K, want: &K, _out: &mut Vec<String>) -> R<String> {
        Ok(match (&k, want) {
            (a, b) if a == b => t,
            (K::Never, _) => t,
            (K::Int(_), K::Int(_)) => t,
            (K::Ptr, K::Val) | (K::Place, K::Val) => {
                self.need("hp")?;
                format!("hp.get({t})")
            }
            (K::HPtr(h), K::Val) | (K::HPlace(h), K::Val) => {
                self.need(h)?;
                format!("{h}.read({t})")
            }
            (K::EPtr, K::Val) | (K::EPlace, K::Val) => format!("get_e({}, {}, {t})", self.hp_ref("hp", false)?, self.hp_ref("bp", false)?),
            (K::Place, K::Ptr) => t,
            (K::MD, K::Val) | (K::Owned, K::Val) => t,
            (K::Ptr, K::EPtr) => format!("EPtr::M({t})"),
            (K::HPtr(_), K::EPtr) => format!("EPtr::H({t})"),
            (K::Null, K::HPtr(_)) | (K::HPtr(_), K::Null) | (K::Buf(_), K::HPtr(_)) => t,
            (K::Opt(a), K::Opt(b)) => match (&**a, &**b) {
                (K::Other(x), _) if x == "?" => t,
                (x, y) if x == y => t,
                (K::Int(_), K::Int(_)) => t,
                _ => return err(format!("{}: cannot coerce {k:?} to {want:?}", self.path)),
            },
            (K::LVec(a), K::LSlice(b)) if a == b => format!("{t}.as_slice()"),
            (K::Tup(a), K::Tup(b)) if a.len() == b.len() => {
                if a.iter().zip(b).all(|(x, y)| x == y || matches!((x, y), (K::Int(_), K::Int(_)))) {
                    t
                } else {
                    return err(format!("{}: cannot coerce {k:?} to {want:?}", self.path));
                }
            }
            _ => return err(format!("{}: cannot coerce {k:?} to {want:?} ({t})", self.path)),
        })
    }
    /// Turns places into values.
    fn value(&mut self, t: String, k: K) -> R<(String, K)> {
        Ok(match k {
            K::Place => (format!("hp.get({t})"), K::Val),
            K::EPlace => (format!("get_e({}, {}, {t})", self.hp_ref("hp", false)?, self.hp_ref("bp", false)?), K::Val),
            K::HPlace(h) => {
                let k = match h.as_str() {
                    "om" => K::Int("u8".into()),
                    "rp" => K::Struct(self.run_struct()),
                    _ => K::Val,
                };
                self.need(&h)?;
                (format!("{h}.read({t})"), k)
            }
            k => (t, k),
        })
    }
    fn run_struct(&self) -> String {
        run_struct(self.cr)
    }

    // ---- statements --------------------------------------------------------------------------
    fn stmts(&mut self, ss: &[Stmt], out: &mut Vec<String>) -> R<(String, K)> {
        let n = ss.len();
        let mut never = false;
        for (i, s) in ss.iter().enumerate() {
            match s {
                Stmt::Item(syn::Item::Const(c)) => {
                    let (t, k) = self.ex(&c.expr, out)?;
                    let ty = toks(&c.ty);
                    out.push(format!("let {}: {} = {};", c.ident, ty, t));
                    self.bind(&c.ident.to_string(), K::Int(ty));
                    let _ = k;
                }
                Stmt::Item(syn::Item::Macro(m)) => {
                    if m.mac.path.is_ident("macro_rules") {
                        self.def_macro(m)?;
                    }
                }
                Stmt::Item(_) => {}
                Stmt::Local(l) => {
                    if !crate::collect::cfg_on(&l.attrs) {
                        continue;
                    }
                    if self.local(l, out)? {
                        never = true;
                    }
                }
                Stmt::Expr(e, semi) => {
                    if let Some(at) = expr_attrs(e) {
                        if !crate::collect::cfg_on(at) {
                            continue;
                        }
                    }
                    let last = i + 1 == n || ss[i + 1..].iter().all(|s| matches!(s, Stmt::Item(_)));
                    if last && semi.is_none() {
                        let (t, k) = self.ex(e, out)?;
                        return Ok((t, k));
                    }
                    let (t, k) = self.ex_stmt(e, out)?;
                    if k == K::Never {
                        never = true;
                    } else if k != K::Unit && !t.starts_with("t__") && t != "()" {
                        out.push(format!("let _ = {t};"));
                    }
                }
                Stmt::Macro(m) => {
                    if !crate::collect::cfg_on(&m.attrs) {
                        continue;
                    }
                    let (t, k) = self.mac(&m.mac, out)?;
                    if k == K::Never {
                        never = true;
                    }
                    let last = i + 1 == n;
                    if last && m.semi_token.is_none() {
                        return Ok((t, k));
                    }
                }
            }
        }
        Ok(("()".into(), if never { K::Never } else { K::Unit }))
    }
    fn def_macro(&mut self, m: &syn::ItemMacro) -> R<()> {
        // macro_rules! name { () => { body }; }
        let name = m.ident.as_ref().unwrap().to_string();
        let tt: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
        if tt.len() == 4 || (tt.len() == 5 && tt[4].to_string() == ";") {
            if let (proc_macro2::TokenTree::Group(g0), proc_macro2::TokenTree::Group(g1)) = (&tt[0], &tt[3]) {
                // parameters `$name:kind` separated by commas
                let ps: Vec<String> = g0.stream().into_iter().map(|t| t.to_string()).collect();
                let mut v = vec![];
                for p in ps.split(|t| t == ",") {
                    match p {
                        [] => {}
                        [d, n, c, k] if d == "$" && c == ":" => v.push((n.clone(), k.clone())),
                        _ => return err(format!("{}: macro {name}", self.path)),
                    }
                }
                self.macros.insert(name, (v, g1.stream()));
                return Ok(());
            }
        }
        err(format!("{}: macro {name}", self.path))
    }
    /// Returns whether control cannot continue.
    fn local(&mut self, l: &syn::Local, out: &mut Vec<String>) -> R<bool> {
        let (pat, ty) = match &l.pat {
            Pat::Type(pt) => (&*pt.pat, Some(&*pt.ty)),
            p => (p, None),
        };
        let init = match &l.init {
            None => {
                if let Pat::Ident(i) = pat {
                    let n = i.ident.to_string();
                    out.push(format!("let mut {n};"));
                    self.bind(&n, K::Other("uninit".into()));
                    return Ok(false);
                }
                return err("let without initialiser");
            }
            Some(i) => i,
        };
        if init.diverge.is_some() {
            return err("let-else");
        }
        // closures are lambda-lifted
        if let (Pat::Ident(i), Expr::Closure(c)) = (pat, &*init.expr) {
            let n = i.ident.to_string();
            if let Some((h, d)) = self.alloc_closure(c)? {
                self.bind(&n, K::AllocFn(h, d));
                return Ok(false);
            }
            let id = self.lift(&n, c)?;
            self.bind(&n, K::Clos(id));
            return Ok(false);
        }
        // `let x = &mut place` where place is an integer or field: alias
        if let (Pat::Ident(i), Expr::Reference(r)) = (pat, &*init.expr) {
            if r.mutability.is_some() {
                if let Expr::Field(fe) = &*r.expr {
                    let (t, k) = self.ex(&Expr::Field(fe.clone()), out)?;
                    if matches!(k, K::Int(_)) {
                        self.bind_as(&i.ident.to_string(), K::MutRef(Box::new(k)), t);
                        return Ok(false);
                    }
                }
            }
        }
        let (t, k) = self.ex(&init.expr, out)?;
        if k == K::Never {
            return Ok(true);
        }
        self.bind_pat(pat, t, k, ty, out)?;
        Ok(false)
    }
    fn bind_pat(&mut self, pat: &Pat, t: String, k: K, ty: Option<&syn::Type>, out: &mut Vec<String>) -> R<()> {
        let (t, k) = self.value(t, k)?;
        match pat {
            Pat::Wild(_) => {
                // `let _ = place` does not move; a guard value would be dropped at once
                if self.is_guard(&k) {
                    return err("guard bound to _");
                }
                Ok(())
            }
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                let m = if i.mutability.is_some() || true { "mut " } else { "" };
                let tyann = match ty {
                    Some(syn::Type::Path(p)) if matches!(k, K::Int(_)) => format!(": {}", toks(p)),
                    _ => match &k {
                        K::Opt(_) => format!(": {}", k.ty(self.cr)),
                        K::Int(i) if i == "_" => ": usize".into(),
                        _ => String::new(),
                    },
                };
                let k = match (ty, k) {
                    (Some(syn::Type::Path(p)), K::Int(_)) => K::Int(toks(p)),
                    (_, k) => k,
                };
                if let K::Cmp(_) = &k {
                    self.bind_as(&n, k, t);
                    return Ok(());
                }
                if let K::MutRef(_) = &k {
                    self.bind_as(&n, k, t);
                    return Ok(());
                }
                out.push(format!("let {m}{n}{tyann} = {t};"));
                // a same-scope shadowed guard stays alive: keep its emitted name distinct
                if self.scopes.iter().any(|s| s.drops.iter().any(|d| d.live && d.var == n)) {
                    return err(format!("{}: shadowed guard {n}", self.path));
                }
                self.bind(&n, k.clone());
                self.add_drop_flag(&n, &k, out);
                let c = self.count(&format!("let {n}"));
                out.push(format!("//@@ let {n} {c}"));
                Ok(())
            }
            Pat::Tuple(pt) => match k {
                K::Tup(ks) if ks.len() == pt.elems.len() => self.bind_seq(pt.elems.iter().collect(), t, ks, out),
                k => err(format!("tuple pattern on {k:?}")),
            },
            Pat::Slice(ps) => match k {
                K::Tup(ks) if ks.len() == ps.elems.len() => self.bind_seq(ps.elems.iter().collect(), t, ks, out),
                k => err(format!("array pattern on {k:?}")),
            },
            Pat::Reference(r) => self.bind_pat(&r.pat, t, k, ty, out),
            Pat::Paren(p) => self.bind_pat(&p.pat, t, k, ty, out),
            p => err(format!("pattern {}", toks(p))),
        }
    }
    fn bind_seq(&mut self, ps: Vec<&Pat>, t: String, ks: Vec<K>, out: &mut Vec<String>) -> R<()> {
        let tmp = self.fresh();
        out.push(format!("let {tmp} = {t};"));
        for (i, (p, k)) in ps.into_iter().zip(ks).enumerate() {
            self.bind_pat(p, format!("{tmp}.{i}"), k, None, out)?;
        }
        Ok(())
    }

    fn block(&mut self, b: &syn::Block, out: &mut Vec<String>) -> R<(String, K)> {
        self.block_pre(b, &[], out)
    }
    /// Translates a block into `out` (without braces); drops of its scope are emitted at the end.
    fn block_pre(&mut self, b: &syn::Block, binds: &[(String, K, String)], out: &mut Vec<String>) -> R<(String, K)> {
        self.push();
        let d = self.scopes.len() - 1;
        for (n, k, em) in binds {
            self.bind_as(n, k.clone(), em.clone());
        }
        let (t, k) = self.stmts(&b.stmts, out)?;
        let r = if k == K::Never {
            (t, k)
        } else {
            let (t, k) = self.value_keep(t, k)?;
            (self.drop_all_save(t, d, out)?, k)
        };
        self.pop();
        Ok(r)
    }
    fn value_keep(&mut self, t: String, k: K) -> R<(String, K)> {
        Ok((t, k))
    }
    fn ex_stmt(&mut self, e: &Expr, out: &mut Vec<String>) -> R<(String, K)> {
        match e {
            Expr::Unsafe(u) => self.nested(&u.block, out),
            Expr::Block(b) => self.nested(&b.block, out),
            _ => self.ex(e, out),
        }
    }
    fn nested(&mut self, b: &syn::Block, out: &mut Vec<String>) -> R<(String, K)> {
        let mut o = vec![];
        let (t, k) = self.block(b, &mut o)?;
        if k == K::Unit || k == K::Never {
            out.push("; {".into());
            out.extend(o);
            out.push("}".into());
            return Ok(("()".into(), k));
        }
        let r = self.fresh();
        out.push(format!("let {r} = {{"));
        out.extend(o);
        out.push(format!("{t} }};"));
        Ok((r, k))
    }

    fn path_name(p: &syn::Path) -> String {
        p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
    }

    // ---- expressions -------------------------------------------------------------------------
    pub fn ex(&mut self, e: &Expr, out: &mut Vec<String>) -> R<(String, K)> {
        match e {
            Expr::Paren(p) => {
                let (t, k) = self.ex(&p.expr, out)?;
                Ok((if t.chars().all(|c| c.is_alphanumeric() || c == '_') { t } else { format!("({t})") }, k))
            }
            Expr::Group(g) => self.ex(&g.expr, out),
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => Ok((i.to_string(), K::Int(if i.suffix().is_empty() { "_".into() } else { i.suffix().into() }))),
                syn::Lit::Bool(b) => Ok((b.value.to_string(), K::Bool)),
                l => err(format!("literal {}", toks(l))),
            },
            Expr::Path(p) if elem_op(&p.path).is_some() => {
                let (tr, m) = elem_op(&p.path).unwrap();
                let t = self.fresh();
                out.push(format!("let mut {t} = {m}::new();"));
                Ok((format!("&mut {t}"), K::Cmp(tr)))
            }
            Expr::Path(p) => self.path(&p.path),
            Expr::Unary(u) => self.unary(u, out),
            Expr::Binary(b) => self.binary(b, out),
            Expr::Cast(c) => self.cast(c, out),
            Expr::Reference(r) => self.reference(r, out),
            Expr::Field(f) => self.field(f, out),
            Expr::Index(i) => self.index(i, out),
            Expr::Assign(a) => self.assign(&a.left, &a.right, out),
            Expr::Tuple(t) => {
                let mut v = vec![];
                let mut ks = vec![];
                for e in &t.elems {
                    let (t, k) = self.ex(e, out)?;
                    let (t, k) = self.value(t, k)?;
                    v.push(t);
                    ks.push(k);
                }
                if v.is_empty() {
                    return Ok(("()".into(), K::Unit));
                }
                Ok((format!("({})", v.join(", ")), K::Tup(ks)))
            }
            Expr::Array(t) => {
                let mut v = vec![];
                let mut ks = vec![];
                for e in &t.elems {
                    let (t, k) = self.ex(e, out)?;
                    let (t, k) = self.value(t, k)?;
                    v.push(t);
                    ks.push(k);
                }
                Ok((if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }, K::Tup(ks)))
            }
            Expr::Repeat(r) => {
                // [MaybeUninit::<u8>::uninit(); N]
                let s = toks(&r.expr).replace(' ', "");
                if s == "MaybeUninit::<u8>::uninit()" {
                    let (n, _) = self.ex(&r.len, out)?;
                    if !self.local_heaps.iter().any(|h| h == "om") {
                        self.local_heaps.push("om".into());
                        out.push("let mut om: Heap<u8> = Heap::new();".into());
                    }
                    let t = self.fresh();
                    out.push(format!("let {t} = om.alloc({n});"));
                    return Ok((t, K::Buf("om".into())));
                }
                err(format!("array {}", toks(r)))
            }
            Expr::Block(b) => self.nested(&b.block, out),
            Expr::Unsafe(u) => self.nested(&u.block, out),
            Expr::If(i) => self.if_(i, out),
            Expr::Match(m) => self.match_(m, out),
            Expr::While(w) => self.while_(w, out),
            Expr::Loop(l) => self.loop_(l, out),
            Expr::ForLoop(f) => self.for_(f, out),
            Expr::Return(r) => {
                let (t, k) = match &r.expr {
                    Some(e) => self.ex(e, out)?,
                    None => ("()".into(), K::Unit),
                };
                if k == K::Never {
                    return Ok((t, k));
                }
                let t = self.coerce(t, k, &self.ret_k.clone(), out)?;
                let t = self.drop_all_save(t, 0, out)?;
                self.rets += 1;
                out.push(format!("//@@ return {}", self.rets));
                out.push(if self.unwinds { format!("return Ok({t});") } else { format!("return {t};") });
                Ok(("()".into(), K::Never))
            }
            Expr::Break(b) => {
                if b.expr.is_some() {
                    return err("break with value");
                }
                let li = self.find_loop(&b.label)?;
                self.drops_from(li.depth, out)?;
                if li.n != self.loop_stack.last().unwrap().n {
                    return err("labelled break");
                }
                out.push(format!("//@@ loop {} break", li.n));
                out.push("break;".into());
                Ok(("()".into(), K::Never))
            }
            Expr::Continue(c) => {
                let li = self.find_loop(&c.label)?;
                self.drops_from(li.depth, out)?;
                if li.n != self.loop_stack.last().unwrap().n {
                    return err("labelled continue");
                }
                out.push(format!("//@@ loop {} end", li.n));
                if let Some(s) = &li.cont {
                    out.push(s.clone());
                }
                out.push("continue;".into());
                Ok(("()".into(), K::Never))
            }
            Expr::Call(c) => self.call(c, out),
            Expr::MethodCall(m) => self.method(m, out),
            Expr::Macro(m) => self.mac(&m.mac, out),
            Expr::Struct(s) => self.struct_(s, out),
            e => err(format!("{}: expression {}", self.path, toks(e))),
        }
    }
    fn find_loop(&self, l: &Option<syn::Lifetime>) -> R<LoopInfo> {
        match l {
            None => self.loop_stack.last().cloned().ok_or("break outside loop".into()),
            Some(l) => self.loop_stack.iter().rev().find(|x| x.label.as_deref() == Some(&l.ident.to_string())).cloned().ok_or("label".into()),
        }
    }
    fn path(&mut self, p: &syn::Path) -> R<(String, K)> {
        let n = Self::path_name(p);
        let n0 = if n == "self" { "self_".to_string() } else { n.clone() };
        if let Some(v) = self.lookup(&n0) {
            return Ok((v.em.clone(), v.k.clone()));
        }
        match n.as_str() {
            "None" => return Ok(("None".into(), K::Opt(Box::new(K::Other("?".into()))))),
            "Less" | "Ordering::Less" | "cmp::Ordering::Less" | "core::cmp::Ordering::Less" | "std::cmp::Ordering::Less" => return Ok(("Ord3::Less".into(), K::Ord)),
            "Equal" | "Ordering::Equal" | "cmp::Ordering::Equal" | "core::cmp::Ordering::Equal" | "std::cmp::Ordering::Equal" => return Ok(("Ord3::Equal".into(), K::Ord)),
            "Greater" | "Ordering::Greater" | "cmp::Ordering::Greater" | "core::cmp::Ordering::Greater" | "std::cmp::Ordering::Greater" => return Ok(("Ord3::Greater".into(), K::Ord)),
            "usize::BITS" => return Ok(("64u32".into(), K::Int("u32".into()))),
            "usize::MAX" | "isize::MAX" | "u8::MAX" | "u16::MAX" | "u32::MAX" => return Ok((n.clone(), K::Int(n.split("::").next().unwrap().into()))),
            _ => {}
        }
        if let Some(p) = self.cr.resolve(self.f, &n) {
            if self.cr.consts.contains_key(&p) {
                let ty = toks(&self.cr.const_ty[&p]);
                return Ok((mangle(&p), K::Int(ty)));
            }
        }
        err(format!("{}: unknown name {n}", self.path))
    }
    fn unary(&mut self, u: &syn::ExprUnary, out: &mut Vec<String>) -> R<(String, K)> {
        let (t, k) = self.ex(&u.expr, out)?;
        match u.op {
            syn::UnOp::Not(_) => {
                let (t, k) = self.value(t, k)?;
                if k != K::Bool {
                    return err("! on non-bool");
                }
                Ok((format!("!{}", paren(&t)), K::Bool))
            }
            syn::UnOp::Deref(_) => Ok(match k {
                K::Ptr => (t, K::Place),
                K::EPtr => (t, K::EPlace),
                K::HPtr(h) => (t, K::HPlace(h)),
                K::Val | K::MD => (t, K::Val),
                K::KVal => (t, K::KVal),
                K::MutRef(k) => (t, *k),
                K::Int(i) => (t, K::Int(i)),
                K::View => (t, K::View),
                K::Slice(h) => (t, K::Slice(h)),
                K::Struct(s) => (t, K::Struct(s)),
                K::Cmp(c) => (t, K::Cmp(c)),
                k => return err(format!("{}: deref of {k:?}", self.path)),
            }),
            syn::UnOp::Neg(_) => err("negation"),
            _ => err("unary"),
        }
    }
    fn reference(&mut self, r: &syn::ExprReference, out: &mut Vec<String>) -> R<(String, K)> {
        let (t, k) = self.ex(&r.expr, out)?;
        Ok(match k {
            K::Place => (t, K::Ptr),
            K::HPlace(h) => (t, K::HPtr(h)),
            K::EPlace => (t, K::EPtr),
            K::Owned | K::Val => (t, K::Val),
            K::Int(i) if r.mutability.is_some() => {
                // reference to an integer local (or to a temporary)
                let is_place = t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') && !t.chars().next().unwrap_or('0').is_ascii_digit();
                if t.starts_with("(*") {
                    // reborrow of a captured/mutable reference
                    (t.clone(), K::MutRef(Box::new(K::Int(i))))
                } else if is_place {
                    (t, K::MutRef(Box::new(K::Int(i))))
                } else {
                    let tmp = self.fresh();
                    out.push(format!("let mut {tmp} = {t};"));
                    (tmp, K::MutRef(Box::new(K::Int(i))))
                }
            }
            k => (t, k),
        })
    }
    fn binary(&mut self, b: &syn::ExprBinary, out: &mut Vec<String>) -> R<(String, K)> {
        use syn::BinOp::*;
        let op = toks(&b.op);
        match b.op {
            And(_) | Or(_) => {
                let (a, ka) = self.ex(&b.left, out)?;
                if ka != K::Bool {
                    return err("&& on non-bool");
                }
                let mut o = vec![];
                let (c, kc) = self.ex(&b.right, &mut o)?;
                if kc != K::Bool {
                    return err("&& on non-bool");
                }
                if o.is_empty() {
                    return Ok((format!("({} {op} {})", a, c), K::Bool));
                }
                let t = self.fresh();
                if matches!(b.op, And(_)) {
                    out.push(format!("let {t} = if {a} {{"));
                    out.extend(o);
                    out.push(format!("{c} }} else {{ false }};"));
                } else {
                    out.push(format!("let {t} = if {a} {{ true }} else {{"));
                    out.extend(o);
                    out.push(format!("{c} }};"));
                }
                Ok((t, K::Bool))
            }
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_) => {
                let (r, kr) = self.ex(&b.right, out)?;
                let (r, _) = self.value(r, kr)?;
                let (l, kl) = self.ex(&b.left, out)?;
                let l2 = match kl {
                    K::Int(_) => l,
                    K::MutRef(_) => l,
                    k => return err(format!("{}: {} on {k:?}", self.path, toks(b))),
                };
                let o = op.trim_end_matches('=');
                out.push(format!("{l2} = {l2} {o} {};", paren(&r)));
                let c = self.count(&format!("assign {l2}"));
                out.push(format!("//@@ assign {l2} {c}"));
                Ok(("()".into(), K::Unit))
            }
            _ => {
                let (l, kl) = self.ex(&b.left, out)?;
                let (mut l, kl) = self.value(l, kl)?;
                let mut o = vec![];
                let (r, kr) = self.ex(&b.right, &mut o)?;
                let (r, kr) = self.value(r, kr)?;
                if o.iter().any(|s| !s.starts_with("//@@")) {
                    // the left operand is evaluated before the calls hoisted out of the right one
                    if !l.chars().next().unwrap().is_ascii_digit() {
                        let t = self.fresh();
                        out.push(format!("let {t} = {l};"));
                        l = t;
                    }
                }
                out.extend(o);
                let hk = |k: &K| matches!(k, K::HPtr(_) | K::Null);
                let cmpop = matches!(b.op, Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_));
                if hk(&kl) && hk(&kr) {
                    return Ok((
                        match b.op {
                            Eq(_) => format!("hptr_eq({l}, {r})"),
                            Ne(_) => format!("!hptr_eq({l}, {r})"),
                            Lt(_) => format!("hptr_lt({l}, {r})"),
                            Gt(_) => format!("hptr_lt({r}, {l})"),
                            Le(_) => format!("!hptr_lt({r}, {l})"),
                            Ge(_) => format!("!hptr_lt({l}, {r})"),
                            _ => return err("pointer arithmetic"),
                        },
                        K::Bool,
                    ));
                }
                if kl == K::Ord && kr == K::Ord {
                    return Ok((
                        match b.op {
                            Eq(_) => format!("ord_eq({l}, {r})"),
                            Ne(_) => format!("!ord_eq({l}, {r})"),
                            _ => return err("ordering comparison"),
                        },
                        K::Bool,
                    ));
                }
                if kl == K::Bool && kr == K::Bool && cmpop {
                    return Ok((format!("({l} {op} {r})"), K::Bool));
                }
                if kl == K::Bool && kr == K::Bool {
                    // non-short-circuit & and |
                    let o = match b.op {
                        BitAnd(_) => "&&",
                        BitOr(_) => "||",
                        BitXor(_) => "!=",
                        _ => return err("bool op"),
                    };
                    let (x, y) = (self.fresh(), self.fresh());
                    out.push(format!("let {x} = {l}; let {y} = {r};"));
                    return Ok((format!("({x} {o} {y})"), K::Bool));
                }
                if cmpop && matches!(kl, K::Val | K::KVal | K::Ptr) && matches!(kr, K::Val | K::KVal | K::Ptr) {
                    let nm = match b.op { Eq(_) => "eq", Ne(_) => "ne", Lt(_) => "lt", Le(_) => "le", Gt(_) => "gt", _ => "ge" };
                    return self.ord_op(nm, (l, kl), (r, kr), out);
                }
                match (&kl, &kr) {
                    (K::Int(a), K::Int(c)) => {
                        let k = if cmpop { K::Bool } else { K::Int(if a == "_" { c.clone() } else { a.clone() }) };
                        if matches!(b.op, Sub(_)) && self.unwinds && self.cr.kinds["fns"][&self.path]["overflow"] == "panic" && !r.chars().all(|c| c.is_ascii_digit()) {
                            let n = self.count("sub");
                            let t = self.unwinding(format!("usize_sub_panics({l}, {r})"), "sub", n, out)?;
                            return Ok((t, k));
                        }
                        Ok((format!("({l} {op} {r})"), k))
                    }
                    _ => err(format!("{}: {} on {kl:?} and {kr:?}", self.path, toks(b))),
                }
            }
        }
    }
    fn cast(&mut self, c: &syn::ExprCast, out: &mut Vec<String>) -> R<(String, K)> {
        let (t, k) = self.ex(&c.expr, out)?;
        let (t, k) = if matches!(&*c.ty, syn::Type::Ptr(_)) { (t, k) } else { self.value(t, k)? };
        let ty = toks(&c.ty);
        match (&k, &*c.ty) {
            (K::Ptr | K::HPtr(_) | K::EPtr | K::Val | K::Null, syn::Type::Ptr(_)) => Ok((t, k)),
            (K::Bool, syn::Type::Path(_)) => Ok((format!("(if {t} {{ 1{ty} }} else {{ 0{ty} }})"), K::Int(ty))),
            (K::Int(_), syn::Type::Path(_)) if ty == "u32" && matches!(k, K::Int(ref s) if s=="usize" || s == "u64") => Ok((format!("({} as {ty})", paren(&t)), K::Int(ty))),
            (K::Int(_), syn::Type::Path(_)) => Ok((format!("({} as {ty})", paren(&t)), K::Int(ty))),
            (K::HPtr(h), syn::Type::Path(_)) if ty == "usize" && h == "om" => Ok((format!("{t}.addr()"), K::Int(ty))),
            _ => err(format!("{}: cast of {k:?} to {ty}", self.path)),
        }
    }
    fn struct_fields(&self, s: &str) -> R<BTreeMap<String, K>> {
        let o = self.cr.kinds["structs"][s].as_object().ok_or(format!("struct {s} not listed"))?;
        Ok(o.iter().filter_map(|(n, v)| v.as_str().map(|v| (n.clone(), parse_kind(v)))).collect())
    }
    fn field(&mut self, f: &syn::ExprField, out: &mut Vec<String>) -> R<(String, K)> {
        let (t, k) = self.ex(&f.base, out)?;
        let (t, k) = self.value(t, k)?;
        let k = if let K::MutRef(b) = k { *b } else { k };
        match (&k, &f.member) {
            (K::PElem(it, v), syn::Member::Unnamed(i)) if i.index == 1 => Ok((format!("{v}.get1({t})"), K::Int(it.clone()))),
            (K::PElem(_, v), syn::Member::Unnamed(i)) if i.index == 0 => Ok((format!("{v}.get0({t})"), K::KVal)),
            (K::Tup(ks), syn::Member::Unnamed(i)) => Ok((format!("{t}.{}", i.index), ks[i.index as usize].clone())),
            (K::Struct(s), syn::Member::Named(n)) => {
                let fs = self.struct_fields(s)?;
                let fk = fs.get(&n.to_string()).ok_or(format!("field {s}.{n}"))?;
                if let K::AllocFn(..) = fk {
                    return Ok(("()".into(), fk.clone()));
                }
                Ok((format!("{t}.{n}"), fk.clone()))
            }
            _ => err(format!("{}: field {} of {k:?}", self.path, toks(f))),
        }
    }
    fn index(&mut self, i: &syn::ExprIndex, out: &mut Vec<String>) -> R<(String, K)> {
        let (t, k) = self.ex(&i.expr, out)?;
        let k = if let K::MutRef(b) = k { *b } else { k };
        match k {
            K::View => {
                let (x, kx) = self.ex(&i.index, out)?;
                let (x, _) = self.value(x, kx)?;
                Ok((format!("{t}.idx({x})"), K::Place))
            }
            K::IView => {
                let (x, kx) = self.ex(&i.index, out)?;
                let (x, _) = self.value(x, kx)?;
                Ok((format!("{t}.idx({x})"), K::Int("usize".into())))
            }
            K::SView => {
                if let Expr::Range(r) = &*i.index {
                    let s = self.range_of(r, &t, out)?;
                    return Ok((s, K::SView));
                }
                let (x, kx) = self.ex(&i.index, out)?;
                let (x, _) = self.value(x, kx)?;
                Ok((format!("{t}.idx({x})"), K::SPlace))
            }
            K::LVec(e) => {
                let (x, kx) = self.ex(&i.index, out)?;
                let (x, _) = self.value(x, kx)?;
                Ok((format!("{t}.at({x})"), *e))
            }
            K::LSlice(e) => {
                let (x, kx) = self.ex(&i.index, out)?;
                let (x, _) = self.value(x, kx)?;
                Ok((format!("slice_at({t}, {x})"), *e))
            }
            K::PVec(it) => {
                let (x, kx) = self.ex(&i.index, out)?;
                let (x, _) = self.value(x, kx)?;
                Ok((x, K::PElem(it, t)))
            }
            K::Buf(h) => {
                let (x, _) = self.ex(&i.index, out)?;
                Ok((format!("{h}.cell({t}, {x})"), K::BufCell(h)))
            }
            K::Slice(h) => {
                let (x, _) = self.ex(&i.index, out)?;
                Ok((format!("{t}.idx({x})"), K::HPlace(h)))
            }
            K::Struct(s) => {
                // Index impl
                let (x, kx) = self.ex(&i.index, out)?;
                let (x, kx) = self.value(x, kx)?;
                let p = format!("{s}::index");
                self.call_crate(&p, vec![(t, K::Struct(s.clone())), (x, kx)], out).map(|(t, k)| match k {
                    K::HPtr(h) => (t, K::HPlace(h)),
                    k => (t, k),
                })
            }
            k => err(format!("{}: index of {k:?}: {}", self.path, toks(i))),
        }
    }
    fn assign(&mut self, l: &Expr, r: &Expr, out: &mut Vec<String>) -> R<(String, K)> {
        let (rt, rk) = self.ex(r, out)?;
        if rk == K::Never {
            return Ok((rt, rk));
        }
        // deferred initialisation / plain variable
        if let Expr::Path(p) = l {
            let n = Self::path_name(&p.path);
            let v = self.lookup(&n).cloned().ok_or(format!("assign to {n}"))?;
            if let K::Cmp(_) = v.k {
                return err("assign to comparator");
            }
            let (rt, rk) = self.value(rt, rk)?;
            match &v.k {
                K::Other(u) if u == "uninit" => {
                    out.push(format!("{} = {rt};", v.em));
                    self.set_kind(&n, rk.clone());
                    if self.is_guard(&rk) {
                        // declared in an outer scope: dropped there, live from here
                        for s in self.scopes.iter_mut().rev() {
                            if s.vars.contains_key(&n) {
                                if !s.drops.iter().any(|d| d.var == n) {
                                    s.drops.push(DropRec { var: n.clone(), k: rk.clone(), live: true, maybe: false });
                                } else {
                                    for d in s.drops.iter_mut() {
                                        if d.var == n {
                                            d.live = true;
                                        }
                                    }
                                }
                                break;
                            }
                        }
                    }
                }
                K::Null => {
                    out.push(format!("{} = {rt};", v.em));
                    self.set_kind(&n, rk);
                }
                K::MutRef(_) => return err(format!("{}: rebind of reference {n}", self.path)),
                k => {
                    if self.is_guard(k) {
                        return err("assignment to guard");
                    }
                    let rt = self.coerce(rt, rk, &k.clone(), out)?;
                    out.push(format!("{} = {rt};", v.em));
                }
            }
            let c = self.count(&format!("assign {n}"));
            out.push(format!("//@@ assign {n} {c}"));
            return Ok(("()".into(), K::Unit));
        }
        // IndexMut on a struct
        if let Expr::Index(ix) = l {
            let (t, k) = self.ex(&ix.expr, out)?;
            let k = if let K::MutRef(b) = k { *b } else { k };
            if let K::Struct(s) = &k {
                let (x, kx) = self.ex(&ix.index, out)?;
                let (x, kx) = self.value(x, kx)?;
                let p = format!("{s}::index_mut");
                let recv = if t == "self_" { t.clone() } else { t.clone() };
                let (pt, pk) = self.call_crate(&p, vec![(recv, K::MutRef(Box::new(k.clone()))), (x, kx)], out)?;
                if let K::HPtr(h) = pk {
                    let (rt, _) = self.value(rt, rk)?;
                    out.push(format!("{h}.write({pt}, {rt});"));
                    return Ok(("()".into(), K::Unit));
                }
            }
            if let K::IView = k {
                return err("assign into indices");
            }
            if let K::LVec(e) = k {
                let (x, kx) = self.ex(&ix.index, out)?;
                let (x, _) = self.value(x, kx)?;
                let (rt, rk) = self.value(rt, rk)?;
                let rt = self.coerce(rt, rk, &e, out)?;
                out.push(format!("{t}.set({x}, {rt});"));
                let c = self.count(&format!("assign {t}"));
                out.push(format!("//@@ assign {t} {c}"));
                return Ok(("()".into(), K::Unit));
            }
        }
        // the integer of a pair
        if let (Expr::Field(fe), true) = (l, matches!(l, Expr::Field(f) if matches!(&*f.base, Expr::Index(_)))) {
            let (x, k) = self.ex(&fe.base, out)?;
            if let K::PElem(it, v) = &k {
                if !matches!(&fe.member, syn::Member::Unnamed(i) if i.index == 1) {
                    return err("assign to key");
                }
                let (rt, rk) = self.value(rt, rk)?;
                let rt = self.coerce(rt, rk, &K::Int(it.clone()), out)?;
                out.push(format!("{v}.set1({x}, {rt});"));
                let c = self.count(&format!("assign {v}"));
                out.push(format!("//@@ assign {v} {c}"));
                return Ok(("()".into(), K::Unit));
            }
        }
        let (lt, lk) = self.ex(l, out)?;
        match lk {
            K::Int(_) | K::Bool | K::View | K::Ptr | K::HPtr(_) | K::Opt(_) | K::Struct(_) | K::Ord if !matches!(l, Expr::Unary(_)) => {
                let (rt, rk) = self.value(rt, rk)?;
                let rt = self.coerce(rt, rk, &lk, out)?;
                out.push(format!("{lt} = {rt};"));
                let c = self.count(&format!("assign {lt}"));
                out.push(format!("//@@ assign {lt} {c}"));
            }
            K::Int(_) => {
                let (rt, _) = self.value(rt, rk)?;
                out.push(format!("{lt} = {rt};"));
                let c = self.count(&format!("assign {lt}"));
                out.push(format!("//@@ assign {lt} {c}"));
            }
            K::HPlace(h) => {
                let (rt, _) = self.value(rt, rk)?;
                out.push(format!("{h}.write({lt}, {rt});"));
                let c = self.count("hwrite");
                out.push(format!("//@@ after hwrite {c}"));
            }
            K::Place => {
                // `*p = value` drops the old element: only meaningful for owned values
                let rt = self.coerce(rt, rk, &K::Val, out)?;
                out.push(format!("hp.assign({lt}, {rt});"));
            }
            k => return err(format!("{}: assignment to {k:?}", self.path)),
        }
        Ok(("()".into(), K::Unit))
    }

    // ---- control flow ------------------------------------------------------------------------
    fn join(&mut self, a: &K, b: &K) -> R<K> {
        if a == b {
            return Ok(a.clone());
        }
        Ok(match (a, b) {
            (K::Never, k) | (k, K::Never) => k.clone(),
            (K::Int(x), K::Int(y)) => K::Int(if x == "_" { y.clone() } else { x.clone() }),
            (K::Ptr, K::HPtr(_)) | (K::HPtr(_), K::Ptr) | (K::EPtr, K::Ptr) | (K::Ptr, K::EPtr) => K::EPtr,
            (K::Ptr, K::Val) | (K::Val, K::Ptr) => K::Val,
            (K::Place, K::Val) | (K::Val, K::Place) => K::Val,
            (K::Tup(x), K::Tup(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for (x, y) in x.iter().zip(y) {
                    match (x, y) {
                        (K::Int(_), K::Int(_)) => v.push(self.join(x, y)?),
                        _ if x == y => v.push(x.clone()),
                        _ => return err(format!("{}: branches of kind {a:?} and {b:?}", self.path)),
                    }
                }
                K::Tup(v)
            }
            (K::Opt(x), K::Opt(y)) => {
                if matches!(**x, K::Other(_)) {
                    K::Opt(y.clone())
                } else if matches!(**y, K::Other(_)) {
                    K::Opt(x.clone())
                } else {
                    return err(format!("{}: branches of kind {a:?} and {b:?}", self.path));
                }
            }
            _ => return err(format!("{}: branches of kind {a:?} and {b:?}", self.path)),
        })
    }
    fn if_(&mut self, i: &syn::ExprIf, out: &mut Vec<String>) -> R<(String, K)> {
        self.ifs += 1;
        let n = self.ifs;
        let mut binds: Vec<(String, K, String)> = vec![];
        let mut pre: Vec<String> = vec![];
        let cond = if let Expr::Let(l) = &*i.cond {
            let (t, k) = self.ex(&l.expr, out)?;
            let (p, bs) = self.opt_pat(&l.pat, &k)?;
            binds = bs;
            format!("let {p} = {t}")
        } else {
            let (t, k) = self.ex(&i.cond, out)?;
            if k != K::Bool {
                return err("if on non-bool");
            }
            t
        };
        // constant conditions: drop the dead branch (usize::BITS <= 32)
        let base_kinds: Vec<Scope> = self.scopes.clone();
        let mut o1 = vec![];
        pre.push(format!("//@@ then {n}"));
        let (t1, k1) = self.block_pre(&i.then_branch, &binds, &mut o1)?;
        let after1 = self.scopes.clone();
        let mut o2 = vec![];
        // drop liveness must agree across branches
        self.scopes = base_kinds.clone();
        let (t2, k2) = match &i.else_branch {
            None => ("()".to_string(), K::Unit),
            Some((_, e)) => match &**e {
                Expr::Block(b) => self.block_pre(&b.block, &[], &mut o2)?,
                e => self.ex(e, &mut o2)?,
            },
        };
        let after2 = self.scopes.clone();
        self.scopes = self.merge_scopes(after1, k1 == K::Never, after2, k2 == K::Never)?;
        let has_else = i.else_branch.is_some();
        let k = self.join(&k1, &k2)?;
        let unit = matches!(k, K::Unit | K::Never);
        let r = self.fresh();
        if unit {
            out.push(format!("if {cond} {{"));
        } else {
            out.push(format!("let {r} = if {cond} {{"));
        }
        out.extend(pre);
        out.extend(o1);
        if !unit && k1 != K::Never {
            let c = self.coerce(t1, k1, &k, out)?;
            out.push(c);
        }
        if has_else {
            out.push("} else {".into());
            out.push(format!("//@@ else {n}"));
            out.extend(o2);
            if !unit && k2 != K::Never {
                let c = self.coerce(t2, k2, &k, out)?;
                out.push(c);
            }
        } else {
            out.push("} else {".into());
            out.push(format!("//@@ else {n}"));
        }
        out.push(if unit { "}".into() } else { "};".to_string() });
        out.push(format!("//@@ fi {n}"));
        Ok(if unit { ("()".into(), k) } else { (r, k) })
    }
    /// Whether the function forgets this guard somewhere (its liveness is then kept in a flag).
    fn flagged(&self, var: &str) -> bool {
        let t = toks(&self.f.block).replace(' ', "");
        t.contains(&format!("forget({var})"))
    }
    fn merge_scopes(&self, a: Vec<Scope>, an: bool, b: Vec<Scope>, bn: bool) -> R<Vec<Scope>> {
        if an {
            return Ok(b);
        }
        if bn {
            return Ok(a);
        }
        for (x, y) in a.iter().zip(&b) {
            let lx: Vec<(&String, bool)> = x.drops.iter().map(|d| (&d.var, d.live)).collect();
            let ly: Vec<(&String, bool)> = y.drops.iter().map(|d| (&d.var, d.live)).collect();
            if lx != ly && !(lx.len() == ly.len() && x.drops.iter().zip(&y.drops).all(|(d, e)| d.var == e.var && (d.live == e.live || self.flagged(&d.var)))) {
                return err(format!("{}: drop state differs between branches", self.path));
            }
        }
        let mut r = b;
        for (x, y) in a.iter().zip(r.iter_mut()) {
            for (d, e) in x.drops.iter().zip(y.drops.iter_mut()) {
                e.maybe = d.maybe || e.maybe || d.live != e.live;
                e.live = d.live || e.live;
            }
        }
        for (x, y) in a.into_iter().zip(r.iter_mut()) {
            for (n, v) in x.vars {
                if let Some(w) = y.vars.get_mut(&n) {
                    if w.k == K::Null {
                        w.k = v.k;
                    }
                }
            }
        }
        Ok(r)
    }
    fn opt_pat(&mut self, p: &Pat, k: &K) -> R<(String, Vec<(String, K, String)>)> {
        let k = if let K::MutRef(b) = k { &**b } else { k };
        match (p, k) {
            (Pat::TupleStruct(ts), K::Opt(inner)) if ts.path.is_ident("Some") => match &ts.elems[0] {
                Pat::Ident(i) => {
                    let n = i.ident.to_string();
                    Ok((format!("Some({n})"), vec![(n.clone(), (**inner).clone(), n)]))
                }
                Pat::Wild(_) => Ok(("Some(_)".into(), vec![])),
                p @ (Pat::Tuple(_) | Pat::Reference(_)) if matches!(**inner, K::Tup(_)) => {
                    let (s, b) = self.opt_pat(p, inner)?;
                    Ok((format!("Some({s})"), b))
                }
                p => err(format!("pattern {}", toks(p))),
            },
            (Pat::Reference(r), _) => self.opt_pat(&r.pat, k),
            (Pat::Ident(i), K::Opt(_)) if i.ident == "None" => Ok(("None".into(), vec![])),
            (Pat::Path(pp), K::Opt(_)) if pp.path.is_ident("None") => Ok(("None".into(), vec![])),
            (Pat::Wild(_), _) => Ok(("_".into(), vec![])),
            (Pat::Ident(i), K::Ord) => {
                let n = i.ident.to_string();
                if matches!(n.as_str(), "Less" | "Equal" | "Greater") {
                    Ok((format!("Ord3::{n}"), vec![]))
                } else {
                    Ok((n.clone(), vec![(n.clone(), K::Ord, n)]))
                }
            }
            (Pat::Path(pp), K::Ord) => Ok((format!("Ord3::{}", pp.path.segments.last().unwrap().ident), vec![])),
            (Pat::Or(o), _) => {
                let mut v = vec![];
                let mut bs: Option<Vec<(String, K, String)>> = None;
                for c in &o.cases {
                    let (s, b) = self.opt_pat(c, k)?;
                    v.push(s);
                    match &bs {
                        None => bs = Some(b),
                        Some(x) if *x == b => {}
                        Some(_) => return err(format!("{}: or-pattern binds differently", self.path)),
                    }
                }
                Ok((v.join(" | "), bs.unwrap_or_default()))
            }
            (Pat::Paren(q), _) => self.opt_pat(&q.pat, k),
            (Pat::TupleStruct(ts), K::Res(a, b)) if ts.path.is_ident("Ok") || ts.path.is_ident("Err") => {
                let ok = ts.path.is_ident("Ok");
                let inner = if ok { a } else { b };
                let name = if ok { "Ok" } else { "Err" };
                match &ts.elems[0] {
                    Pat::Ident(i) => {
                        let n = i.ident.to_string();
                        Ok((format!("{name}({n})"), vec![(n.clone(), (**inner).clone(), n)]))
                    }
                    Pat::Wild(_) => Ok((format!("{name}(_)"), vec![])),
                    p => err(format!("pattern {}", toks(p))),
                }
            }
            (Pat::Path(pp), K::Struct(_) | K::Other(_)) => Ok((toks(pp).replace(' ', ""), vec![])),
            (Pat::Lit(l), _) => Ok((toks(l), vec![])),
            (Pat::Tuple(t), K::Tup(ks)) => {
                let mut v = vec![];
                let mut bs = vec![];
                for (p, k) in t.elems.iter().zip(ks) {
                    let (s, b) = self.opt_pat(p, k)?;
                    v.push(s);
                    bs.extend(b);
                }
                Ok((format!("({})", v.join(", ")), bs))
            }
            (Pat::Ident(i), k) => {
                let n = i.ident.to_string();
                let m = if i.mutability.is_some() { "mut " } else { "" };
                Ok((format!("{m}{n}"), vec![(n.clone(), k.clone(), n)]))
            }
            (p, k) => err(format!("{}: pattern {} on {k:?}", self.path, toks(p))),
        }
    }
    fn match_(&mut self, m: &syn::ExprMatch, out: &mut Vec<String>) -> R<(String, K)> {
        let (t, k) = self.ex(&m.expr, out)?;
        let (t, k) = self.value(t, k)?;
        let base = self.scopes.clone();
        let mut merged: Option<(Vec<Scope>, bool)> = None;
        let mut arms = vec![];
        let mut rk = K::Never;
        let c = self.count("match");
        for (ai, a) in m.arms.iter().enumerate() {
            if a.guard.is_some() {
                return err("match guard");
            }
            self.scopes = base.clone();
            let (p, bs) = self.opt_pat(&a.pat, &k)?;
            let mut o = vec![format!("//@@ arm {c} {}", ai + 1)];
            self.push();
            for (n, k, em) in bs {
                self.bind_as(&n, k, em);
            }
            let d = self.scopes.len() - 1;
            let (at, ak) = self.ex_stmt(&a.body, &mut o)?;
            let at = if ak == K::Never { at } else { self.drop_all_save(at, d, &mut o)? };
            self.pop();
            let s = self.scopes.clone();
            merged = Some(match merged {
                None => (s, ak == K::Never),
                Some((ms, mn)) => {
                    let r = self.merge_scopes(ms, mn, s, ak == K::Never)?;
                    (r, mn && ak == K::Never)
                }
            });
            rk = self.join(&rk, &ak)?;
            arms.push((p, o, at, ak));
        }
        self.scopes = merged.map(|m| m.0).unwrap_or(base);
        let unit = matches!(rk, K::Unit | K::Never);
        let r = self.fresh();
        out.push(if unit { format!("match {t} {{") } else { format!("let {r} = match {t} {{") });
        for (p, o, at, ak) in arms {
            out.push(format!("{p} => {{"));
            out.extend(o);
            if !unit && ak != K::Never {
                let c = self.coerce(at, ak, &rk, out)?;
                out.push(c);
            }
            out.push("}".into());
        }
        out.push(if unit { "}".into() } else { "};".to_string() });
        Ok(if unit { ("()".into(), rk) } else { (r, rk) })
    }
    fn loop_begin(&mut self, label: Option<&syn::Label>, cont: Option<String>, out: &mut Vec<String>) -> usize {
        self.loops += 1;
        let n = self.loops;
        out.push(format!("//@@ loop {n} before"));
        self.loop_stack.push(LoopInfo { depth: self.scopes.len(), cont, label: label.map(|l| l.name.ident.to_string()), n });
        n
    }
    fn loop_body(&mut self, b: &syn::Block, n: usize, cont: Option<String>, pre: Vec<String>, out: &mut Vec<String>) -> R<()> {
        out.push("{".into());
        out.push(format!("//@@ loop {n} begin"));
        out.extend(pre);
        let before = self.scopes.clone();
        let (_, k) = self.block(b, out)?;
        for (x, y) in before.iter().zip(&self.scopes) {
            let lx: Vec<(&String, bool)> = x.drops.iter().map(|d| (&d.var, d.live)).collect();
            let ly: Vec<(&String, bool)> = y.drops.iter().map(|d| (&d.var, d.live)).collect();
            if lx != ly && k != K::Never {
                return err(format!("{}: drop state changes in loop", self.path));
            }
        }
        if k != K::Never {
            out.push(format!("//@@ loop {n} end"));
            if let Some(c) = cont {
                out.push(c);
            }
        }
        out.push("}".into());
        self.loop_stack.pop();
        Ok(())
    }
    fn loop_(&mut self, l: &syn::ExprLoop, out: &mut Vec<String>) -> R<(String, K)> {
        let n = self.loop_begin(l.label.as_ref(), None, out);
        out.push("loop".into());
        out.push(format!("//@@ loop {n} inv"));
        self.loop_body(&l.body, n, None, vec![], out)?;
        out.push(format!("//@@ loop {n} after"));
        let mut hb = HasBreak(false, 0);
        hb.visit_block(&l.body);
        Ok(("()".into(), if hb.0 { K::Unit } else { K::Never }))
    }
    fn while_(&mut self, w: &syn::ExprWhile, out: &mut Vec<String>) -> R<(String, K)> {
        let n = self.loop_begin(w.label.as_ref(), None, out);
        if let Expr::Let(l) = &*w.cond {
            // while let Some(x) = e { body }  =>  loop { match e { Some(x) => body, None => break } }
            out.push("loop".into());
            out.push(format!("//@@ loop {n} inv"));
            out.push("{".into());
            out.push(format!("//@@ loop {n} begin"));
            let (t, k) = self.ex(&l.expr, out)?;
            let (p, bs) = self.opt_pat(&l.pat, &k)?;
            out.push(format!("if let {p} = {t} {{"));
            out.push(format!("//@@ loop {n} body"));
            let (_, k) = self.block_pre(&w.body, &bs, out)?;
            if k != K::Never {
                out.push(format!("//@@ loop {n} end"));
            }
            out.push(format!("}} else {{\n//@@ loop {n} break\nbreak; }}"));
            out.push("}".into());
            self.loop_stack.pop();
            out.push(format!("//@@ loop {n} after"));
            return Ok(("()".into(), K::Unit));
        }
        let mut o = vec![];
        let (t, k) = self.ex(&w.cond, &mut o)?;
        if k != K::Bool {
            return err("while on non-bool");
        }
        if o.is_empty() {
            out.push(format!("while {t}"));
            out.push(format!("//@@ loop {n} inv"));
            self.loop_body(&w.body, n, None, vec![], out)?;
        } else {
            out.push("loop".into());
            out.push(format!("//@@ loop {n} inv"));
            o.push(format!("if !({t}) {{\n//@@ loop {n} break\nbreak; }}"));
            o.push(format!("//@@ loop {n} body"));
            self.loop_body(&w.body, n, None, o, out)?;
        }
        out.push(format!("//@@ loop {n} after"));
        Ok(("()".into(), K::Unit))
    }
    fn for_(&mut self, f: &syn::ExprForLoop, out: &mut Vec<String>) -> R<(String, K)> {
        let mut rev = false;
        let mut e = &*f.expr;
        if let Expr::MethodCall(m) = e {
            if m.method == "rev" && m.args.is_empty() {
                rev = true;
                e = &m.receiver;
            }
        }
        while let Expr::Paren(p) = e {
            e = &p.expr;
        }
        let r = match e {
            Expr::Range(r) => r,
            e => return err(format!("{}: for over {}", self.path, toks(e))),
        };
        let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
        let name = match &*f.pat {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Wild(_) => format!("it__{}", self.loops + 1),
            p => return err(format!("for pattern {}", toks(p))),
        };
        let (a, ka) = self.ex(r.start.as_ref().ok_or("range start")?, out)?;
        let (b, kb) = self.ex(r.end.as_ref().ok_or("range end")?, out)?;
        let (a, ka) = self.value(a, ka)?;
        let (b, kb) = self.value(b, kb)?;
        if incl {
            return err(format!("{}: inclusive range loop", self.path));
        }
        let ty = match (&ka, &kb) {
            (K::Int(x), K::Int(y)) => if x == "_" { y.clone() } else { x.clone() },
            _ => return err("range of non-integers"),
        };
        let tya = if ty == "_" { "usize".to_string() } else { ty.clone() };
        let tya = format!(": {tya}");
        out.push("; {".into());
        if !rev {
            out.push(format!("let {name}__start{tya} = {a}; let {name}__end{tya} = {b}; let mut {name}{tya} = {name}__start;"));
            let cont = format!("{name} = {name} + 1;");
            let n = self.loop_begin(f.label.as_ref(), Some(cont.clone()), out);
            out.push(format!("while {name} < {name}__end"));
            out.push(format!("//@@ loop {n} inv | {name}__start <= {name}, {name}__start <= {name}__end ==> {name} <= {name}__end | {name}__end - {name}"));
            self.push();
            self.bind(&name, K::Int(ty));
            // the binding scope does not own guards, so the recorded depth stays valid
            self.loop_stack.last_mut().unwrap().depth = self.scopes.len();
            self.loop_body(&f.body, n, Some(cont), vec![], out)?;
            self.pop();
            out.push(format!("//@@ loop {n} after"));
        } else {
            out.push(format!("let {name}__lo{tya} = {a}; let {name}__hi{tya} = {b}; let mut {name}{tya} = {name}__hi;"));
            let n = self.loop_begin(f.label.as_ref(), None, out);
            out.push(format!("while {name} > {name}__lo"));
            out.push(format!("//@@ loop {n} inv | {name} <= {name}__hi, {name}__lo <= {name}__hi ==> {name}__lo <= {name} | {name} - {name}__lo"));
            self.push();
            self.bind(&name, K::Int(ty));
            self.loop_stack.last_mut().unwrap().depth = self.scopes.len();
            self.loop_body(&f.body, n, None, vec![format!("{name} = {name} - 1;"), format!("//@@ loop {n} body")], out)?;
            self.pop();
            out.push(format!("//@@ loop {n} after"));
        }
        out.push("}".into());
        Ok(("()".into(), K::Unit))
    }

    // ---- macros ------------------------------------------------------------------------------
    fn mac(&mut self, m: &syn::Macro, out: &mut Vec<String>) -> R<(String, K)> {
        let n = Self::path_name(&m.path);
        match n.as_str() {
            "debug_assert" | "assert" => {
                let args: syn::punctuated::Punctuated<Expr, syn::Token![,]> =
                    m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
                let (t, _) = self.ex(&args[0], out)?;
                let c = self.count("assert");
                out.push(format!("//@@ before assert {c}"));
                out.push(format!("check_assert({t});"));
                Ok(("()".into(), K::Unit))
            }
            "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let args: syn::punctuated::Punctuated<Expr, syn::Token![,]> =
                    m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
                let (a, ka) = self.ex(&args[0], out)?;
                let (b, kb) = self.ex(&args[1], out)?;
                if !matches!((&ka, &kb), (K::Int(_), K::Int(_)) | (K::Bool, K::Bool)) {
                    return err("assert_eq on non-integers");
                }
                let op = if n.ends_with("ne") { "!=" } else { "==" };
                let c = self.count("assert");
                out.push(format!("//@@ before assert {c}"));
                out.push(format!("check_assert({a} {op} {b});"));
                Ok(("()".into(), K::Unit))
            }
            "vec" if m.tokens.is_empty() => Ok(("LVec::new()".into(), K::LVec(Box::new(K::Other("?".into()))))),
            "panic" | "unreachable" => {
                if n == "unreachable" || !self.unwinds {
                    out.push("check_assert(false);".into());
                }
                if !self.unwinds {
                    return err("panic in non-unwinding function");
                }
                let c = self.count("panic");
                out.push(format!("//@@ unwind panic {c}"));
                self.drops_from(0, out)?;
                out.push("//@@ unwound".into());
                out.push("return Err(Unwind);".into());
                Ok(("()".into(), K::Never))
            }
            n => {
                if let Some(ts) = self.macros.get(n).cloned() {
                    let (ps, body) = ts;
                    let tt: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                    let mut a: Vec<TokenStream> = tt.split(|t| t.to_string() == ",").map(|x| x.iter().cloned().collect()).collect();
                    if a.last().map(|x: &TokenStream| x.is_empty()).unwrap_or(false) {
                        a.pop();
                    }
                    if a.len() != ps.len() {
                        return err("macro arguments");
                    }
                    let map: HashMap<String, TokenStream> = ps.iter().zip(&a).map(|(p, a)| (p.0.clone(), a.clone())).collect();
                    let e: Expr = syn::parse2(subst_macro(body, &map)).map_err(|e| e.to_string())?;
                    let mut hl = HasLoop(false, false);
                    hl.visit_expr(&e);
                    if !hl.0 {
                        return self.ex(&e, out);
                    }
                    // an expansion with loops gets a contract of its own: it is lifted like a closure
                    if hl.1 {
                        return err(format!("{}: macro {n} leaves its expansion", self.path));
                    }
                    let mut name = n.to_string();
                    for (p, a) in ps.iter().zip(&a) {
                        if p.1 == "ty" {
                            name += &format!("__{}", mangle(&toks(a).replace(' ', "")));
                        }
                    }
                    let lifted = format!("{}::{}", self.path, name);
                    let c: syn::ExprClosure = syn::parse2(quote::quote!(|| #e)).map_err(|e| e.to_string())?;
                    let id = match self.clos.iter().position(|c| c.lifted == lifted) {
                        Some(i) => i,
                        None => self.lift(&name, &c)?,
                    };
                    let call: syn::ExprCall = syn::parse2(quote::quote!(lifted__())).unwrap();
                    return self.call_kind(K::Clos(id), String::new(), &call, out);
                }
                err(format!("{}: macro {n}", self.path))
            }
        }
    }
    fn struct_(&mut self, s: &syn::ExprStruct, out: &mut Vec<String>) -> R<(String, K)> {
        let n = Self::path_name(&s.path);
        let p = if n == "Self" { self.f.self_ty.clone().ok_or("Self")? } else { self.cr.resolve(self.f, &n).ok_or(format!("struct {n}"))? };
        let fs = self.struct_fields(&p)?;
        let mut v = vec![];
        for f in &s.fields {
            let name = match &f.member {
                syn::Member::Named(n) => n.to_string(),
                syn::Member::Unnamed(i) => i.index.to_string(),
            };
            let fk = match fs.get(&name) {
                Some(k) => k.clone(),
                None => {
                    if self.cr.kinds["structs"][&p][&name].is_null() && name != "marker" {
                        return err(format!("field {p}.{name} has no kind"));
                    }
                    continue;
                }
            };
            if matches!(fk, K::AllocFn(..)) {
                continue;
            }
            let (t, k) = self.ex(&f.expr, out)?;
            let t = self.coerce(t, k, &fk, out)?;
            v.push(format!("{name}: {t}"));
        }
        let m = mangle(&p);
        Ok((format!("{m} {{ {} }}", v.join(", ")), K::Struct(p)))
    }

    // ---- closures ----------------------------------------------------------------------------
    /// `|len| alloc(Layout::array::<X>(len).unwrap_unchecked()) as *mut X` and its dealloc twin.
    fn alloc_closure(&mut self, c: &syn::ExprClosure) -> R<Option<(String, bool)>> {
        let s = toks(&c.body).replace(' ', "");
        if !s.contains("alloc(") || !s.contains("Layout") {
            return Ok(None);
        }
        let ps: Vec<String> = c.inputs.iter().map(|p| match p { Pat::Type(t) => toks(&t.pat), p => toks(p) }).collect();
        for (ty, h) in [("T", "bp"), ("TimSortRun", "rp")] {
            if ps.len() == 1 {
                let want = format!("{{unsafe{{alloc(Layout::array::<{ty}>({}).unwrap_unchecked())as*mut{ty}}}}}", ps[0]);
                if s == want {
                    return Ok(Some((h.into(), false)));
                }
            } else if ps.len() == 2 {
                let core = format!("dealloc({}as*mutu8,Layout::array::<{ty}>({}).unwrap_unchecked(),)", ps[0], ps[1]);
                let core2 = core.replace(",)", ")");
                for c in [core, core2] {
                    if s == format!("{{unsafe{{{c};}}}}") || s == format!("{{unsafe{{{c}}}}}") {
                        return Ok(Some((h.into(), true)));
                    }
                }
            }
        }
        err(format!("{}: allocation closure {s}", self.path))
    }
    fn lift(&mut self, name: &str, c: &syn::ExprClosure) -> R<usize> {
        let path = format!("{}::{}", self.path, name);
        let mut params: Vec<(String, K, bool)> = vec![];
        let ov = self.cr.fn_kind(&path).clone();
        for p in &c.inputs {
            let (pp, ty) = match p {
                Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
                p => (p, None),
            };
            let (n, m) = match pp {
                Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                p => return err(format!("closure parameter {}", toks(p))),
            };
            let k = match ty {
                Some(t) => ty_kind(self.cr, self.f, t, &BTreeSet::new(), &Value::Null)?,
                None => K::Int("usize".into()),
            };
            params.push((n, k, m));
        }
        // captured variables
        let mut fv = Idents { ids: BTreeSet::new(), mutated: BTreeSet::new(), called: BTreeSet::new() };
        fv.visit_expr(&c.body);
        let mut caps: Vec<(String, K, bool)> = vec![];
        let mut unw = false;
        let mut add = |n: &str, k: K, m: bool, caps: &mut Vec<(String, K, bool)>| {
            if let Some(x) = caps.iter_mut().find(|x| x.0 == n) {
                x.2 |= m;
            } else {
                caps.push((n.to_string(), k, m));
            }
        };
        for id in &fv.ids {
            let id = &(if id == "self" { "self_".to_string() } else { id.clone() });
            if params.iter().any(|p| &p.0 == id) {
                continue;
            }
            let v = match self.lookup(id) {
                Some(v) => v.clone(),
                None => continue,
            };
            match &v.k {
                K::Clos(ci) => {
                    let cd = self.clos[*ci].clone();
                    unw |= cd.unwinds;
                    for (n, k, m) in cd.caps {
                        add(&n, k, m, &mut caps);
                    }
                }
                K::Cmp(_) => {
                    unw = true;
                    add(id, v.k.clone(), true, &mut caps);
                }
                k => add(id, k.clone(), fv.mutated.contains(id), &mut caps),
            }
        }
        for id in &fv.called {
            if let Some(p) = self.cr.resolve(self.f, id) {
                if let Some(f) = self.cr.fns.get(&p) {
                    unw |= f.unwinds;
                }
            }
        }
        caps.sort_by(|a, b| a.0.cmp(&b.0));
        let heaps: Vec<(String, bool)> = {
            let mut hs = BTreeSet::new();
            for (_, k, _) in caps.iter().chain(params.iter()) {
                kind_heaps(self.cr, k, &mut hs);
            }
            hs.into_iter()
                .map(|h| {
                    let m = self.heaps.iter().find(|x| x.0 == h).map(|x| x.1).unwrap_or(true);
                    (h, m)
                })
                .collect()
        };
        let heaps: Vec<(String, bool)> = if let Some(a) = ov["heaps"].as_array() {
            a.iter().map(|x| { let s = x.as_str().unwrap(); if let Some(r) = s.strip_prefix('&') { (r.to_string(), false) } else { (s.to_string(), true) } }).collect()
        } else {
            heaps
        };
        let mut cx = Cx::new(self.cr, self.f, path.clone());
        cx.clos = self.clos.clone();
        cx.macros = self.macros.clone();
        cx.unwinds = unw;
        cx.heaps = heaps.clone();
        cx.push();
        let mut body = vec![];
        let mut all: Vec<(String, K, bool)> = vec![];
        // closures callable from inside
        for s in &self.scopes {
            for (n, v) in &s.vars {
                if let K::Clos(_) = v.k {
                    cx.bind_as(n, v.k.clone(), v.em.clone());
                }
            }
        }
        for (n, k, m) in &caps {
            let inner = if let K::MutRef(b) = k { (**b).clone() } else { k.clone() };
            let pk = match &inner {
                K::Cmp(_) => {
                    cx.cmps.push(n.clone());
                    inner.clone()
                }
                K::Int(i) if *m => K::MutRef(Box::new(K::Int(if i == "_" { "usize".into() } else { i.clone() }))),
                K::Int(i) => K::Int(if i == "_" { "usize".into() } else { i.clone() }),
                _ => inner.clone(),
            };
            cx.bind(n, inner.clone());
            if let K::MutRef(_) = pk {
                cx.scopes.last_mut().unwrap().vars.get_mut(n).unwrap().em = format!("(*{n})");
            }
            all.push((n.clone(), pk, false));
        }
        for (n, k, _) in &params {
            cx.bind(n, k.clone());
            if let K::MutRef(_) = k {
                cx.scopes.last_mut().unwrap().vars.get_mut(n).unwrap().em = format!("(*{n})");
            }
            if let K::Cmp(_) = k {
                cx.cmps.push(n.clone());
            }
        }
        all.extend(params.iter().cloned());
        cx.entry(&mut body);
        for (n, k, m) in &params {
            if *m && !matches!(k, K::MutRef(_)) {
                body.push(format!("let ghost {n}_in = {n}; let mut {n} = {n};"));
            }
        }
        body.push("//@@ start".into());
        // closure result kind
        let ret = match &c.output {
            syn::ReturnType::Type(_, t) => ty_kind(self.cr, self.f, t, &BTreeSet::new(), &Value::Null)?,
            _ => match ov["ret"].as_str() {
                Some(s) => parse_kind(s),
                None => K::Other("infer".into()),
            },
        };
        cx.ret_k = ret.clone();
        let (t, k) = match &*c.body {
            Expr::Block(b) => cx.stmts(&b.block.stmts, &mut body)?,
            Expr::Unsafe(b) => cx.stmts(&b.block.stmts, &mut body)?,
            e => cx.ex(e, &mut body)?,
        };
        let (t, k) = cx.value(t, k)?;
        if let K::Other(_) = cx.ret_k {
            cx.ret_k = match &k {
                K::Int(i) if i == "_" => K::Int("usize".into()),
                K::Never => K::Unit,
                k => k.clone(),
            };
        }
        let ret = cx.ret_k.clone();
        cx.finish(t, k, &mut body)?;
        let item = cx.make_item(all, heaps.clone(), ret.clone(), body)?;
        self.items.extend(cx.items);
        self.items.push(item);
        self.calls.insert(path.clone());
        self.clos.push(ClosDef { lifted: path, caps, params: params.into_iter().map(|p| p.1).collect(), ret, unwinds: unw, heaps });
        Ok(self.clos.len() - 1)
    }
    fn cap_arg(&self, n: &str, m: bool) -> R<String> {
        let v = self.lookup(n).ok_or(format!("captured {n} not visible"))?;
        Ok(match &v.k {
            K::Cmp(_) => v.em.clone(),
            K::Int(_) | K::MutRef(_) if m => mutref_arg(&v.em),
            _ => v.em.clone(),
        })
    }

    // ---- calls -------------------------------------------------------------------------------
    fn args(&mut self, a: &syn::punctuated::Punctuated<Expr, syn::Token![,]>, out: &mut Vec<String>) -> R<Vec<(String, K)>> {
        a.iter().map(|e| self.ex(e, out)).collect()
    }
    /// Arguments of a crate function, closures among them becoming comparator values.
    fn args_for(&mut self, q: &str, skip: usize, a: &syn::punctuated::Punctuated<Expr, syn::Token![,]>, out: &mut Vec<String>) -> R<Vec<(String, K)>> {
        let fd = self.cr.fns.get(q).ok_or(format!("no function {q}"))?;
        let pk = param_kinds(self.cr, fd)?;
        let mut v = vec![];
        for (i, e) in a.iter().enumerate() {
            if let (Expr::Closure(c), Some((_, K::Cmp(tr), _))) = (strip_ref(e), pk.get(i + skip)) {
                v.push(self.closure_arg(c, tr, out)?);
            } else {
                v.push(self.ex(e, out)?);
            }
        }
        Ok(v)
    }
    /// A closure passed where a comparator is expected: extracted as a value implementing the trait.
    fn closure_arg(&mut self, c: &syn::ExprClosure, tr: &str, out: &mut Vec<String>) -> R<(String, K)> {
        let n = self.count("arg");
        let path = format!("{}::arg{n}", self.path);
        let arity = if matches!(tr, "Probe" | "Pred" | "KeyFn") { 1 } else { 2 };
        let mut ps = vec![];
        for p in &c.inputs {
            let p = if let Pat::Type(t) = p { &*t.pat } else { p };
            match p {
                Pat::Ident(i) => ps.push(i.ident.to_string()),
                Pat::Wild(_) => ps.push(format!("p__{}", ps.len())),
                p => return err(format!("closure parameter {}", toks(p))),
            }
        }
        if ps.len() != arity {
            return err(format!("{path}: closure arity"));
        }
        let mut fv = Idents { ids: BTreeSet::new(), mutated: BTreeSet::new(), called: BTreeSet::new() };
        fv.visit_expr(&c.body);
        let ids: BTreeSet<String> = fv.ids.union(&fv.called).cloned().collect();
        let mut cx = Cx::new(self.cr, self.f, path.clone());
        cx.macros = self.macros.clone();
        cx.unwinds = true;
        cx.push();
        let (mut fields, mut lits, mut gens, mut specs) = (vec![], vec![], vec![], vec![]);
        for id in &ids {
            if ps.contains(id) {
                continue;
            }
            let v = match self.lookup(id) {
                Some(v) => v.clone(),
                None => continue,
            };
            let ty = match &v.k {
                K::Cmp(t2) => {
                    let g = if gens.is_empty() { "F".to_string() } else { format!("F{}", gens.len() + 1) };
                    gens.push(format!("{g}: {t2}<T>"));
                    specs.push(t2.clone());
                    format!("&'x mut {g}")
                }
                K::Val => {
                    specs.push("Val".into());
                    "T".into()
                }
                K::KVal => {
                    specs.push("KVal".into());
                    "F::K".into()
                }
                k => return err(format!("{path}: captures {id}: {k:?}")),
            };
            fields.push((id.clone(), ty));
            lits.push(format!("{id}: {}", v.em));
            cx.bind_as(id, v.k.clone(), format!("self.{id}"));
        }
        cx.push();
        for p in &ps {
            cx.bind(p, K::Val);
        }
        cx.ret_k = match tr {
            "Probe" | "Cmp3" => K::Ord,
            "KeyFn" => K::KVal,
            _ => K::Bool,
        };
        let mut body = vec!["//@@ start".to_string()];
        let (t, k) = match &*c.body {
            Expr::Block(b) => cx.stmts(&b.block.stmts, &mut body)?,
            e => cx.ex(e, &mut body)?,
        };
        let (t, k) = cx.value(t, k)?;
        if tr == "Bucket" {
            // the model of the same-bucket test keeps its history
            let r = cx.fresh();
            body.push(format!("let {r}: bool = {t};"));
            body.push(format!("proof {{ self.log@ = self.log@.push(({}, {}, {r})); }}", ps[0], ps[1]));
            fields.push(("log".into(), "Ghost<Seq<(T, T, bool)>>".into()));
            lits.push("log: Ghost(Seq::empty())".into());
            cx.finish(r, k, &mut body)?;
        } else {
            cx.finish(t, k, &mut body)?;
        }
        let ret = format!("Result<{}, Unwind>", cx.ret_k.ty(self.cr));
        let tb = if elem_ord(&self.f.sig) { "T: Copy + KOrd" } else { "T: Copy" };
        let mut generics = vec![tb.to_string()];
        generics.extend(gens);
        let lits_s = lits.join(", ");
        let item = Item {
            path: path.clone(),
            name: mangle(&path),
            generics: format!("<{}>", generics.join(", ")),
            params: ps.iter().map(|p| (p.clone(), "T".to_string())).collect(),
            heaps: vec![],
            cmps: vec![],
            views: vec![],
            ret,
            unwinds: true,
            body,
            mutrefs: vec![],
            calls: cx.calls.clone(),
            uses_esize: false,
            closure: Some((fields, format!("{tr}<-{}", specs.join("+")))),
        };
        self.items.extend(cx.items);
        self.items.push(item);
        self.calls.insert(path.clone());
        let t = self.fresh();
        out.push(format!("let mut {t} = {} {{ {lits_s} }};", mangle(&path)));
        Ok((format!("&mut {t}"), K::Cmp(tr.to_string())))
    }
    /// `a OP b` on elements or keys: a call of the caller's Ord/PartialOrd/PartialEq implementation.
    fn ord_op(&mut self, name: &str, a: (String, K), b: (String, K), out: &mut Vec<String>) -> R<(String, K)> {
        let conv = |s: &mut Self, x: (String, K), out: &mut Vec<String>| -> R<(String, bool)> {
            let (t, k) = s.value(x.0, x.1)?;
            match k {
                K::KVal => Ok((t, true)),
                k => Ok((s.coerce(t, k, &K::Val, out)?, false)),
            }
        };
        let (a, ak) = conv(self, a, out)?;
        let (b, bk) = conv(self, b, out)?;
        if ak != bk {
            return err("comparison of key and element");
        }
        let k = if name == "cmp" { K::Ord } else { K::Bool };
        let n = self.count(&format!("ord_{name}"));
        let t = self.unwinding(format!("KOrd::k_{name}({a}, {b})"), &format!("ord_{name}"), n, out)?;
        Ok((t, k))
    }
    fn call(&mut self, c: &syn::ExprCall, out: &mut Vec<String>) -> R<(String, K)> {
        // call of a field holding a function: (self.run_alloc_fn)(n)
        let mut fe = &*c.func;
        while let Expr::Paren(p) = fe {
            fe = &p.expr;
        }
        if let Expr::Field(_) = fe {
            let (_, k) = self.ex(fe, out)?;
            return self.call_kind(k, String::new(), c, out);
        }
        let p = match fe {
            Expr::Path(p) => &p.path,
            e => return err(format!("{}: call of {}", self.path, toks(e))),
        };
        let n = Self::path_name(p);
        if let Some(v) = self.lookup(&n).cloned() {
            return self.call_kind(v.k, v.em, c, out);
        }
        if n == "Self" || n.starts_with("Self::") {
            let st = self.f.self_ty.clone().ok_or("Self")?;
            let q = n.replacen("Self", &st, 1);
            let a = self.args(&c.args, out)?;
            return self.call_crate(&q, a, out);
        }
        if n == "maybe_grow" || n == "crate::maybe_grow" {
            if let Expr::Closure(cl) = &c.args[0] {
                if cl.inputs.is_empty() && crate::tr::maybe_grow_ok(self.cr) {
                    return self.ex_stmt(&cl.body, out);
                }
            }
            return err("maybe_grow");
        }
        if n == "rayon::join" || n == "join" {
            return self.join_call(c, out);
        }
        if let Some(q) = self.cr.resolve(self.f, &n) {
            if let Some(fd) = self.cr.fns.get(&q) {
                let fd = fd.clone();
                if fd.sig.inputs.len() != c.args.len() {
                    return err("argument count");
                }
                let a = self.args_for(&q, 0, &c.args, out)?;
                return self.call_crate(&q, a, out);
            }
        }
        self.call_std(&n, p, c, out)
    }
    fn call_kind(&mut self, k: K, em: String, c: &syn::ExprCall, out: &mut Vec<String>) -> R<(String, K)> {
        match k {
            K::Cmp(tr) => {
                let a = self.args(&c.args, out)?;
                let mut v = vec![];
                for (t, k) in &a {
                    let t2 = self.coerce(t.clone(), k.clone(), &K::Val, out)?;
                    v.push(t2);
                }
                let n = self.count("is_less");
                if tr == "Bucket" {
                    if a.len() == 2 && a.iter().all(|x| x.1 == K::Ptr) {
                        out.push(format!("check_disjoint({}, {});", a[0].0, a[1].0));
                    } else if a.iter().all(|x| x.1 == K::Val) {
                    } else {
                        return err("bucket arguments");
                    }
                }
                out.push(format!("//@@ before is_less {n}"));
                let call = format!("{em}.call({})", v.join(", "));
                let t = self.unwinding(call, "is_less", n, out)?;
                out.push(format!("//@@ after is_less {n} {t}"));
                Ok((t, match tr.as_str() { "Probe" | "Cmp3" => K::Ord, "KeyFn" => K::KVal, _ => K::Bool }))
            }
            K::Clos(i) => {
                let cd = self.clos[i].clone();
                let a = self.args(&c.args, out)?;
                let mut v = vec![];
                for (h, m) in &cd.heaps {
                    v.push(self.hp_ref(h, *m)?);
                }
                for (n, k, m) in &cd.caps {
                    if matches!(k, K::AllocFn(..)) {
                        continue;
                    }
                    v.push(self.cap_arg(n, *m)?);
                }
                for ((t, k), pk) in a.into_iter().zip(&cd.params) {
                    v.push(self.arg(t, k, pk, out)?);
                }
                let call = format!("{}({})", mangle(&cd.lifted), v.join(", "));
                let short = cd.lifted.rsplit("::").next().unwrap().to_string();
                self.emit_call(call, &short, cd.unwinds, cd.ret.clone(), out)
            }
            K::AllocFn(h, dealloc) => {
                let a = self.args(&c.args, out)?;
                if dealloc {
                    out.push(format!("{h}.dealloc({}, {});", a[0].0, a[1].0));
                    Ok(("()".into(), K::Unit))
                } else {
                    let t = self.fresh();
                    out.push(format!("let {t} = {h}.alloc_raw({});", a[0].0));
                    Ok((t, K::HPtr(h)))
                }
            }
            k => err(format!("{}: call of {k:?}", self.path)),
        }
    }
    fn emit_call(&mut self, call: String, short: &str, unwinds: bool, ret: K, out: &mut Vec<String>) -> R<(String, K)> {
        let n = self.count(short);
        out.push(format!("//@@ before {short} {n}"));
        let t = if unwinds {
            self.unwinding(call, short, n, out)?
        } else if ret == K::Unit {
            out.push(format!("{call};"));
            "()".into()
        } else {
            let t = self.fresh();
            out.push(format!("let {t} = {call};"));
            t
        };
        out.push(format!("//@@ after {short} {n} {t}"));
        Ok((if ret == K::Unit { "()".into() } else { t }, ret))
    }
    fn arg(&mut self, t: String, k: K, want: &K, out: &mut Vec<String>) -> R<String> {
        match (want, &k) {
            (K::MutRef(_), K::MutRef(_)) => Ok(mutref_arg(&t)),
            (K::MutRef(w), k) if **w == *k => Ok(mutref_arg(&t)),
            (K::Cmp(_), K::Cmp(_)) => Ok(t),
            (K::Coll, K::Coll) => Ok(t),
            (K::Struct(a), K::Struct(b)) if a == b => Ok(t),
            _ => self.coerce(t, k, want, out),
        }
    }
    fn call_crate(&mut self, q: &str, a: Vec<(String, K)>, out: &mut Vec<String>) -> R<(String, K)> {
        let fd = self.cr.fns.get(q).ok_or(format!("no function {q}"))?.clone();
        self.calls.insert(q.to_string());
        // nested generic helpers over pointers (ptr_width) are instantiated per call kind
        let mut pk = param_kinds(self.cr, &fd)?;
        let short = fd.sig.ident.to_string();
        if pk.iter().zip(&a).any(|(p, x)| p.1 == K::Ptr && matches!(x.1, K::HPtr(_) | K::Null)) {
            let ks: Vec<K> = a.iter().map(|x| if x.1 == K::Null { K::HPtr("om".into()) } else { x.1.clone() }).collect();
            let mut g = HashMap::new();
            for p in &fd.sig.generics.params {
                if let syn::GenericParam::Type(t) = p {
                    g.insert(t.ident.to_string(), "u8".to_string());
                }
            }
            let path = format!("{q}::u8");
            let items = translate_fn_with(self.cr, &fd, g, Some((path.clone(), ks)))?;
            for i in items {
                if !self.items.iter().any(|x| x.path == i.path) {
                    self.items.push(i);
                }
            }
            self.calls.insert(path.clone());
            let call = format!("{}({})", mangle(&path), a.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", "));
            return self.emit_call(call, &short, fd.unwinds, ret_kind(self.cr, &fd)?, out);
        }
        if !self.cr.wanted(q) {
            return err(format!("{}: call of {q}, which is not under contract", self.path));
        }
        let mut v = vec![];
        for (h, m) in heaps_of(self.cr, &fd)? {
            v.push(self.hp_ref(&h, m)?);
        }
        if a.len() != pk.len() {
            return err(format!("{}: arguments of {q}", self.path));
        }
        for ((t, k), (pn, w, _)) in a.into_iter().zip(pk.drain(..)) {
            if matches!(w, K::AllocFn(..)) {
                if k != w {
                    return err(format!("{}: allocation function {k:?} passed for {w:?}", self.path));
                }
                continue;
            }
            if pn == "self_" {
                v.push(match w {
                    K::View => t,
                    K::MutRef(_) => mutref_arg(&t),
                    _ => format!("&{t}"),
                });
                continue;
            }
            v.push(self.arg(t, k, &w, out)?);
        }
        let call = format!("{}({})", mangle(q), v.join(", "));
        self.emit_call(call, &short, fd.unwinds, ret_kind(self.cr, &fd)?, out)
    }
    fn join_call(&mut self, c: &syn::ExprCall, out: &mut Vec<String>) -> R<(String, K)> {
        // rayon::join(|| a, || b): both run (in either order, on disjoint data); a panic of either
        // is rethrown after both have finished.
        let mut ts = vec![];
        let mut ks = vec![];
        let mut views: Vec<Vec<(String, K)>> = vec![];
        for a in &c.args {
            let cl = match a {
                Expr::Closure(cl) if cl.inputs.is_empty() => cl,
                _ => return err("join argument"),
            };
            let mut o = vec![];
            let call = task_call(self.cr, &cl.body).ok_or(format!("join body {}", toks(&cl.body)))?;
            let nm = match &*call.func {
                Expr::Path(p) => Self::path_name(&p.path),
                _ => return err("join call"),
            };
            let q = self.cr.resolve(self.f, &nm).ok_or(format!("join of {nm}"))?;
            let fd = self.cr.fns[&q].clone();
            let args = self.args(&call.args, &mut o)?;
            if !self.cr.wanted(&q) {
                return err(format!("join of {q}"));
            }
            // the tasks own disjoint views (slices of results): running them one after the other
            // then gives what any interleaving gives
            let own = self.cr.kinds["fns"][&q]["footprint"] == "contract";
            let mine: Vec<(String, K)> = if own { vec![] } else { args.iter().filter(|a| matches!(a.1, K::View | K::SView)).cloned().collect() };
            for (x, kx) in views.iter().flatten() {
                for (y, ky) in &mine {
                    if kx == ky {
                        o.push(format!("check_{}({x}, {y});", if *kx == K::View { "views" } else { "slots" }));
                    }
                }
            }
            views.push(mine);
            self.calls.insert(q.clone());
            let mut v = vec![];
            for (h, m) in heaps_of(self.cr, &fd)? {
                v.push(self.hp_ref(&h, m)?);
            }
            let pk = param_kinds(self.cr, &fd)?;
            for ((t, k), (_, w, _)) in args.into_iter().zip(pk) {
                v.push(self.arg(t, k, &w, &mut o)?);
            }
            out.extend(o);
            let short = fd.sig.ident.to_string();
            let cn = self.count(&short);
            out.push(format!("//@@ before {short} {cn}"));
            let r = self.fresh();
            out.push(format!("let {r} = {}({});", mangle(&q), v.join(", ")));
            out.push(format!("//@@ after {short} {cn} {r}"));
            ts.push((r, fd.unwinds, short, cn));
            ks.push(ret_kind(self.cr, &fd)?);
        }
        let mut vals = vec![];
        for (r, u, short, cn) in ts {
            if u {
                let t = self.unwinding(r, &format!("join_{short}"), cn, out)?;
                vals.push(t);
            } else {
                vals.push(r);
            }
        }
        if ks.iter().all(|k| *k == K::Unit) {
            return Ok(("()".into(), K::Unit));
        }
        Ok((format!("({})", vals.join(", ")), K::Tup(ks)))
    }
    /// `struct S<T>(*mut T)`: a pointer under another name.
    fn pointer_newtype(&self, n: &str) -> bool {
        match self.cr.resolve(self.f, n).and_then(|q| self.cr.structs.get(&q)) {
            Some(s) => s.fields.len() == 1 && s.fields[0].0 == "0" && matches!(s.fields[0].1, syn::Type::Ptr(_)) && !s.has_drop,
            None => false,
        }
    }
    fn size_of(&mut self, p: &syn::Path) -> R<(String, K)> {
        let seg = p.segments.last().unwrap();
        let ty = match &seg.arguments {
            syn::PathArguments::AngleBracketed(a) => toks(&a.args),
            _ => return err("size_of"),
        };
        if let Some(t) = self.tygen.get(&ty) {
            if t == "u8" {
                return Ok(("1usize".into(), K::Int("usize".into())));
            }
        }
        match ty.as_str() {
            "T" | "A" => {
                self.need("hp")?;
                Ok(("hp.esize()".into(), K::Int("usize".into())))
            }
            "u8" => Ok(("1usize".into(), K::Int("usize".into()))),
            "u16" => Ok(("2usize".into(), K::Int("usize".into()))),
            "u32" => Ok(("4usize".into(), K::Int("usize".into()))),
            "u64" | "usize" => Ok(("8usize".into(), K::Int("usize".into()))),
            // the size of a type that contains a key: any number
            t if t.starts_with('(') => Ok(("size_of_any()".into(), K::Int("usize".into()))),
            t => err(format!("size_of {t}")),
        }
    }
    fn call_std(&mut self, n: &str, p: &syn::Path, c: &syn::ExprCall, out: &mut Vec<String>) -> R<(String, K)> {
        let us = || K::Int("usize".into());
        match n {
            "mem::size_of" | "core::mem::size_of" | "size_of" => return self.size_of(p),
            "ptr::null_mut" | "ptr::null" => return Ok(("HPtr::null()".into(), K::Null)),
            "Some" => {
                let (t, k) = self.ex(&c.args[0], out)?;
                let (t, k) = self.value(t, k)?;
                return Ok((format!("Some({t})"), K::Opt(Box::new(k))));
            }
            "Axis" => return self.ex(&c.args[0], out),
            "Vec::new" if c.args.is_empty() => return Ok(("LVec::new()".into(), K::LVec(Box::new(K::Other("?".into()))))),
            "Vec::with_capacity" => {
                let (t, k) = self.ex(&c.args[0], out)?;
                let (t, _) = self.value(t, k)?;
                let of = p.segments[0].arguments.to_token_stream().to_string().replace(' ', "");
                if of == "::<T>" || of == "::<A>" || of == "<T>" {
                    // memory for elements: what becomes of it is decided by what is done with it
                    let r = format!("own__{}", self.count("own"));
                    let bp = self.hp_ref("bp", true)?;
                    out.push(format!("let {r} = {}.vec_raw({t});", bp.trim_start_matches("&mut ")));
                    self.scopes.last_mut().unwrap().drops.push(DropRec { var: r.clone(), k: K::TVec, live: true, maybe: false });
                    return Ok((r, K::TVec));
                }
                if of.is_empty() {
                    return Ok((format!("LVec::with_capacity({t})"), K::LVec(Box::new(K::Other("?".into())))));
                }
                return err(format!("Vec{of}::with_capacity"));
            }
            "ArrayViewMut1::from_shape_ptr" => {
                let (n, kn) = self.ex(&c.args[0], out)?;
                let (n, _) = self.value(n, kn)?;
                let (t, k) = self.ex(&c.args[1], out)?;
                if k != K::HPtr("bp".into()) {
                    return err(format!("from_shape_ptr of {k:?}"));
                }
                let (r, q) = (self.fresh(), self.fresh());
                out.push(format!("let {q} = {t};"));
                let t = q;
                out.push(format!("let {r} = adopt({}, {}, {t}, {n});", self.hp_ref("hp", true)?, self.hp_ref("bp", true)?));
                self.scopes.last_mut().unwrap().drops.push(DropRec { var: format!("{r}, {t}"), k: K::Adopted, live: true, maybe: false });
                return Ok((r, K::View));
            }
            _ if c.args.len() == 1 && self.pointer_newtype(n) => return self.ex(&c.args[0], out),
            "Ok" | "Err" if c.args.len() == 1 => {
                let (t, k) = self.ex(&c.args[0], out)?;
                let (t, k) = self.value(t, k)?;
                let (a, b) = match &self.ret_k {
                    K::Res(a, b) => ((**a).clone(), (**b).clone()),
                    _ => return err("Result outside a function returning one"),
                };
                let t = self.coerce(t, k, if n == "Ok" { &a } else { &b }, out)?;
                return Ok((format!("{n}::<{}, {}>({t})", a.ty(self.cr), b.ty(self.cr)), K::Res(Box::new(a), Box::new(b))));
            }
            _ => {}
        }
        let a = self.args(&c.args, out)?;
        match n {
            "ptr::read" => {
                let (t, k) = a.into_iter().next().unwrap();
                let t = self.coerce(t, k, &K::Val, out)?;
                let r = self.fresh();
                out.push(format!("let {r} = {t};"));
                Ok((r, K::Owned))
            }
            "ManuallyDrop::new" | "mem::ManuallyDrop::new" => match &a[0].1 {
                K::Owned => Ok((a[0].0.clone(), K::MD)),
                k => err(format!("ManuallyDrop of {k:?}")),
            },
            "mem::forget" => {
                let v = a[0].0.clone();
                let flagged = matches!(a[0].1, K::Struct(_)) && self.flagged(&v);
                let cur = self.scopes.len() - 1;
                for (i, s) in self.scopes.iter_mut().enumerate() {
                    for d in s.drops.iter_mut() {
                        if d.var == v && d.live {
                            let _ = (i, cur);
                            d.live = false;
                            if flagged {
                                out.push(format!("{v}__live = false;"));
                            }
                            return Ok(("()".into(), K::Unit));
                        }
                    }
                }
                err(format!("{}: forget of {v}", self.path))
            }
            "ptr::copy_nonoverlapping" | "ptr::copy" => {
                let cn = self.count("copy");
                out.push(format!("//@@ before copy {cn}"));
                let s = self.copy(&a, n == "ptr::copy", out)?;
                out.push(s);
                out.push(format!("//@@ after copy {cn}"));
                Ok(("()".into(), K::Unit))
            }
            "mem::swap" | "ptr::swap" => {
                let cn = self.count("swap");
                out.push(format!("//@@ before swap {cn}"));
                match (&a[0].1, &a[1].1) {
                    (K::MutRef(_), K::MutRef(_)) => out.push(format!("swap_usize({}, {});", mutref_arg(&a[0].0), mutref_arg(&a[1].0))),
                    (K::Ptr, K::Ptr) => {
                        out.push(format!("hp.swap_ptr({}, {}, {});", a[0].0, a[1].0, n == "mem::swap"));
                    }
                    (x, y) => return err(format!("swap of {x:?} {y:?}")),
                }
                out.push(format!("//@@ after swap {cn}"));
                Ok(("()".into(), K::Unit))
            }
            "cmp::min" | "core::cmp::min" => Ok((format!("min_usize({}, {})", a[0].0, a[1].0), us())),
            "cmp::max" | "core::cmp::max" => Ok((format!("max_usize({}, {})", a[0].0, a[1].0), us())),
            "usize::from" => {
                let (t, k) = a.into_iter().next().unwrap();
                let (t, k) = self.value(t, k)?;
                match k {
                    K::Bool => Ok((format!("(if {t} {{ 1usize }} else {{ 0usize }})"), us())),
                    K::Int(_) => Ok((format!("({t} as usize)"), us())),
                    k => err(format!("usize::from {k:?}")),
                }
            }
            "ptr::NonNull::new" | "NonNull::new" => Ok((a[0].0.clone(), K::Opt(Box::new(a[0].1.clone())))),
            "ptr::slice_from_raw_parts" => match &a[0].1 {
                K::HPtr(h) => Ok((format!("{h}.slice({}, {})", a[0].0, a[1].0), K::Slice(h.clone()))),
                k => err(format!("slice_from_raw_parts {k:?}")),
            },
            _ => err(format!("{}: call of {n}", self.path)),
        }
    }
    fn copy(&mut self, a: &[(String, K)], overlap_ok: bool, out: &mut Vec<String>) -> R<String> {
        let (s, d, n) = (&a[0], &a[1], &a[2]);
        let one = n.0 == "1";
        let sk = match &s.1 { K::Place => K::Ptr, k => k.clone() };
        Ok(match (&sk, &d.1) {
            (K::Val | K::Owned, K::Ptr) if one => format!("hp.put({}, {});", s.0, d.0),
            (K::Ptr, K::Ptr) if overlap_ok => format!("hp.copy_any({}, {}, {});", s.0, d.0, n.0),
            (K::Ptr, K::Ptr) if one => format!("hp.copy1({}, {});", s.0, d.0),
            (K::Ptr, K::Ptr) => format!("hp.copy_n({}, {}, {});", s.0, d.0, n.0),
            (K::EPtr, K::Ptr) if one => format!("copy_e({}, {}, {}, {});", self.hp_ref("hp", true)?, self.hp_ref("bp", false)?, s.0, d.0),
            (K::HPtr(h), K::Ptr) if one => {
                let t = self.fresh();
                out.push(format!("let {t} = {h}.read({});", s.0));
                format!("hp.put({t}, {});", d.0)
            }
            (K::Ptr, K::HPtr(h)) if one => {
                let t = self.fresh();
                out.push(format!("let {t} = hp.get({});", s.0));
                format!("{h}.write({}, {t});", d.0)
            }
            (K::Val, K::HPtr(h)) if one => format!("{h}.write({}, {});", d.0, s.0),
            (K::HPtr(h), K::HPtr(h2)) if h == h2 => {
                if overlap_ok {
                    format!("{h}.copy({}, {}, {});", s.0, d.0, n.0)
                } else {
                    format!("{h}.copy_nonoverlapping({}, {}, {});", s.0, d.0, n.0)
                }
            }
            (K::HPtr(_), K::Ptr) | (K::Ptr, K::HPtr(_)) => format!("copy_layout_dependent({});", n.0),
            (x, y) => return err(format!("{}: copy from {x:?} to {y:?}", self.path)),
        })
    }
    fn method(&mut self, m: &syn::ExprMethodCall, out: &mut Vec<String>) -> R<(String, K)> {
        let name = m.method.to_string();
        if let Some(r) = self.idiom(m, out)? {
            return Ok(r);
        }
        let (t, k) = self.ex(&m.receiver, out)?;
        let us = || K::Int("usize".into());
        let k = match k {
            K::MutRef(b) => match *b {
                K::Struct(s) => K::MutRef(Box::new(K::Struct(s))),
                k => k,
            },
            k => k,
        };
        let (t, k) = match k {
            K::HPlace(_) => self.value(t, k)?,
            k => (t, k),
        };
        match (&k, name.as_str()) {
            (K::View | K::IView | K::SView, "view" | "view_mut" | "raw_view" | "raw_view_mut" | "deref_into_view" | "deref_into_view_mut" | "reborrow" | "into_view" | "clone") => Ok((t, k)),
            (K::View | K::IView | K::SView, "len") => Ok((format!("{t}.len()"), us())),
            (K::View | K::IView | K::SView, "is_empty") => Ok((format!("({t}.len() == 0)"), K::Bool)),
            (K::View, "uget" | "uget_mut") => {
                let a = self.vals(&m.args, out)?;
                Ok((format!("{t}.uget({})", a[0].0), K::Ptr))
            }
            (K::View, "index") => {
                let a = self.vals(&m.args, out)?;
                Ok((format!("{t}.idx({})", a[0].0), K::Ptr))
            }
            (K::IView, "index") => {
                let a = self.vals(&m.args, out)?;
                Ok((format!("{t}.idx({})", a[0].0), us()))
            }
            (K::View, "swap" | "uswap") => {
                let a = self.vals(&m.args, out)?;
                let c = self.count("swap");
                out.push(format!("//@@ before swap {c}"));
                out.push(format!("hp.{name}({t}, {}, {});", a[0].0, a[1].0));
                out.push(format!("//@@ after swap {c}"));
                Ok(("()".into(), K::Unit))
            }
            (K::SView, "split_at" | "split_at_mut") => {
                let a = self.vals(&m.args, out)?;
                let r = self.fresh();
                out.push(format!("let {r} = {t}.split_at({});", a[0].0));
                Ok((r, K::Tup(vec![k.clone(), k])))
            }
            (K::SPlace, "write") => {
                let (x, kx) = self.ex(&m.args[0], out)?;
                let x = self.coerce(x, kx, &K::Ptr, out)?;
                let sp = self.hp_ref("sp", true)?;
                out.push(format!("{}.write({t}, {x});", sp.trim_start_matches("&mut ")));
                let c = self.count("slot");
                out.push(format!("//@@ after slot {c}"));
                Ok(("()".into(), K::Unit))
            }
            (K::PVec(_), "len") => Ok((format!("{t}.len()"), us())),
            (K::PVec(_), "sort_unstable" | "par_sort_unstable" | "sort" | "par_sort") if m.args.is_empty() => self.emit_call(format!("{t}.sort()"), "sort_pairs", true, K::Unit, out),
            (K::PVec(_), "push") => {
                let (x, kx) = self.ex(&m.args[0], out)?;
                match kx {
                    K::Tup(ks) if ks.len() == 2 && ks[0] == K::KVal => {
                        if let K::Int(it) = &ks[1] {
                            let it = if it == "_" { "usize".to_string() } else { it.clone() };
                            out.push(format!("{t}.push({x});"));
                            let n = self.count("push");
                            out.push(format!("//@@ after push {n}"));
                            if let Some(b) = base_ident(&m.receiver) {
                                if matches!(self.lookup(&b).map(|v| v.k.clone()), Some(K::PVec(ref o)) if o == "?" || *o == it) {
                                    self.set_kind(&b, K::PVec(it));
                                    return Ok(("()".into(), K::Unit));
                                }
                            }
                        }
                        err("push of a pair")
                    }
                    k => err(format!("push of {k:?}")),
                }
            }
            (K::View, "axis_chunks_iter_mut" | "axis_chunks_iter") if toks(&m.args[0]).replace(' ', "") == "Axis(0)" => {
                let (x, kx) = self.ex(&m.args[1], out)?;
                let (x, _) = self.value(x, kx)?;
                Ok((format!("Chunks::new({t}, {x})"), K::Chunks))
            }
            (K::View, "multi_slice_mut") => {
                let e = match &m.args[0] {
                    Expr::Tuple(e) if e.elems.len() == 2 => e,
                    e => return err(format!("{}: multi_slice_mut {}", self.path, toks(e))),
                };
                let a = self.slice_arg(&e.elems[0], &t, out)?;
                let b = self.slice_arg(&e.elems[1], &t, out)?;
                let r = self.fresh();
                out.push(format!("let {r} = ({a}, {b});"));
                out.push(format!("check_views({r}.0, {r}.1);"));
                Ok((r, K::Tup(vec![K::View, K::View])))
            }
            (K::Chunks | K::LVec(_) | K::LIter(_), "len") => Ok((format!("{t}.len()"), us())),
            (K::LVec(_), "is_empty") => Ok((format!("({t}.len() == 0)"), K::Bool)),
            (K::LVec(e), "push") => {
                let (x, kx) = self.ex(&m.args[0], out)?;
                let (x, kx) = self.value(x, kx)?;
                let kx = self.elem_of(&m.receiver, e, kx)?;
                let _ = kx;
                let n = self.count("push");
                out.push(format!("//@@ before push {n}"));
                out.push(format!("{t}.push({x});"));
                out.push(format!("//@@ after push {n}"));
                Ok(("()".into(), K::Unit))
            }
            (K::LVec(e), "remove") => {
                let a = self.vals(&m.args, out)?;
                let n = self.count("remove");
                let r = self.fresh();
                out.push(format!("//@@ before remove {n}"));
                out.push(format!("let {r} = {t}.remove({});", a[0].0));
                out.push(format!("//@@ after remove {n}"));
                Ok((r, (**e).clone()))
            }
            (K::LVec(_), "spare_capacity_mut") => Ok((t.clone(), K::LSpare(base_ident(&m.receiver).ok_or("spare_capacity_mut")?))),
            (K::LVec(_), "set_len") => {
                let a = self.vals(&m.args, out)?;
                out.push(format!("{t}.set_len({});", a[0].0));
                let n = self.count("set_len");
                out.push(format!("//@@ after set_len {n}"));
                Ok(("()".into(), K::Unit))
            }
            (K::LVec(e), "into_iter") => Ok((format!("{t}.into_iter()"), K::LIter(e.clone()))),
            (K::LIter(_), "peekable") => Ok((t, k)),
            (K::LIter(e), "next" | "peek") => {
                let n = self.count(&name);
                let r = self.fresh();
                out.push(format!("//@@ before {name} {n}"));
                out.push(format!("let {r} = {t}.{name}();"));
                out.push(format!("//@@ after {name} {n} {r}"));
                Ok((r, K::Opt(e.clone())))
            }
            (K::LSlice(_), "len") => Ok((format!("{t}.len()"), us())),
            (K::LSlice(_), "is_empty") => Ok((format!("({t}.len() == 0)"), K::Bool)),
            (K::LSlice(e), "split_at") => {
                let a = self.vals(&m.args, out)?;
                let r = self.fresh();
                out.push(format!("let {r} = slice_split_at({t}, {});", a[0].0));
                Ok((r, K::Tup(vec![K::LSlice(e.clone()), K::LSlice(e.clone())])))
            }
            (K::LSlot(v), "write") => {
                let (x, kx) = self.ex(&m.args[0], out)?;
                let (x, kx) = self.value(x, kx)?;
                let ve: Expr = syn::parse_str(v).map_err(|e| e.to_string())?;
                let e = match self.lookup(v).map(|x| x.k.clone()) {
                    Some(K::LVec(e)) => e,
                    _ => return err(format!("{}: write through {v}", self.path)),
                };
                self.elem_of(&ve, &e, kx)?;
                out.push(format!("{v}.spare_write({t}, {x});"));
                let c = self.count("slot");
                out.push(format!("//@@ after slot {c}"));
                Ok(("()".into(), K::Unit))
            }
            (K::TVec, "as_mut_ptr" | "as_ptr") => Ok((t, K::HPtr("bp".into()))),
            (K::TVec, "capacity") => Ok((format!("{t}.cap"), us())),
            (K::HPtr(_), "get") if m.args.is_empty() && self.newtype_get() => Ok((t, k)),
            (K::RVec, "len") => Ok((format!("{t}.len()"), us())),
            (K::RVec, "reserve" | "reserve_exact") => {
                let a = self.vals(&m.args, out)?;
                let sp = self.hp_ref("sp", true)?;
                out.push(format!("{t}.reserve({sp}, {});", a[0].0));
                Ok(("()".into(), K::Unit))
            }
            (K::RVec, "spare_capacity_mut") => {
                let sp = self.hp_ref("sp", false)?;
                Ok((format!("{t}.spare({sp})"), K::SView))
            }
            (K::RVec, "set_len") => {
                let a = self.vals(&m.args, out)?;
                let sp = self.hp_ref("sp", false)?;
                out.push(format!("{t}.set_len({sp}, {});", a[0].0));
                Ok(("()".into(), K::Unit))
            }
            (K::View | K::IView, "split_at") => {
                if toks(&m.args[0]).replace(' ', "") != "Axis(0)" {
                    return err("axis");
                }
                let (x, kx) = self.ex(&m.args[1], out)?;
                let (x, _) = self.value(x, kx)?;
                let r = self.fresh();
                out.push(format!("let {r} = {t}.split_at({x});"));
                Ok((r, K::Tup(vec![k.clone(), k])))
            }
            (K::View | K::IView | K::SView, "slice" | "slice_mut" | "slice_move") => {
                let s = self.slice_arg(&m.args[0], &t, out)?;
                Ok((s, k))
            }
            (K::HPtr(_), "add" | "sub") => {
                let a = self.vals(&m.args, out)?;
                Ok((format!("{t}.{name}({})", a[0].0), k))
            }
            (K::HPtr(_), "as_ptr" | "as_mut_ptr" | "cast") => Ok((t, k)),
            (K::HPtr(h), "write") => {
                let a = self.vals(&m.args, out)?;
                out.push(format!("{h}.write({t}, {});", a[0].0));
                let c = self.count("hwrite");
                out.push(format!("//@@ after hwrite {c}"));
                Ok(("()".into(), K::Unit))
            }
            (K::Ptr, "add" | "sub" | "offset") => {
                let a = self.vals(&m.args, out)?;
                Ok((format!("{t}.step({})", a[0].0), K::Ptr))
            }
            (K::BufCell(h), "as_mut_ptr" | "as_ptr") => Ok((t, K::HPtr(h.clone()))),
            (K::Opt(i), "unwrap") => Ok(match &**i {
                // NonNull::new(p).unwrap(): allocation failure is outside the model
                K::HPtr(_) => (t, (**i).clone()),
                _ => return err(format!("{}: unwrap", self.path)),
            }),
            (K::Int(i), "leading_zeros") if i == "usize" => Ok((format!("usize_leading_zeros({t})"), K::Int("u32".into()))),
            (K::Int(i), "saturating_mul" | "saturating_sub" | "saturating_add" | "next_power_of_two" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "min" | "max" | "abs_diff" | "ilog2" | "checked_sub" | "checked_add" | "checked_mul" | "div_ceil" | "is_power_of_two" | "clamp")
                if i == "usize" || i == "_" =>
            {
                let a = self.vals(&m.args, out)?;
                let mut v = vec![t];
                v.extend(a.into_iter().map(|x| x.0));
                let f = match name.as_str() {
                    "min" => "min_usize".to_string(),
                    "max" => "max_usize".to_string(),
                    n => format!("usize_{n}"),
                };
                let rk = match name.as_str() {
                    "ilog2" => K::Int("u32".into()),
                    "is_power_of_two" => K::Bool,
                    n if n.starts_with("checked_") => K::Opt(Box::new(us())),
                    _ => us(),
                };
                Ok((format!("{f}({})", v.join(", ")), rk))
            }
            (K::Int(_), "cmp") => {
                let a = self.vals(&m.args, out)?;
                Ok((format!("cmp_usize({t}, {})", a[0].0), K::Ord))
            }
            (K::Coll, "extend") => {
                let (x, kx) = self.ex(&m.args[0], out)?;
                match kx {
                    K::Tup(ks) if ks.len() == 1 && ks[0] == K::Tup(vec![us(), K::Ptr]) => {
                        let n = self.count("extend");
                        out.push(format!("//@@ before extend {n}"));
                        let r = self.fresh();
                        out.push(format!("let {r} = {x};"));
                        let t2 = self.unwinding(format!("{t}.extend1({r}.0.0, {r}.0.1)"), "extend", n, out)?;
                        let _ = t2;
                        out.push(format!("//@@ after extend {n}"));
                        Ok(("()".into(), K::Unit))
                    }
                    k => err(format!("extend with {k:?}")),
                }
            }
            (K::Slice(_), "len") => Ok((format!("{t}.len()"), us())),
            (K::Struct(_), _) | (K::MutRef(_), _) => {
                let s = match &k {
                    K::Struct(s) => s.clone(),
                    K::MutRef(b) => match &**b {
                        K::Struct(s) => s.clone(),
                        k => return err(format!("{}: method {name} on {k:?}", self.path)),
                    },
                    _ => unreachable!(),
                };
                let q = format!("{s}::{name}");
                let mut a = vec![(t, K::Struct(s))];
                a.extend(self.vals(&m.args, out)?);
                self.call_crate(&q, a, out)
            }
            (K::Res(a, b), "unwrap_or_else") if a == b => match &m.args[0] {
                Expr::Closure(c) if c.inputs.len() == 1 => {
                    let n = match &c.inputs[0] {
                        Pat::Ident(i) => i.ident.to_string(),
                        p => return err(format!("closure parameter {}", toks(p))),
                    };
                    self.push();
                    self.bind(&n, (**b).clone());
                    let mut o = vec![];
                    let (x, kx) = self.ex(&c.body, &mut o)?;
                    let x = self.coerce(x, kx, a, &mut o)?;
                    self.pop();
                    let r = self.fresh();
                    out.push(format!("let {r} = match {t} {{ Ok(x__) => x__, Err({n}) => {{"));
                    out.extend(o);
                    out.push(format!("{x} }} }};"));
                    Ok((r, (**a).clone()))
                }
                e => err(format!("unwrap_or_else {}", toks(e))),
            },
            (K::Opt(_), "is_some") => Ok((format!("(match {t} {{ Some(_) => true, None => false }})"), K::Bool)),
            (K::Opt(_), "is_none") => Ok((format!("(match {t} {{ Some(_) => false, None => true }})"), K::Bool)),
            (K::Res(_, _), "is_err") => Ok((format!("(match {t} {{ Ok(_) => false, Err(_) => true }})"), K::Bool)),
            (K::Res(a, _), "is_ok") => {
                let _ = a;
                Ok((format!("(match {t} {{ Ok(_) => true, Err(_) => false }})"), K::Bool))
            }
            (K::Val | K::KVal | K::Ptr | K::Place, "lt" | "le" | "gt" | "ge" | "eq" | "ne" | "cmp") => {
                let b = self.ex(&m.args[0], out)?;
                self.ord_op(&name, (t, k), b, out)
            }
            (K::View, n) if self.cr.fns.contains_key(&format!("ArrayBase::{n}")) => {
                let q = format!("ArrayBase::{n}");
                let mut a = vec![(t, k)];
                a.extend(self.args_for(&q, 1, &m.args, out)?);
                self.call_crate(&q, a, out)
            }
            (k, n) => err(format!("{}: method {n} on {k:?}", self.path)),
        }
    }
    /// The accessors `get` of pointer newtypes all return the pointer.
    fn newtype_get(&self) -> bool {
        let mut n = 0;
        for (p, f) in &self.cr.fns {
            if p.ends_with("::get") && p.split("::").count() > 1 && f.module == self.f.module && f.self_ty.is_some() {
                if toks(&f.block).replace(' ', "") != "{self.0}" {
                    return false;
                }
                n += 1;
            }
        }
        n > 0
    }
    /// The element kind of a local Vec: that of the first value put into it.
    fn elem_of(&mut self, recv: &Expr, e: &K, x: K) -> R<K> {
        let x = match x {
            K::Int(i) if i == "_" => K::Int("usize".into()),
            K::Tup(v) => K::Tup(v.into_iter().map(|k| if k == K::Int("_".into()) { K::Int("usize".into()) } else { k }).collect()),
            x => x,
        };
        if !plain(self.cr, &x) {
            return err(format!("{}: Vec of {x:?}", self.path));
        }
        if *e == K::Other("?".into()) {
            let b = base_ident(recv).ok_or("element of Vec")?;
            self.set_kind(&b, K::LVec(Box::new(x.clone())));
        } else if *e != x {
            return err(format!("{}: {x:?} in Vec of {e:?}", self.path));
        }
        Ok(x)
    }
    fn vals(&mut self, a: &syn::punctuated::Punctuated<Expr, syn::Token![,]>, out: &mut Vec<String>) -> R<Vec<(String, K)>> {
        let mut v = vec![];
        for e in a {
            let (t, k) = self.ex(e, out)?;
            v.push(self.value(t, k)?);
        }
        Ok(v)
    }
    fn slice_arg(&mut self, e: &Expr, v: &str, out: &mut Vec<String>) -> R<String> {
        let m = match e {
            Expr::Macro(m) if m.mac.path.is_ident("s") => &m.mac,
            e => return err(format!("slice argument {}", toks(e))),
        };
        let e: Expr = m.parse_body().map_err(|_| format!("{}: s![{}]", self.path, m.tokens))?;
        let r = match e {
            Expr::Range(r) => r,
            e => return err(format!("s![{}]", toks(e))),
        };
        self.range_of(&r, v, out)
    }
    fn range_of(&mut self, r: &syn::ExprRange, v: &str, out: &mut Vec<String>) -> R<String> {
        let a = match &r.start {
            Some(s) => {
                let (t, k) = self.ex(s, out)?;
                self.value(t, k)?.0
            }
            None => "0".into(),
        };
        let b = match &r.end {
            Some(s) => {
                let (t, k) = self.ex(s, out)?;
                let t = self.value(t, k)?.0;
                if matches!(r.limits, syn::RangeLimits::Closed(_)) { format!("{} + 1", paren(&t)) } else { t }
            }
            None => format!("{v}.len()"),
        };
        Ok(format!("{v}.slice({a}, {b})"))
    }
    /// `v.iter()` through map, enumerate and par_bridge into collect: a loop over the elements that
    /// pushes what the adapters make of each one.
    fn pipeline(&mut self, base: &Expr, ms: &[&syn::ExprMethodCall], out: &mut Vec<String>) -> R<(String, K)> {
        let (_, k) = self.ex(base, &mut vec![])?;
        if k != K::View {
            return err(format!("{}: iter on {k:?}", self.path));
        }
        let n = self.loops + 1;
        let (i, c) = (quote::format_ident!("it__{n}"), quote::format_ident!("c__{n}"));
        let mut item = quote::quote!(&#base[#i]);
        let mut lets = vec![];
        let mut shuffled = false;
        for (j, m) in ms[1..ms.len() - 1].iter().enumerate() {
            let x = quote::format_ident!("x__{n}_{j}");
            match m.method.to_string().as_str() {
                // the position is that of the source as long as the order is
                "enumerate" if !shuffled => {
                    lets.push(quote::quote!(let #x = #item;));
                    item = quote::quote!((#i, #x));
                }
                "par_bridge" => shuffled = true,
                "map" => match &m.args[0] {
                    Expr::Closure(cl) if cl.inputs.len() == 1 => {
                        let (p, b) = (&cl.inputs[0], &cl.body);
                        lets.push(quote::quote!(let #p = #item;));
                        lets.push(quote::quote!(let #x = #b;));
                        item = quote::quote!(#x);
                    }
                    f @ Expr::Path(_) => {
                        lets.push(quote::quote!(let #x = #f(#item);));
                        item = quote::quote!(#x);
                    }
                    e => return err(format!("map({})", toks(e))),
                },
                o => return err(format!("{}: iterator adapter {o}", self.path)),
            }
        }
        let body: Expr = syn::parse2(quote::quote!(for #i in 0..#base.len() { #(#lets)* #c.push(#item); })).map_err(|e| e.to_string())?;
        let cn = c.to_string();
        let at = out.len();
        out.push(String::new());
        self.bind(&cn, K::PVec("?".into()));
        self.ex_stmt(&body, out)?;
        match self.lookup(&cn).map(|v| v.k.clone()) {
            Some(K::PVec(i)) if i != "?" => out[at] = format!("let mut {cn}: PVec<F::K, {i}> = PVec::new();"),
            _ => return err(format!("{}: what is collected is not pairs of key and index", self.path)),
        }
        if shuffled {
            out.push(format!("{cn}.shuffle();"));
        }
        let k = self.lookup(&cn).unwrap().k.clone();
        Ok((cn, k))
    }
    /// Chunks of a view, possibly zipped with the cells of a Vec's spare capacity, each handed to a
    /// task: a loop over the positions. The tasks own disjoint chunks and cells, so running them one
    /// after the other gives what any schedule gives; the first one that unwinds ends the loop, the
    /// rest may then not have run.
    fn for_each(&mut self, base: &Expr, ms: &[&syn::ExprMethodCall], out: &mut Vec<String>) -> R<(String, K)> {
        let n = self.loops + 1;
        let (mut t, mut k) = self.ex(base, out)?;
        let mut first = 0;
        if k == K::View {
            let e: Expr = Expr::MethodCall(ms[0].clone());
            let r = self.ex(&e, out)?;
            (t, k) = r;
            first = 1;
        }
        if k != K::Chunks {
            return err(format!("{}: for_each over {k:?}", self.path));
        }
        let src = format!("src__{n}");
        out.push(format!("let {src} = {t};"));
        let it = format!("it__{n}");
        let (mut item, mut ik) = (format!("{src}.get({it})"), K::View);
        let mut bound = format!("{src}.len()");
        let mut shuffled = false;
        for m in &ms[first..ms.len() - 1] {
            match m.method.to_string().as_str() {
                "enumerate" if !shuffled => {
                    item = format!("({it}, {item})");
                    ik = K::Tup(vec![K::Int("usize".into()), ik]);
                }
                "zip" if !shuffled => {
                    let (z, kz) = self.ex(&m.args[0], out)?;
                    match kz {
                        K::LSpare(v) => {
                            bound = format!("min_usize({bound}, {z}.spare_len())");
                            item = format!("({item}, {it})");
                            ik = K::Tup(vec![ik, K::LSlot(v)]);
                        }
                        k => return err(format!("{}: zip with {k:?}", self.path)),
                    }
                }
                "into_iter" if !shuffled => {}
                "par_bridge" => shuffled = true,
                o => return err(format!("{}: iterator adapter {o}", self.path)),
            }
        }
        let cl = match &ms.last().unwrap().args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 => c.clone(),
            e => return err(format!("for_each({})", toks(e))),
        };
        let mut hl = HasLoop(false, false);
        hl.visit_expr(&cl.body);
        if hl.1 {
            return err(format!("{}: return in for_each", self.path));
        }
        self.push();
        self.bind_as("item__", ik, item);
        self.bind_as("bound__", K::Int("usize".into()), bound);
        let (iv, p, b) = (quote::format_ident!("{it}"), &cl.inputs[0], &cl.body);
        let body: Expr = syn::parse2(quote::quote!(for #iv in 0..bound__ { let #p = item__; #b; })).map_err(|e| e.to_string())?;
        let r = self.ex_stmt(&body, out);
        let sc = self.scopes.pop();
        let _ = sc;
        r
    }
    /// Iterator pipelines of std that are understood as a whole.
    fn idiom(&mut self, m: &syn::ExprMethodCall, out: &mut Vec<String>) -> R<Option<(String, K)>> {
        // v.iter().enumerate().max_by(from_is_less(is_less)).unwrap()
        let chain = method_chain(m);
        if chain.1.len() == 2 && chain.1[0].method == "iter" && matches!(chain.1[1].method.to_string().as_str(), "any" | "all") {
            let (t, k) = self.ex(chain.0, out)?;
            if let (K::View, Expr::Closure(c)) = (&k, strip_ref(&chain.1[1].args[0])) {
                let which = chain.1[1].method.to_string();
                let (ct, _) = self.closure_arg(c, "Pred", out)?;
                let call = format!("iter_{which}({}, {t}, {ct})", self.hp_ref("hp", false)?);
                return Ok(Some(self.emit_call(call, &which, true, K::Bool, out)?));
            }
            return err(format!("{}: {}", self.path, toks(m)));
        }
        if chain.1.len() >= 3 && chain.1[0].method == "iter" && chain.1.last().unwrap().method == "collect" {
            return Ok(Some(self.pipeline(chain.0, &chain.1, out)?));
        }
        if chain.1.last().unwrap().method == "for_each" {
            return Ok(Some(self.for_each(chain.0, &chain.1, out)?));
        }
        let names: Vec<String> = chain.1.iter().map(|c| c.method.to_string()).collect();
        let ns: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        if ns.len() == 4 && ns[0] == "iter" && ns[1] == "enumerate" && (ns[2] == "max_by" || ns[2] == "min_by") && ns[3] == "unwrap" {
            let (t, k) = self.ex(chain.0, out)?;
            if k != K::View {
                return err("iter on non-view");
            }
            let arg = &chain.1[2].args[0];
            if let Expr::Call(c) = arg {
                if let Expr::Path(p) = &*c.func {
                    let n = Self::path_name(&p.path);
                    if let Some(q) = self.cr.resolve(self.f, &n) {
                        let (ct, ck) = self.ex(&c.args[0], out)?;
                        if !matches!(ck, K::Cmp(_)) {
                            return err("comparator expected");
                        }
                        self.calls.insert(q.clone());
                        self.calls.insert(format!("#{}:{q}", ns[2]));
                        let fname = format!("iter_{}__{}", ns[2], mangle(&q));
                        let call = format!("{fname}({}, {t}, {ct})", self.hp_ref("hp", false)?);
                        let (r, _) = self.emit_call(call, ns[2], true, K::Tup(vec![K::Int("usize".into()), K::Ptr]), out)?;
                        return Ok(Some((r, K::Tup(vec![K::Int("usize".into()), K::Ptr]))));
                    }
                }
            }
            return err(format!("{}: {}", self.path, toks(m)));
        }
        Ok(None)
    }
}

/// Replaces the parameters of a macro in its body.
fn subst_macro(ts: TokenStream, map: &HashMap<String, TokenStream>) -> TokenStream {
    use proc_macro2::TokenTree as TT;
    let mut v: Vec<TT> = vec![];
    let tt: Vec<TT> = ts.into_iter().collect();
    let mut i = 0;
    while i < tt.len() {
        match &tt[i] {
            TT::Punct(p) if p.as_char() == '$' && i + 1 < tt.len() && map.contains_key(&tt[i + 1].to_string()) => {
                let a: Vec<TT> = map[&tt[i + 1].to_string()].clone().into_iter().collect();
                if a.len() == 1 {
                    v.extend(a);
                } else {
                    v.push(TT::Group(proc_macro2::Group::new(proc_macro2::Delimiter::None, a.into_iter().collect())));
                }
                i += 2;
                continue;
            }
            TT::Group(g) => v.push(TT::Group(proc_macro2::Group::new(g.delimiter(), subst_macro(g.stream(), map)))),
            t => v.push(t.clone()),
        }
        i += 1;
    }
    v.into_iter().collect()
}
/// Whether an expression has loops, and whether it returns from the function around it.
struct HasLoop(bool, bool);
impl<'a> Visit<'a> for HasLoop {
    fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {
        self.0 = true;
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.0 = true;
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.0 = true;
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.1 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.1 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
struct HasBreak(bool, usize);
impl<'a> Visit<'a> for HasBreak {
    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
        if self.1 == 0 {
            self.0 = true;
        }
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.1 += 1;
        syn::visit::visit_expr_loop(self, e);
        self.1 -= 1;
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.1 += 1;
        syn::visit::visit_expr_while(self, e);
        self.1 -= 1;
    }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.1 += 1;
        syn::visit::visit_expr_for_loop(self, e);
        self.1 -= 1;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

struct Idents {
    ids: BTreeSet<String>,
    mutated: BTreeSet<String>,
    called: BTreeSet<String>,
}
fn base_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => base_ident(&f.base),
        Expr::Unary(u) => base_ident(&u.expr),
        Expr::Paren(p) => base_ident(&p.expr),
        _ => None,
    }
}
impl<'a> Visit<'a> for Idents {
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.ids.insert(i.to_string());
        }
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.called.insert(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        if let Some(b) = base_ident(&a.left) {
            self.mutated.insert(b);
        }
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            if let Some(b) = base_ident(&b.left) {
                self.mutated.insert(b);
            }
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
        if r.mutability.is_some() {
            if let Some(b) = base_ident(&r.expr) {
                self.mutated.insert(b);
            }
        }
        syn::visit::visit_expr_reference(self, r);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        for t in m.tokens.clone() {
            ids_of(t, &mut self.ids);
        }
    }
}
pub fn ids_of(t: proc_macro2::TokenTree, s: &mut BTreeSet<String>) {
    match t {
        proc_macro2::TokenTree::Ident(i) => {
            s.insert(i.to_string());
        }
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().for_each(|t| ids_of(t, s)),
        _ => {}
    }
}
/// `A::lt` used as a comparator.
fn elem_op(p: &syn::Path) -> Option<(String, String)> {
    let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if v.len() == 2 && (v[0] == "A" || v[0] == "T" || v[0] == "PartialOrd") && v[1] == "lt" {
        return Some(("Less".into(), "OrdLt".into()));
    }
    None
}
fn strip_ref(e: &Expr) -> &Expr {
    match e {
        Expr::Reference(r) => strip_ref(&r.expr),
        Expr::Paren(r) => strip_ref(&r.expr),
        Expr::Group(r) => strip_ref(&r.expr),
        e => e,
    }
}
fn method_chain(m: &syn::ExprMethodCall) -> (&Expr, Vec<&syn::ExprMethodCall>) {
    let mut v = vec![m];
    let mut e = &*m.receiver;
    while let Expr::MethodCall(x) = e {
        v.push(x);
        e = &x.receiver;
    }
    v.reverse();
    (e, v)
}
fn expr_attrs(e: &Expr) -> Option<&Vec<syn::Attribute>> {
    Some(match e {
        Expr::Block(b) => &b.attrs,
        Expr::Unsafe(b) => &b.attrs,
        Expr::Call(b) => &b.attrs,
        Expr::If(b) => &b.attrs,
        Expr::MethodCall(b) => &b.attrs,
        Expr::Assign(b) => &b.attrs,
        Expr::Binary(b) => &b.attrs,
        Expr::Macro(b) => &b.attrs,
        _ => return None,
    })
}
fn paren(t: &str) -> String {
    if t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') || (t.starts_with('(') && t.ends_with(')') && balanced(t)) {
        t.to_string()
    } else {
        format!("({t})")
    }
}
fn balanced(t: &str) -> bool {
    let mut d = 0;
    for (i, c) in t.char_indices() {
        if c == '(' {
            d += 1
        }
        if c == ')' {
            d -= 1;
            if d == 0 && i + 1 != t.len() {
                return false;
            }
        }
    }
    true
}
fn mutref_arg(t: &str) -> String {
    if let Some(r) = t.strip_prefix("(*") {
        r.trim_end_matches(')').to_string()
    } else if t == "self_" {
        t.to_string()
    } else {
        format!("&mut {t}")
    }
}
pub fn heap_ty(h: &str) -> String {
    match h {
        "hp" => "Mem<T>".into(),
        "bp" => "Heap<T>".into(),
        "rp" => "Heap<merge_sort__TimSortRun>".into(),
        "om" => "Heap<u8>".into(),
        "sp" => "Slots".into(),
        h => h.into(),
    }
}
/// The one call a task of rayon::join consists of, looking through blocks and maybe_grow.
fn task_call(cr: &Crate, e: &Expr) -> Option<syn::ExprCall> {
    match e {
        Expr::Paren(p) => task_call(cr, &p.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, _) => task_call(cr, e),
            _ => None,
        },
        Expr::Unsafe(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, _) => task_call(cr, e),
            _ => None,
        },
        Expr::Call(c) => {
            if let (Expr::Path(p), Some(Expr::Closure(cl))) = (&*c.func, c.args.first()) {
                if p.path.is_ident("maybe_grow") && cl.inputs.is_empty() {
                    return if maybe_grow_ok(cr) { task_call(cr, &cl.body) } else { None };
                }
            }
            Some(c.clone())
        }
        _ => None,
    }
}
/// maybe_grow must do nothing but run its callback once (on a grown stack).
pub fn maybe_grow_ok(cr: &Crate) -> bool {
    match cr.fns.get("maybe_grow") {
        Some(f) => {
            let s = toks(&f.block).replace(' ', "");
            s.matches("callback").count() == 2 && s.contains("stacker::maybe_grow(") && s.contains(",callback)") && s.contains("callback()")
        }
        None => false,
    }
}
