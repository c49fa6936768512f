//! Mechanical extraction of /repo/src into Verus text.
//!
//! usage: extractor SRC_DIR KINDS_JSON OUT_JSON
//!
//! Parses every module of the crate, keeps the functions, Drop impls and structs listed in
//! KINDS_JSON (plus whatever they reach), and translates each body statement by statement.  What
//! the translation does is documented in /verif/DESIGN.md ("Extraction").
mod clean;
mod collect;
mod renames;
mod tr;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = &a[1];
    let kinds: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    // contracts name what the pinned tree calls it
    let pin: Value = std::fs::read_to_string(std::path::Path::new(&a[2]).with_file_name("sigs.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
    let mut maps = renames::Maps::default();
    let mut cr = collect::Crate::load(src, &kinds, &maps);
    let sigs = renames::sigs(&cr);
    for _ in 0..4 {
        if !maps.extend(&cr, &pin) {
            break;
        }
        cr = collect::Crate::load(src, &kinds, &maps);
    }
    cr.pin = pin;
    clean::run(&mut cr);
    cr.fixpoint_unwind();
    let mut out: BTreeMap<String, Value> = BTreeMap::new();
    let mut errs: BTreeMap<String, String> = BTreeMap::new();
    let names: Vec<String> = cr.fns.keys().cloned().collect();
    for n in names {
        if !cr.wanted(&n) {
            continue;
        }
        match tr::translate_fn(&cr, &n) {
            Ok(items) => {
                for it in items {
                    out.insert(it.path.clone(), it.to_json());
                }
            }
            Err(e) => {
                errs.insert(n.clone(), e);
            }
        }
    }
    let consts: Vec<Value> = cr
        .consts
        .iter()
        .filter_map(|(p, c)| tr::translate_const(&cr, p, c).ok().map(|t| json!({"path": p, "text": t})))
        .collect();
    let structs: Vec<Value> = cr.structs_json();
    let v = json!({"fns": out, "errors": errs, "consts": consts, "structs": structs, "sigs": sigs, "renamed": format!("{:?} {:?} {:?}", maps.items, maps.fields, maps.alias), "all_fns": cr.fns.keys().collect::<Vec<_>>()});
    std::fs::write(&a[3], serde_json::to_string_pretty(&v).unwrap()).unwrap();
}
