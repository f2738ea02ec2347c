//! Drawings and files covering every item type.
use crate::catalog::*;
use crate::gen;
use crate::rt;
use crate::util::*;
use crate::wire::{self, G};
use dxf::*;
use serde_json::Value;
use std::collections::BTreeMap;

pub struct Item {
    pub kind: Kind,
    pub name: String,
    pub default: Value,
    /// every field set to something else than its default
    pub full: Value,
}
pub fn items(kinds: &[Kind]) -> Vec<Item> {
    rt::tables(kinds)
        .into_iter()
        .map(|t| {
            let mut by: BTreeMap<String, Vec<usize>> = BTreeMap::new();
            for (j, a) in t.alts.iter().enumerate() {
                by.entry(rt::json_path(&a.field)).or_default().push(j);
            }
            let mut full = t.default.clone();
            for (p, v) in &by {
                if p.contains("__owner_handle") || (t.kind == Kind::Header && (p.contains("version") || p.contains("handle"))) {
                    continue;
                }
                let a = &t.alts[v[(v.len() - 1).min(3)]];
                full = gen::merge(&t.default, &full, &a.value);
            }
            make_distinct(&mut full, &mut 0);
            rt::fixup(&mut full);
            Item { kind: t.kind, name: t.name, default: t.default, full }
        })
        .collect()
}
/// Gives numbers and texts that stand for any value different ones, so that a mix-up of two fields shows.
fn make_distinct(v: &mut Value, n: &mut usize) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                if k != "x_data" && k != "extension_data_groups" {
                    make_distinct(x, n);
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| make_distinct(x, n)),
        Value::Number(x) if x.as_f64() == Some(123456.789) => {
            *n += 1;
            *v = serde_json::json!(100000.5 + 16.25 * *n as f64);
        }
        Value::String(x) if x == "two words" => {
            *n += 1;
            *v = serde_json::json!(format!("two words {}", n));
        }
        _ => (),
    }
}
pub const ALL_KINDS: [Kind; 13] = [
    Kind::Entity,
    Kind::Object,
    Kind::AppId,
    Kind::BlockRecord,
    Kind::DimStyle,
    Kind::LineType,
    Kind::Layer,
    Kind::Style,
    Kind::Ucs,
    Kind::View,
    Kind::ViewPort,
    Kind::Block,
    Kind::Class,
];
pub fn wide(ver: usize) -> bool {
    ver >= 13
}
pub fn drawing_with(k: Kind, v: &Value, ver: usize) -> Drawing {
    let mut d = empty_drawing(VERSIONS[ver]);
    put(k, &mut d, v).unwrap();
    d
}
pub fn decode(b: &[u8], bin: bool, ver: usize) -> Result<Vec<G>, String> {
    if bin {
        wire::decode_binary(b, wide(ver))
    } else {
        wire::decode_text(b)
    }
}
/// Keeps only the version and the handle seed in the header.
pub fn trim_header(gs: &[G]) -> Vec<G> {
    let mut out = vec![];
    let mut in_header = false;
    let mut keep = true;
    for (i, x) in gs.iter().enumerate() {
        if x.is(2, "HEADER") && i > 0 && gs[i - 1].is(0, "SECTION") {
            in_header = true;
        }
        if x.is(0, "ENDSEC") {
            in_header = false;
            keep = true;
        }
        if in_header && x.code == 9 {
            keep = x.is(9, "$ACADVER") || x.is(9, "$HANDSEED");
        }
        if keep {
            out.push(x.clone());
        }
    }
    out
}
/// Drops tables that hold no entries, and empty sections.
pub fn trim_empty(gs: &[G]) -> Vec<G> {
    let mut out: Vec<G> = vec![];
    let mut i = 0;
    while i < gs.len() {
        if gs[i].is(0, "TABLE") {
            let e = i + gs[i..].iter().position(|x| x.is(0, "ENDTAB")).unwrap();
            if !gs[i + 1..e].iter().any(|x| x.code == 0) {
                i = e + 1;
                continue;
            }
        }
        if gs[i].is(0, "SECTION") && gs.get(i + 2).map(|x| x.is(0, "ENDSEC")).unwrap_or(false) {
            i += 3;
            continue;
        }
        out.push(gs[i].clone());
        i += 1;
    }
    // sections that became empty
    let mut o2: Vec<G> = vec![];
    let mut i = 0;
    while i < out.len() {
        if out[i].is(0, "SECTION") && out.get(i + 2).map(|x| x.is(0, "ENDSEC")).unwrap_or(false) {
            i += 3;
            continue;
        }
        o2.push(out[i].clone());
        i += 1;
    }
    o2
}
/// The groups of a small valid file that holds the item.
pub fn small_file(k: Kind, v: &Value, ver: usize) -> Vec<G> {
    let d = drawing_with(k, v, ver);
    let b = save(&d, false).unwrap();
    let gs = wire::decode_text(&b).unwrap();
    trim_empty(&trim_header(&gs))
}
/// A drawing with one of everything.
pub fn mixed(ver: usize, full: bool, pick: impl Fn(&Item) -> bool) -> Drawing {
    let mut d = empty_drawing(VERSIONS[ver]);
    for it in items(&ALL_KINDS) {
        if pick(&it) {
            let mut v = if full { it.full.clone() } else { it.default.clone() };
            if it.kind == Kind::ViewPort && ver >= 17 {
                // what this flag stands for does not survive two cycles there: a known finding with a case of its own (C05)
                v["has_own_ucs"] = serde_json::json!(false);
            }
            put(it.kind, &mut d, &v).unwrap();
        }
    }
    d
}
/// The first version that has the type, and the newest.
pub fn home(it: &Item, gates: &BTreeMap<String, u64>) -> Vec<usize> {
    let g = gates.get(&it.name).copied().unwrap_or(0);
    let v: Vec<usize> = (9..VERSIONS.len()).filter(|v| g >> (2 * v) & 1 == 0).collect();
    let mut out = vec![];
    if let Some(a) = v.first() {
        out.push(*a);
    }
    if let Some(b) = v.last() {
        if !out.contains(b) {
            out.push(*b);
        }
    }
    out
}
/// Versions (bit 2*version) that do not have the type, found by saving it and looking for its name in the file.
pub fn gates(its: &[Item]) -> BTreeMap<String, u64> {
    let mut out = BTreeMap::new();
    for it in its {
        let mut g = 0u64;
        for ver in 0..VERSIONS.len() {
            let n = crate::core::guard(|| {
                let d = drawing_with(it.kind, &it.default, ver);
                load(&save(&d, false).unwrap()).map(|d| get(it.kind, &d).len()).unwrap_or(0)
            })
            .unwrap_or(0);
            if n == 0 {
                g |= 3 << (2 * ver);
            }
        }
        out.insert(it.name.clone(), g);
    }
    out
}
/// Everything observable about a drawing, as JSON (thumbnail by size and pixels).
pub fn snapshot(d: &Drawing) -> Value {
    let mut v = serde_json::to_value(d).unwrap();
    gen::strip_keep_top(&mut v);
    if let Some(t) = &d.thumbnail {
        let r = t.to_rgb8();
        v["thumbnail"] = serde_json::json!({"w": r.width(), "h": r.height(), "px": crate::core::hash64(r.as_raw())});
    }
    v
}
