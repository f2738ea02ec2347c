//! C29: the order of the groups of an item. C30: groups that are left out.
use crate::catalog::*;
use crate::core::*;
use crate::corpus::*;
use crate::robust::{self, Base};
use crate::util::*;
use crate::wire::{encode, G};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// An item of a file: its groups, and which of them may be moved.
struct Span {
    /// type name
    name: String,
    /// ranges of groups under one subclass marker
    runs: Vec<(usize, usize)>,
    /// groups whose code the item has once
    free: BTreeSet<usize>,
}
/// Items in which the order carries meaning throughout: nested records, or groups of any code.
const ORDERED: [&str; 3] = ["TABLESTYLE", "SECTIONSETTINGS", "XRECORD"];
/// Groups that start or end a part of the item, so that the same code has another meaning before and after them
/// (sizes before raw data, counts before lists, first groups of list elements, marks between matrices).
const ANCHORED: [(&str, &[i32]); 8] = [
    ("ACAD_PROXY_ENTITY", &[92, 93]),
    ("FIELD", &[97, 330]),
    ("LWPOLYLINE", &[10, 20, 40, 41, 42, 91]),
    ("MATERIAL", &[465]),
    ("MLINESTYLE", &[71]),
    ("MTEXT", &[75]),
    ("SPATIAL_FILTER", &[10, 20, 30]),
    ("SUNSTUDY", &[73, 290]),
];
const STRUCTURE: [&str; 8] = ["SECTION", "ENDSEC", "EOF", "TABLE", "ENDTAB", "ENDBLK", "SEQEND", "THUMBNAILIMAGE"];
fn spans(gs: &[G]) -> Vec<Span> {
    let mut out = vec![];
    let zeros: Vec<usize> = (0..gs.len()).filter(|i| gs[*i].code == 0).collect();
    for (n, &a) in zeros.iter().enumerate() {
        let e = zeros.get(n + 1).copied().unwrap_or(gs.len());
        let name = gs[a].text();
        if STRUCTURE.contains(&name.as_str()) || ORDERED.contains(&name.as_str()) || (a + 1 < e && gs[a + 1].code == 9) {
            continue;
        }
        let mut runs = vec![];
        let mut start = a + 1;
        let mut braces = 0;
        let mut usable = BTreeSet::new();
        let mut i = a + 1;
        while i < e {
            let x = &gs[i];
            if x.code >= 1000 {
                break;
            }
            if x.code == 100 || x.code == 102 {
                if braces == 0 {
                    runs.push((start, i));
                }
                if x.code == 102 {
                    braces += if x.text().starts_with('{') { 1 } else { -1 };
                }
                start = i + 1;
            } else if braces == 0 {
                usable.insert(i);
            }
            i += 1;
        }
        runs.push((start, i));
        runs.retain(|r| r.0 < r.1 && usable.contains(&r.0));
        let fixed = ANCHORED.iter().find(|x| x.0 == name).map(|x| x.1).unwrap_or(&[]);
        let free = usable.iter().copied().filter(|i| !fixed.contains(&gs[*i].code)).filter(|i| gs[a + 1..e].iter().filter(|y| y.code == gs[*i].code).count() == 1).collect();
        out.push(Span { name, runs, free });
    }
    out
}
/// The parts of a header: where each variable starts and ends.
fn variables(gs: &[G]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < gs.len() {
        if gs[i].code == 9 {
            let e = i + 1 + gs[i + 1..].iter().position(|x| x.code == 9 || x.code == 0).unwrap();
            out.push((i, e));
            i = e;
        } else {
            i += 1;
        }
    }
    out
}
fn moved<T: Clone>(gs: &[T], from: (usize, usize), to: usize) -> Vec<T> {
    // the part goes before the group that was at `to`
    let mut o = Vec::with_capacity(gs.len());
    for i in 0..=gs.len() {
        if i == to {
            o.extend_from_slice(&gs[from.0..from.1]);
        }
        if i < gs.len() && !(from.0..from.1).contains(&i) {
            o.push(gs[i].clone());
        }
    }
    o
}
fn full_header(ver: usize) -> Vec<G> {
    let it = items(&[Kind::Header]).remove(0);
    let d = drawing_with(Kind::Header, &it.full, ver);
    trim_empty(&crate::wire::decode_text(&save(&d, false).unwrap()).unwrap())
}
fn bases() -> Vec<Base> {
    let mut v = robust::bases(1);
    v.retain(|b| b.key != "thumbnail");
    for ver in [9, 12, 14, 16] {
        v.push(Base { key: format!("header@{:?}", VERSIONS[ver]), gs: robust::header_file(ver), ver });
    }
    for ver in [12, 20] {
        v.push(Base { key: format!("header+@{:?}", VERSIONS[ver]), gs: full_header(ver), ver });
    }
    v
}
fn seen(d: &dxf::Drawing) -> Value {
    let mut v = snapshot(d);
    // values that depend on the clock when the file does not have them
    let mut x = v["header"].take();
    let mut a = types_of(Kind::Header).remove(0).1;
    crate::rt::mask_clock(&mut a, &mut x, 20);
    v["header"] = x;
    v
}
pub fn c29(c: &Ctx) -> i32 {
    let bs = bases();
    let moves = std::sync::atomic::AtomicU64::new(0);
    c.par(bs.len(), |n| {
        let b = &bs[n];
        c.begin(&b.key);
        let w = wide(b.ver);
        let plain = match guard(|| load(&encode(&b.gs, false, w))) {
            Ok(Ok(d)) => seen(&d),
            x => {
                c.fail(&b.key, &format!("does not load: {:?}", x.map(|r| r.map(|_| ()))), || Value::Null);
                return;
            }
        };
        let same = |gs: &[G], bin: bool| -> Option<String> {
            c.eval(1);
            moves.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let bytes = encode(gs, bin, w);
            match guard(|| load(&bytes)) {
                Err(p) => Some(format!("panic: {}", p)),
                Ok(Err(e)) => Some(e),
                Ok(Ok(d)) => {
                    let v = seen(&d);
                    if v == plain {
                        None
                    } else {
                        let mut o = vec![];
                        crate::gen::diff(&plain, &v, 0.0, "", &mut o);
                        Some(o.join("; "))
                    }
                }
            }
        };
        let judge = |key: &str, gs: &[G], bin: bool| {
            if c.skip(key) {
                return;
            }
            c.begin(key);
            if let Some(m) = same(gs, bin) {
                c.fail(key, &m, || json!({"file": robust::show(&encode(gs, bin, w))}));
            }
            c.distinct(key.as_bytes());
        };
        for sp in spans(&b.gs) {
            for r in &sp.runs {
                for i in r.0..r.1 {
                    if !sp.free.contains(&i) {
                        continue;
                    }
                    for to in r.0..=r.1 {
                        let near = to + 3 >= i && to <= i + 4 || to == r.0 || to == r.1;
                        if to == i || to == i + 1 || !near && !c.thorough {
                            continue;
                        }
                        let what = if to < i { format!("before {}", b.gs[to].code) } else { format!("after {}", b.gs[to - 1].code) };
                        let key = format!("{}: {} ({}) moved from {} to {} ({})", b.key, b.gs[i].code, sp.name, i, to, what);
                        let bin = (i + to) % 2 == 1;
                        judge(&key, &moved(&b.gs, (i, i + 1), to), bin);
                    }
                }
                // all groups that can be moved in the opposite order
                let mut gs = b.gs.clone();
                let f: Vec<usize> = (r.0..r.1).filter(|i| sp.free.contains(i)).collect();
                for (x, y) in f.iter().zip(f.iter().rev()) {
                    gs[*x] = b.gs[*y].clone();
                }
                for bin in [false, true] {
                    judge(&format!("{}: groups {} to {} ({}) reversed, {}", b.key, r.0, r.1, sp.name, enc(bin)), &gs, bin);
                }
            }
        }
        if b.key.starts_with("header") {
            let vs = variables(&b.gs);
            let (first, last) = (vs[0].0, vs[vs.len() - 1].1);
            for (k, v) in vs.iter().enumerate() {
                let name = b.gs[v.0].text();
                let places: Vec<usize> = if c.thorough {
                    (first..=last).filter(|p| vs.iter().any(|v| v.0 == *p) || *p == last).collect()
                } else {
                    vec![first, if k > 0 { vs[k - 1].0 } else { last }, last]
                };
                for to in places {
                    if to != v.0 && to != v.1 {
                        judge(&format!("{}: {} moved to {}", b.key, name, to), &moved(&b.gs, *v, to), k % 2 == 1);
                    }
                }
                // the parts of its value in the opposite order
                if v.1 - v.0 > 2 {
                    let mut gs = b.gs.clone();
                    gs[v.0 + 1..v.1].reverse();
                    judge(&format!("{}: {} reversed", b.key, name), &gs, false);
                }
            }
            let mut gs = b.gs[..first].to_vec();
            for v in vs.iter().rev() {
                gs.extend_from_slice(&b.gs[v.0..v.1]);
            }
            gs.extend_from_slice(&b.gs[last..]);
            for bin in [false, true] {
                judge(&format!("{}: all reversed, {}", b.key, enc(bin)), &gs, bin);
            }
        }
    });
    c.extra("files", json!(bs.len()));
    c.extra("orders_loaded", json!(moves.load(std::sync::atomic::Ordering::Relaxed)));
    c.sample(|| json!({"file": bs[0].key, "case": "each group of the item moved", "groups": bs[0].gs.len()}));
    c.finish(
        "exploration",
        "each file of a corpus covering every item type (oldest and newest version, default and every field set) and headers of six versions: every group of an item that has its code once is moved to each place nearby, to the front and to the end of the groups under its subclass marker (thorough: to every place), and all of them are put in the opposite order; every header variable is moved to the front, to the end and before its predecessor (thorough: everywhere), the parts of its value and all variables are reversed; text and binary. The loaded drawing has to be the same",
        &["order carries meaning throughout in table styles, section settings and extension records, and for sizes before raw data, counts before lists and first groups of list elements (listed in order.rs)"],
        true,
    )
}

/// Leaves at which two values differ: path, first, second.
fn leaves(a: &Value, b: &Value, path: &str, out: &mut Vec<(String, Value, Value)>) {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
            for (k, v) in x {
                leaves(v, &y[k], &format!("{}/{}", path, k), out);
            }
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                leaves(v, w, &format!("{}/{}", path, i), out);
            }
        }
        _ => {
            if a != b {
                out.push((path.into(), a.clone(), b.clone()));
            }
        }
    }
}
/// Entries that were added to other collections for the names an item has are left out on both sides.
fn without_added(a: &Value, b: &Value, own: &str) -> (Value, Value) {
    let (mut a, mut b) = (a.clone(), b.clone());
    for (k, x) in a.as_object_mut().unwrap() {
        if let (Value::Array(x), Some(Value::Array(y))) = (x, b.get_mut(k)) {
            if k != own {
                let names = |v: &[Value]| v.iter().map(|e| e["name"].clone().to_string()).collect::<BTreeSet<_>>();
                let both: BTreeSet<String> = names(x).intersection(&names(y)).cloned().collect();
                x.retain(|e| both.contains(&e["name"].to_string()));
                y.retain(|e| both.contains(&e["name"].to_string()));
                let n = x.len().min(y.len());
                x.truncate(n);
                y.truncate(n);
            }
        }
    }
    (a, b)
}
fn collection(k: Kind) -> &'static str {
    match k {
        Kind::Entity => "__entities",
        Kind::Object => "__objects",
        Kind::AppId => "__app_ids",
        Kind::BlockRecord => "__block_records",
        Kind::DimStyle => "__dim_styles",
        Kind::LineType => "__line_types",
        Kind::Layer => "__layers",
        Kind::Style => "__styles",
        Kind::Ucs => "__ucss",
        Kind::View => "__views",
        Kind::ViewPort => "__view_ports",
        Kind::Block => "__blocks",
        Kind::Class => "classes",
        Kind::Header => "header",
    }
}
/// The group of each item type that stands for more than one field, or decides what the item is.
const NOT_ONE_FIELD: [(&str, i32, &str); 6] = [
    ("LAYER", 62, "the sign of the colour says whether the layer is on"),
    ("DIMENSION", 70, "the type of dimension"),
    ("INSERT", 66, "whether attributes follow"),
    ("BLOCK", 2, "also names the block record"),
    ("LAYER_INDEX", 40, "the current time if absent"),
    ("SPATIAL_INDEX", 40, "the current time if absent"),
];
struct Defaults(BTreeMap<String, Value>);
impl Defaults {
    fn new() -> Defaults {
        let mut m = BTreeMap::new();
        for k in [Kind::Entity, Kind::Object] {
            for (n, v) in types_of(k) {
                m.insert(n, v);
            }
        }
        for k in ALL_KINDS.iter().filter(|k| ![Kind::Entity, Kind::Object].contains(k)).chain([&Kind::Header]) {
            let (_, mut v) = types_of(*k).remove(0);
            for f in ["name", "record_name"] {
                if v.get(f).is_some() {
                    v[f] = json!("");
                }
            }
            m.insert(collection(*k).into(), v);
        }
        m.values_mut().for_each(crate::gen::strip);
        Defaults(m)
    }
    /// The default of the value at a path of a drawing.
    fn at(&self, path: &str) -> Option<&Value> {
        let p: Vec<&str> = path.split('/').skip(1).collect();
        let rest = |n: usize| p[n..].iter().map(|x| format!("/{}", x)).collect::<String>();
        if p.len() < 2 {
            return None;
        }
        // the innermost item with a type of its own
        if let Some(n) = p.iter().rposition(|x| *x == "m_text") {
            return self.0["MText"]["specific"]["MText"].pointer(&rest(n + 1));
        }
        for (list, ty) in [("__attributes_and_handles", "Attribute"), ("__vertices_and_handles", "Vertex")] {
            if let Some(n) = p.iter().rposition(|x| *x == list) {
                if p.len() > n + 3 {
                    return self.0[ty]["specific"][ty].pointer(&rest(n + 3));
                }
            }
        }
        if let Some(n) = p.iter().rposition(|x| *x == "specific") {
            return self.0.get(*p.get(n + 1)?)?.pointer(&rest(n));
        }
        if let Some(n) = p.iter().rposition(|x| *x == "common") {
            return self.0[if p[0] == "__objects" { "PlaceHolder" } else { "Line" }].pointer(&rest(n));
        }
        if p[0] == "header" {
            return self.0["header"].pointer(&rest(1));
        }
        self.0.get(p[0])?.pointer(&rest(2.min(p.len())))
    }
}
pub fn c30(c: &Ctx) -> i32 {
    let defaults = Defaults::new();
    let its = items(&ALL_KINDS);
    let gt = gates(&its);
    let mut jobs: Vec<(Option<usize>, usize, bool)> = vec![];
    for (i, it) in its.iter().enumerate() {
        let hs = if c.thorough { (9..VERSIONS.len()).filter(|v| gt.get(&it.name).copied().unwrap_or(0) >> (2 * v) & 1 == 0).collect() } else { home(it, &gt) };
        for ver in hs {
            jobs.push((Some(i), ver, true));
            jobs.push((Some(i), ver, false));
        }
    }
    for ver in [9, 12, 14, 15, 17, 20] {
        jobs.push((None, ver, true));
        jobs.push((None, ver, false));
    }
    // differences that are not about what the file says
    let relevant = |plain: &Value, v: &Value, coll: &str| {
        let (plain, v) = without_added(plain, v, coll);
        let mut o = vec![];
        leaves(&plain, &v, "", &mut o);
        o.retain(|x| !(x.0.ends_with("/handle") || x.0.ends_with("next_available_handle")));
        o
    };
    // a variable of the header may be a point
    let fields = |o: &[(String, Value, Value)]| o.iter().map(|x| if x.0.starts_with("/header/") { x.0.split('/').nth(2).unwrap_or("").to_string() } else { x.0.clone() }).collect::<BTreeSet<_>>().len();
    let show = |o: &[(String, Value, Value)]| o.iter().take(4).map(|x| format!("{}: {} -> {} (default {})", x.0, x.1, x.2, defaults.at(&x.0).unwrap_or(&Value::Null))).collect::<Vec<_>>().join("; ");
    c.par(jobs.len(), |n| {
        let (i, ver, full) = jobs[n];
        let w = wide(ver);
        let (name, kind) = match i {
            Some(i) => (its[i].name.as_str(), its[i].kind),
            None => ("header", Kind::Header),
        };
        let base = format!("{}{}@{:?}", name, if full { "+" } else { "" }, VERSIONS[ver]);
        c.begin(&base);
        let made = guard(|| match i {
            Some(i) => small_file(kind, if full { &its[i].full } else { &its[i].default }, ver),
            None if full => full_header(ver),
            None => robust::header_file(ver),
        });
        let Ok(gs) = made else { return };
        let read = |gs: &[G], bin: bool| guard(|| load(&encode(gs, bin, w)).map(|d| seen(&d))).unwrap_or_else(|p| Err(format!("panic: {}", p)));
        let plain = match read(&gs, false) {
            Ok(p) => p,
            Err(e) => {
                c.fail(&base, &e, || Value::Null);
                return;
            }
        };
        let coll = collection(kind);
        // what can be left out: (name, code, groups)
        let mut parts: Vec<(String, i32, (usize, usize))> = vec![];
        if kind == Kind::Header {
            for v in variables(&gs) {
                parts.push((gs[v.0].text(), 9, v));
            }
        } else {
            let own: &[&str] = match kind {
                Kind::Entity | Kind::Object => &[],
                Kind::AppId => &["APPID"],
                Kind::BlockRecord => &["BLOCK_RECORD"],
                Kind::DimStyle => &["DIMSTYLE"],
                Kind::LineType => &["LTYPE"],
                Kind::Layer => &["LAYER"],
                Kind::Style => &["STYLE"],
                Kind::Ucs => &["UCS"],
                Kind::View => &["VIEW"],
                Kind::ViewPort => &["VPORT"],
                Kind::Block => &["BLOCK"],
                Kind::Class => &["CLASS", "N0"],
                Kind::Header => &[],
            };
            let tables = ["APPID", "BLOCK_RECORD", "DIMSTYLE", "LTYPE", "LAYER", "STYLE", "UCS", "VIEW", "VPORT"];
            for sp in spans(&gs) {
                if own.is_empty() && (tables.contains(&sp.name.as_str()) || kind == Kind::Entity && sp.name == "MLINESTYLE") {
                    continue;
                }
                if !own.is_empty() && tables.contains(&sp.name.as_str()) && !own.contains(&sp.name.as_str()) {
                    continue;
                }
                for &i in &sp.free {
                    let code = gs[i].code;
                    if ![5, 105].contains(&code) && !NOT_ONE_FIELD.iter().any(|x| x.0 == sp.name && x.1 == code) {
                        parts.push((sp.name.clone(), code, (i, i + 1)));
                    }
                }
            }
        }
        let drop: BTreeSet<usize> = parts.iter().flat_map(|p| p.2 .0..p.2 .1).collect();
        let keep = |k: Option<(usize, usize)>| -> Vec<G> { (0..gs.len()).filter(|i| !drop.contains(i) || k.map(|k| (k.0..k.1).contains(i)).unwrap_or(false)).map(|i| gs[i].clone()).collect() };
        let bare = match read(&keep(None), false) {
            Ok(b) => b,
            Err(e) => {
                c.fail(&format!("{}: without any of its groups", base), &e, || json!({"file": robust::show(&encode(&keep(None), false, w))}));
                return;
            }
        };
        for (name, code, r) in &parts {
            let what = if *code == 9 { name.clone() } else { format!("{} of {}", code, name) };
            for bin in [false, true] {
                let key = format!("{}: {} left out, {}", base, what, enc(bin));
                if !c.skip(&key) {
                    c.begin(&key);
                    c.eval(1);
                    c.distinct(key.as_bytes());
                    let mut g2 = gs.clone();
                    g2.drain(r.0..r.1);
                    let bad = match read(&g2, bin) {
                        Err(e) => Some(e),
                        Ok(v) => {
                            let o = relevant(&plain, &v, coll);
                            let wrong = fields(&o) > 1 || o.iter().any(|x| !x.0.starts_with(&format!("/{}/", coll)) || defaults.at(&x.0) != Some(&x.2));
                            wrong.then(|| show(&o))
                        }
                    };
                    if let Some(m) = bad {
                        c.fail(&key, &m, || json!({"file": robust::show(&encode(&g2, bin, w))}));
                    }
                }
                let key = format!("{}: only {}, {}", base, what, enc(bin));
                if !c.skip(&key) {
                    c.begin(&key);
                    c.eval(1);
                    c.distinct(key.as_bytes());
                    let g2 = keep(Some(*r));
                    let bad = match read(&g2, bin) {
                        Err(e) => Some(e),
                        Ok(v) => {
                            let o = relevant(&bare, &v, coll);
                            let wrong = fields(&o) > 1 || o.iter().any(|x| !x.0.starts_with(&format!("/{}/", coll)) || plain.pointer(&x.0) != Some(&x.2));
                            wrong.then(|| show(&o))
                        }
                    };
                    if let Some(m) = bad {
                        c.fail(&key, &m, || json!({"file": robust::show(&encode(&g2, bin, w))}));
                    }
                }
            }
        }
    });
    c.extra("files", json!(jobs.len()));
    c.sample(|| json!({"file": "Circle+@R2018", "case": "40 of CIRCLE left out: radius is its default, everything else as before"}));
    c.sample(|| json!({"file": "Circle+@R2018", "case": "only 40 of CIRCLE: radius as given, everything else its default"}));
    c.finish(
        "exploration",
        "every item type (first and newest version that have it; thorough: all versions), default and every field set, and headers of six versions: each group that the item has once is left out, and is the only one left, in text and binary. Exactly the field it stands for has to change, to its default or to the value given; everything else in the drawing stays",
        &["groups standing for more than one field or deciding the type are excluded and listed with the reason in order.rs", "groups that repeat (lists) are left in place"],
        true,
    )
}
fn no_handles(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.remove("handle");
            m.values_mut().for_each(no_handles);
        }
        Value::Array(a) => a.iter_mut().for_each(no_handles),
        _ => (),
    }
}
/// What files call their version, and the version that is.
const NAMES: [(&str, &str); 25] = [
    ("MC0.0", "Version_1_0"),
    ("AC1.2", "Version_1_2"),
    ("AC1.40", "Version_1_40"),
    ("AC1.50", "Version_2_05"),
    ("AC2.10", "Version_2_10"),
    ("AC2.21", "Version_2_21"),
    ("AC2.22", "Version_2_22"),
    ("AC1001", "Version_2_22"),
    ("AC1002", "Version_2_5"),
    ("AC1003", "Version_2_6"),
    ("AC1004", "R9"),
    ("AC1006", "R10"),
    ("AC1009", "R12"),
    ("AC1011", "R13"),
    ("AC1012", "R13"),
    ("AC1013", "R14"),
    ("AC1014", "R14"),
    ("AC1015", "R2000"),
    ("AC1018", "R2004"),
    ("AC1021", "R2007"),
    ("AC1024", "R2010"),
    ("AC1027", "R2013"),
    ("AC1032", "R2018"),
    ("AC9999", "R12"),
    ("", "R12"),
];
pub fn c31(c: &Ctx) -> i32 {
    let mut bs = bases();
    bs.push(Base { key: "thumbnail".into(), gs: robust::thumb(15), ver: 15 });
    bs.retain(|b| !b.key.starts_with("Class")); // classes are laid out differently up to R13
    c.par(bs.len(), |n| {
        let b = &bs[n];
        let w = wide(b.ver);
        c.begin(&b.key);
        let read = |gs: &[G], bin: bool, w: bool| guard(|| load(&encode(gs, bin, w)).map(|d| seen(&d))).unwrap_or_else(|p| Err(format!("panic: {}", p)));
        let plain = match read(&b.gs, false, w) {
            Ok(p) => p,
            Err(e) => {
                c.fail(&b.key, &e, || Value::Null);
                return;
            }
        };
        let Some(at) = (1..b.gs.len()).find(|i| b.gs[*i - 1].is(9, "$ACADVER")) else {
            c.fail(&b.key, "names no version", || Value::Null);
            return;
        };
        let judge = |key: &str, gs: &[G], bin: bool, wide: bool, version: Option<&str>, keep_header: bool| {
            if c.skip(key) {
                return;
            }
            c.begin(key);
            c.eval(1);
            c.distinct(key.as_bytes());
            let bad = match read(gs, bin, wide) {
                Err(e) => Some(e),
                Ok(mut v) => {
                    let got = v["header"]["version"].take();
                    let mut p = plain.clone();
                    p["header"]["version"] = Value::Null;
                    if !keep_header {
                        v["header"] = Value::Null;
                        p["header"] = Value::Null;
                        // items without handles get the first free ones
                        no_handles(&mut v);
                        no_handles(&mut p);
                    }
                    let mut o = vec![];
                    crate::gen::diff(&p, &v, 0.0, "", &mut o);
                    if let Some(x) = version {
                        if got != x {
                            o.push(format!("version {} instead of {}", got, x));
                        }
                    }
                    (!o.is_empty()).then(|| o.join("; "))
                }
            };
            if let Some(m) = bad {
                c.fail(key, &m, || json!({"file": robust::show(&encode(gs, bin, wide))}));
            }
        };
        for (name, version) in NAMES {
            let mut gs = b.gs.clone();
            gs[at] = crate::wire::s(1, name);
            let sure = !["AC1001", "AC1011", "AC1013"].contains(&name);
            judge(&format!("{}: as {:?}, text", b.key, name), &gs, false, w, sure.then_some(version), true);
            // the width of codes in a binary file is recognized by itself
            for wide in [false, true] {
                judge(&format!("{}: as {:?}, binary {}", b.key, name, wide), &gs, true, wide, sure.then_some(version), true);
            }
        }
        let mut gs = b.gs.clone();
        gs.drain(at - 1..=at);
        judge(&format!("{}: naming no version", b.key), &gs, false, w, None, true);
        let (x, y) = (0, b.gs.iter().position(|g| g.is(0, "ENDSEC")).unwrap());
        let mut gs = b.gs.clone();
        gs.drain(x..=y);
        judge(&format!("{}: no header", b.key), &gs, false, w, None, false);
    });
    c.extra("files", json!(bs.len()));
    c.sample(|| json!({"file": bs[0].key, "as": NAMES[5].0}));
    c.finish(
        "exploration",
        "each file of a corpus covering every item type but classes (oldest and newest version, default and every field set) and headers of six versions, with each of 25 version names in place of its own, with none, and without a header; in text, and in binary with codes of one and of two bytes. Everything but the version of the header has to be the same",
        &["texts are ASCII (what other characters are depends on the version; C06)", "the layout of classes depends on the version"],
        true,
    )
}
