//! C01-C05: every field of every item type survives save and load.
use crate::catalog::*;
use crate::core::*;
use crate::gen;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Mutex;

pub struct Alt {
    pub label: String,
    pub field: String,
    pub value: Value,
}
pub struct Ty {
    pub kind: Kind,
    pub name: String,
    pub default: Value,
    pub alts: Vec<Alt>,
}
/// Keeps fields that the writer derives from others consistent with them.
pub fn fixup(v: &mut Value) {
    if let Value::Object(m) = v {
        for (count, list) in [("column_count", "column_heights"), ("clipping_vertex_count", "clipping_vertices"), ("vertex_count", "vertices")] {
            if m.contains_key(count) {
                if let Some(Value::Array(a)) = m.get(list) {
                    let n = a.len();
                    m.insert(count.into(), json!(n));
                }
            }
        }
        if m.contains_key("row_count") && m.contains_key("column_names") && m.contains_key("values") {
            // a data table has as many rows and columns as there are values; no cell of a column is empty
            let rows: Vec<usize> = m["values"].as_array().unwrap().iter().map(|r| r.as_array().unwrap().len()).collect();
            let cols = rows.iter().copied().max().unwrap_or(0).max(m["column_names"].as_array().unwrap().len());
            m.insert("row_count".into(), json!(rows.len()));
            m.insert("column_count".into(), json!(cols));
            let names = m["column_names"].as_array_mut().unwrap();
            while names.len() < cols {
                names.push(json!(format!("C{}", names.len())));
            }
        }
        if m.contains_key("segment_directions") && m.contains_key("miter_directions") {
            // a multi-line has as many segment and miter directions as vertices
            let n = ["vertices", "segment_directions", "miter_directions"].iter().map(|k| m[*k].as_array().map(|a| a.len()).unwrap_or(0)).max().unwrap();
            for (j, k) in ["vertices", "segment_directions", "miter_directions"].iter().enumerate() {
                let mut a = m[*k].as_array().cloned().unwrap();
                while a.len() < n {
                    let q = (10 * j + a.len()) as f64;
                    a.push(json!({"x": q + 0.5, "y": q + 0.25, "z": q}));
                }
                m.insert(k.to_string(), Value::Array(a));
            }
        }
        for (_, x) in m.iter_mut() {
            fixup(x);
        }
    } else if let Value::Array(a) = v {
        a.iter_mut().for_each(fixup);
    }
}
pub fn tables(kinds: &[Kind]) -> Vec<Ty> {
    let mut out = vec![];
    for &k in kinds {
        let s = shape_of(k);
        for (name, default) in types_of(k) {
            let mut alts = vec![];
            for (label, mut value) in gen::alternatives(&s, "", &default) {
                fixup(&mut value);
                if value == default {
                    continue;
                }
                let field = label.split('=').next().unwrap().to_string();
                alts.push(Alt { label, field, value });
            }
            out.push(Ty { kind: k, name, default, alts });
        }
    }
    // vertices and attributes with default fields, as children
    for (parent, list, child) in [("Insert", "__attributes_and_handles", "Attribute"), ("Polyline", "__vertices_and_handles", "Vertex")] {
        let Some(c) = out.iter().find(|t| t.kind == Kind::Entity && t.name == child) else { continue };
        let p = out.iter().find(|t| t.kind == Kind::Entity && t.name == parent).unwrap();
        let with = |v: &Value| {
            let mut d = p.default.clone();
            d["specific"][parent][list] = json!([[v["specific"][child], 0x31]]);
            d
        };
        let default = with(&c.default);
        let pre = format!(".specific::{}", child);
        let alts = c
            .alts
            .iter()
            .filter(|a| a.field.starts_with(&pre))
            .map(|a| Alt {
                label: format!(".specific::{}.{}[0][0]{}", parent, list, &a.label[pre.len()..]),
                field: format!(".specific::{}.{}[0][0]{}", parent, list, &a.field[pre.len()..]),
                value: with(&a.value),
            })
            .collect();
        out.push(Ty { kind: Kind::Entity, name: format!("{}.{}", parent, child), default, alts });
    }
    out
}
/// Header values that depend on the clock or on randomness when the file does not have them; R11 and R12 share a version name.
pub fn mask_clock(a: &mut Value, c: &mut Value, ver: usize) {
    let pin = types_of(Kind::Header).remove(0).1;
    let now = &NOW.with(|n| n.clone());
    for (f, p) in pin.as_object().unwrap() {
        let Some(x) = c[f].as_str().map(|s| s.to_string()) else { continue };
        let x = x.as_str();
        let guid = f.ends_with("_guid") && !GUIDS.contains(&x);
        let date = x.len() >= 20 && x.as_bytes()[4] == b'-' && &x[..10] >= now.as_str();
        if (guid || date) && a[f] == *p {
            c[f] = p.clone();
        }
        if f == "is_x_ref_clipping_boundary_visible" && (16..=17).contains(&ver) && a[f] == "DisplayedNotPlotted" && x == "DisplayedAndPlotted" {
            // R2004 and R2007 only have on and off
            c[f] = a[f].clone();
            continue;
        }
        if f == "version" && x == "R12" && a[f] == "R11" {
            c[f] = "R11".into();
        }
    }
}
const GUIDS: [&str; 3] = ["01234567-89ab-cdef-0123-456789abcdef", "00000000-0000-0000-0000-000000000000", "fedcba98-7654-3210-0123-456789abcdef"];
thread_local! {
    /// yesterday (a default date is never before it; the test dates are)
    static NOW: String = {
        let h = dxf::Header::default();
        let y: i32 = h.creation_date.format("%Y").to_string().parse().unwrap();
        format!("{}", y - 1)
    };
}
/// Saves a drawing holding the item, loads it back; the differences.
pub fn round_trip(k: Kind, v: &Value, ver: usize, bin: bool) -> Vec<String> {
    round_trip_with(k, v, ver, bin, &|_| ())
}
/// The same, with something done to what is compared.
pub fn round_trip_with(k: Kind, v: &Value, ver: usize, bin: bool, same: &dyn Fn(&mut Value)) -> Vec<String> {
    let r = guard(|| -> Result<Vec<String>, String> {
        let mut d = empty_drawing(VERSIONS[ver]);
        put(k, &mut d, v).map_err(|e| format!("HARNESS {}", e))?;
        let mut a = get(k, &d);
        let b = save(&d, bin)?;
        let d2 = load(&b)?;
        let mut c = get(k, &d2);
        for x in a.iter_mut().chain(c.iter_mut()) {
            gen::strip(x);
            // an insert without attributes has no end marker
            if let Some(Value::Object(m)) = x.pointer_mut("/specific/Insert") {
                if m["__attributes_and_handles"].as_array().map(|a| a.is_empty()).unwrap_or(false) {
                    m.remove("__seqend_handle");
                }
            }
        }
        if k == Kind::Block && ver <= 12 {
            // blocks have no handles there
            a.iter_mut().chain(c.iter_mut()).for_each(|x| x["handle"] = json!(0));
        }
        if k == Kind::Header {
            mask_clock(&mut a[0], &mut c[0], ver);
        }
        a.iter_mut().chain(c.iter_mut()).for_each(same);
        let mut out = vec![];
        if a.len() != c.len() {
            out.push(format!("count {} -> {}", a.len(), c.len()));
            return Ok(out);
        }
        for (x, y) in a.iter().zip(&c) {
            gen::diff(x, y, if bin { 0.0 } else { 1e-12 }, "", &mut out);
        }
        Ok(out)
    });
    match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => vec![e],
        Err(p) => vec![p],
    }
}
/// The JSON path (up to the first list index) that a field label names.
pub fn json_path(field: &str) -> String {
    let p = field.replace("::", ".").replace(['?', '!'], "");
    p.split(['[', '{']).next().unwrap().to_string()
}
fn within(field: &str, diffs: &[String]) -> bool {
    let p = json_path(field);
    diffs.iter().all(|d| d.starts_with(&p))
}

pub struct Exceptions {
    /// (kind/type, label) -> (versions and encodings in which the case does not survive, other fields change too)
    pub m: BTreeMap<(String, String), (u64, bool, String)>,
}
pub fn load_exceptions(c: &Ctx) -> Exceptions {
    let mut m = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(c.verif.join(format!("golden/{}.tsv", c.prop))) {
        for l in t.lines() {
            if l.starts_with('#') || l.is_empty() {
                continue;
            }
            let f: Vec<&str> = l.split('\t').collect();
            m.insert((f[0].to_string(), f[1].to_string()), (u64::from_str_radix(f[2], 16).unwrap(), f[3] == "c", f.get(4).unwrap_or(&"").to_string()));
        }
    }
    Exceptions { m }
}
fn bit(ver: usize, bin: bool) -> u64 {
    1 << (ver * 2 + bin as usize)
}
pub fn versions(c: &Ctx) -> Vec<usize> {
    if c.thorough {
        (0..VERSIONS.len()).collect()
    } else {
        (9..VERSIONS.len()).collect()
    }
}

pub fn run(c: &Ctx, kinds: &[Kind]) -> i32 {
    explore(c, kinds);
    if kinds.contains(&Kind::Entity) {
        polyline_kinds(c);
    }
    c.finish(
        "exploration",
        RULE,
        &["cases listed in golden/<property>.tsv are outside what the format or version can carry (or are known findings), each with the versions concerned"],
        true,
    )
}
/// Polylines of every kind with vertices of every kind and every choice of mesh indexes that fit together.
fn polyline_kinds(c: &Ctx) {
    use dxf::entities::{Entity, EntityType, Polyline, Vertex};
    c.par(256 * 4, |n| {
        let (pf, ver, bin) = (n / 4, [20, 12][n % 4 / 2], n % 2 == 1);
        let key = format!("polyline of flags {}@{:?}/{}", pf, VERSIONS[ver], enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(1);
        c.distinct(key.as_bytes());
        let mut d = empty_drawing(VERSIONS[ver]);
        let mut p = Polyline { flags: pf as i32, ..Default::default() };
        let mut all = vec![];
        for f in 0..256 {
            for ix in 0..16 {
                let fits = (f & 32 != 0) == (pf & 8 != 0) && (ix != 0 || (f & 64 != 0) == (pf & 16 != 0));
                if !fits {
                    continue;
                }
                let at = |b: i32, v: i32| if ix & b != 0 { v } else { 0 };
                let v = Vertex { location: dxf::Point::new(f as f64, ix as f64, 0.0), flags: f, polyface_mesh_vertex_index1: at(1, 1), polyface_mesh_vertex_index2: at(2, -2), polyface_mesh_vertex_index3: at(4, 3), polyface_mesh_vertex_index4: at(8, -4), ..Default::default() };
                p.add_vertex(&mut d, v.clone());
                all.push(v);
            }
        }
        d.add_entity(Entity::new(EntityType::Polyline(p)));
        let r = save(&d, bin).and_then(|b| load(&b)).and_then(|l| match l.entities().next().map(|e| e.specific.clone()) {
            Some(EntityType::Polyline(q)) => {
                let got: Vec<Vertex> = q.vertices().cloned().collect();
                if q.flags != pf as i32 || got.len() != all.len() {
                    return Err(format!("flags {} -> {}, {} of {} vertices", pf, q.flags, got.len(), all.len()));
                }
                let ids = |v: &Vertex| [v.flags, v.polyface_mesh_vertex_index1, v.polyface_mesh_vertex_index2, v.polyface_mesh_vertex_index3, v.polyface_mesh_vertex_index4];
                match all.iter().zip(&got).find(|(a, b)| ids(a) != ids(b) || a.location != b.location) {
                    Some((a, b)) => Err(format!("vertex flags and indexes {:?} -> {:?}", ids(a), ids(b))),
                    None => Ok(()),
                }
            }
            _ => Err("no polyline".into()),
        });
        if let Err(e) = r {
            c.fail(&key, &e, || json!({"flags": pf, "version": format!("{:?}", VERSIONS[ver]), "encoding": enc(bin)}));
        }
        c.end();
    });
}
pub const RULE: &str = "every item type: its default, every single-field deviation over a per-type value domain (x every version x text and binary), every pair of fields at selected versions, and all fields at once; a case is non-trivial if it deviates from the default and came back equal; distinct by type and deviation";
pub fn explore(c: &Ctx, kinds: &[Kind]) {
    let mut tys = tables(kinds);
    // the contents of blocks are explored as entities (C01, C05)
    tys.iter_mut().filter(|t| t.kind == Kind::Block).for_each(|t| t.alts.retain(|a| !a.field.starts_with(".entities")));
    let ex = load_exceptions(c);
    let update = std::env::var("MC_UPDATE").is_ok();
    let new: Mutex<BTreeMap<(String, String), (u64, bool, String)>> = Mutex::new(BTreeMap::new());
    let vers = versions(c);
    let id = |t: &Ty| t.name.clone();
    let get_ex = |t: &str, l: &str| ex.m.get(&(t.to_string(), l.to_string()));
    let record = |t: &Ty, label: &str, b: u64, coll: bool, why: &str| {
        let mut n = new.lock().unwrap();
        let e = n.entry((id(t), label.to_string())).or_insert((0, false, why.chars().take(90).collect()));
        e.0 |= b;
        e.1 |= coll;
    };
    // ---- level 0/1: the default and every single deviation, in every version and encoding
    let jobs: Vec<(usize, usize)> = tys.iter().enumerate().flat_map(|(i, t)| (0..t.alts.len() + 1).map(move |j| (i, j))).collect();
    let gate: Vec<u64> = if update {
        tys.iter()
            .map(|t| {
                let mut g = 0;
                for &ver in &vers {
                    for bin in [false, true] {
                        let d = round_trip(t.kind, &t.default, ver, bin);
                        if d.first().map(|x| x == "count 1 -> 0").unwrap_or(false) {
                            g |= bit(ver, bin);
                        }
                    }
                }
                g
            })
            .collect()
    } else {
        tys.iter().map(|t| get_ex(&id(t), "gate").map(|e| e.0).unwrap_or(0)).collect()
    };
    let check = |t: &Ty, ti: usize, label: &str, field: &str, v: &Value, ver: usize, bin: bool, expect_lost: u64, coll: bool| -> bool {
        let key = format!("{}/{}@{:?}/{}", t.name, label, VERSIONS[ver], enc(bin));
        if c.skip(&key) {
            return true;
        }
        c.begin(&key);
        c.eval(1);
        let d = round_trip(t.kind, v, ver, bin);
        if d.is_empty() {
            return true;
        }
        let b = bit(ver, bin);
        if gate[ti] & b != 0 && d[0] == "count 1 -> 0" {
            // the version has no such type: it must just be left out
            return false;
        }
        if update {
            record(t, label, b, !within(field, &d), &d[0]);
            return false;
        }
        let ok = expect_lost & b != 0 && (coll || within(field, &d));
        if !ok {
            c.fail(&key, &d.join("; "), || json!({"item": v, "version": format!("{:?}", VERSIONS[ver]), "encoding": enc(bin), "differences": d}));
        }
        false
    };
    c.par(jobs.len(), |n| {
        let (i, j) = jobs[n];
        let t = &tys[i];
        let (label, field, v) = if j == 0 { ("default", ".", &t.default) } else { (t.alts[j - 1].label.as_str(), t.alts[j - 1].field.as_str(), &t.alts[j - 1].value) };
        let e = get_ex(&id(t), label);
        let (lost, coll) = e.map(|e| (e.0, e.1)).unwrap_or((0, false));
        let mut any = false;
        for &ver in &vers {
            for bin in [false, true] {
                any |= check(t, i, label, field, v, ver, bin, lost, coll);
            }
        }
        if any {
            c.distinct(format!("{}/{}", t.name, label).as_bytes());
        }
        if n % 997 == 0 {
            c.sample(|| json!({"type": t.name, "deviation": label}));
        }
        c.end();
    });
    if update {
        for (i, t) in tys.iter().enumerate() {
            if gate[i] != 0 {
                record(t, "gate", gate[i], false, "the version has no such type");
            }
        }
    }
    let singles = new.lock().unwrap().clone();
    let lost_of = |t: &Ty, l: &str| -> u64 {
        if update {
            singles.get(&(id(t), l.to_string())).map(|e| e.0).unwrap_or(0)
        } else {
            get_ex(&id(t), l).map(|e| e.0).unwrap_or(0)
        }
    };
    // ---- level 2: every pair of fields, each set to a surviving non-default value; and all fields at once
    let pair_vers: Vec<(usize, bool)> = if c.thorough {
        (9..VERSIONS.len()).flat_map(|v| [(v, false), (v, true)]).collect()
    } else {
        vec![(12, false), (15, true), (20, false)]
    };
    let pair_vers = if kinds == [Kind::Header] { vec![(15, true), (20, false)] } else { pair_vers };
    let picks = if c.thorough && kinds != [Kind::Header] { 2 } else { 1 };
    let mut jobs2: Vec<(usize, usize, bool, Vec<usize>)> = vec![];
    for (i, t) in tys.iter().enumerate() {
        for &(ver, bin) in &pair_vers {
            let b = bit(ver, bin);
            if (lost_of(t, "default") | lost_of(t, "gate")) & b != 0 {
                continue;
            }
            let mut chosen: Vec<usize> = vec![];
            for pick in 0..picks {
                let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
                for (j, a) in t.alts.iter().enumerate() {
                    if lost_of(t, &a.label) & b != 0 {
                        continue;
                    }
                    let n = seen.entry(&a.field).or_insert(0);
                    if *n == pick {
                        chosen.push(j);
                    }
                    *n += 1;
                }
            }
            for x in 0..chosen.len() {
                jobs2.push((i, ver, bin, chosen[x..].to_vec()));
            }
        }
    }
    c.par(jobs2.len(), |n| {
        let (i, ver, bin, ch) = &jobs2[n];
        let t = &tys[*i];
        let a = &t.alts[ch[0]];
        for &y in &ch[1..] {
            let bb = &t.alts[y];
            // fields nested in one another, or in the same list, are one deviation
            if json_path(&a.field) == json_path(&bb.field) || json_path(&a.field).starts_with(&json_path(&bb.field)) || json_path(&bb.field).starts_with(&json_path(&a.field)) {
                continue;
            }
            let mut v = gen::merge(&t.default, &a.value, &bb.value);
            fixup(&mut v);
            let label = format!("{} & {}", a.label, bb.label);
            let lost = get_ex(&id(t), &label).map(|e| e.0).unwrap_or(0);
            if check(t, *i, &label, ".", &v, *ver, *bin, lost, true) {
                c.distinct(format!("{}/{}", t.name, label).as_bytes());
            }
        }
        c.end();
    });
    // all surviving deviations at once (one per field), for each version and encoding; then one field back to another value
    let mut jobs3 = vec![];
    for i in 0..tys.len() {
        for &ver in &vers {
            for bin in [false, true] {
                jobs3.push((i, ver, bin));
            }
        }
    }
    c.par(jobs3.len(), |n| {
        let (i, ver, bin) = jobs3[n];
        let t = &tys[i];
        let b = bit(ver, bin);
        if (lost_of(t, "default") | lost_of(t, "gate")) & b != 0 {
            return;
        }
        for pick in 0..3 {
            let mut v = t.default.clone();
            let mut seen: BTreeMap<String, usize> = BTreeMap::new();
            let mut last = None;
            for a in &t.alts {
                if lost_of(t, &a.label) & b != 0 {
                    continue;
                }
                let n = seen.entry(json_path(&a.field)).or_insert(0);
                if *n == pick {
                    v = gen::merge(&t.default, &a.value, &v);
                    last = Some(&a.label);
                }
                *n += 1;
            }
            if last.is_none() {
                continue;
            }
            fixup(&mut v);
            let label = format!("all#{}", pick);
            let lost = get_ex(&id(t), &label).map(|e| e.0).unwrap_or(0);
            if check(t, i, &label, ".", &v, ver, bin, lost, true) {
                c.distinct(format!("{}/{}", t.name, label).as_bytes());
            }
        }
        c.end();
    });
    // ---- fields that are only written when another field says so: a deviation that is lost on its own but survives together with an enabling one
    let enabled: Mutex<BTreeMap<(String, String), u64>> = Mutex::new(BTreeMap::new());
    let rows: Vec<(usize, usize, usize)> = if update {
        let mut r = vec![];
        for (i, t) in tys.iter().enumerate() {
            if t.kind == Kind::Header {
                continue;
            }
            for (j, a) in t.alts.iter().enumerate() {
                if lost_of(t, &a.label) != 0 {
                    for (k, e) in t.alts.iter().enumerate() {
                        let tail = e.label.rsplit('=').next().unwrap();
                        let flag = tail == "true" || tail == "false" || tail.starts_with(|c: char| c.is_ascii_uppercase());
                        if flag && json_path(&e.field) != json_path(&a.field) {
                            r.push((i, j, k));
                        }
                    }
                }
            }
        }
        r
    } else {
        let mut r = vec![];
        for (i, t) in tys.iter().enumerate() {
            let at: BTreeMap<&str, usize> = t.alts.iter().enumerate().map(|(j, a)| (a.label.as_str(), j)).collect();
            for ((_, l), _) in ex.m.range((id(t), "|".to_string())..(id(t), "}".to_string())) {
                let (a, b) = l[1..].split_once(" || ").unwrap();
                match (at.get(a), at.get(b)) {
                    (Some(&j), Some(&k)) => r.push((i, j, k)),
                    _ => c.fail(&format!("{}/{}", t.name, l), "the fields of this recorded case no longer exist", || json!({})),
                }
            }
        }
        r
    };
    c.par(rows.len(), |n| {
        let (i, j, k) = rows[n];
        let t = &tys[i];
        let (a, e) = (&t.alts[j], &t.alts[k]);
        let label = format!("|{} || {}", a.label, e.label);
        let survives = get_ex(&id(t), &label).map(|e| e.0).unwrap_or(0);
        let mut v = gen::merge(&t.default, &a.value, &e.value);
        fixup(&mut v);
        for &ver in &vers {
            for bin in [false, true] {
                let b = bit(ver, bin);
                if update {
                    if lost_of(t, &a.label) & b != 0 && gate[i] & b == 0 && round_trip(t.kind, &v, ver, bin).is_empty() {
                        *enabled.lock().unwrap().entry((id(t), label.clone())).or_insert(0) |= b;
                    }
                } else if survives & b != 0 && check(t, i, &label, ".", &v, ver, bin, 0, true) {
                    c.distinct(format!("{}/{}", t.name, label).as_bytes());
                }
            }
        }
        c.end();
    });
    if update {
        let mut m = new.lock().unwrap();
        for ((t, l), b) in enabled.lock().unwrap().iter() {
            m.insert((t.clone(), l.clone()), (*b, false, "survives together".into()));
        }
        drop(m);
        let n = new.lock().unwrap();
        let mut out = String::from("# cases (type, deviation) that a round trip does not preserve, and in which versions/encodings (bit 2*version+binary);\n# c: fields other than the deviating one differ as well; last column: the first difference seen or the reason\n");
        for ((t, l), (m, coll, why)) in n.iter() {
            let why = ex.m.get(&(t.clone(), l.clone())).map(|e| e.2.clone()).filter(|w| !w.is_empty()).unwrap_or(why.clone());
            out.push_str(&format!("{}\t{}\t{:x}\t{}\t{}\n", t, l, m, if *coll { "c" } else { "-" }, why.replace(['\t', '\n'], " ")));
        }
        let _ = std::fs::create_dir_all(c.verif.join("golden"));
        std::fs::write(c.verif.join(format!("golden/{}.tsv", c.prop)), out).unwrap();
    }
    c.extra("types", json!(tys.len()));
    c.extra("single_deviations", json!(tys.iter().map(|t| t.alts.len()).sum::<usize>()));
    c.extra("versions", json!(vers.iter().map(|v| format!("{:?}", VERSIONS[*v])).collect::<Vec<_>>()));
}
