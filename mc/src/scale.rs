//! C32: however many there are and however long they are.
use crate::catalog::*;
use crate::core::*;
use crate::corpus::{self, ALL_KINDS};
use crate::gen;
use crate::rt;
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

/// Places in `v` that hold a list of several elements, or a text, that `d` does not have.
fn places(d: &Value, v: &Value, at: &str, lists: &mut BTreeMap<String, usize>, texts: &mut BTreeSet<String>) {
    match (d, v) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, y) in b {
                if k != "x_data" && k != "extension_data_groups" && k != "data_pairs" {
                    places(a.get(k).unwrap_or(&Value::Null), y, &format!("{}/{}", at, k), lists, texts);
                }
            }
        }
        (a, Value::Array(b)) => {
            if a != v && b.len() >= 2 {
                let e = lists.entry(at.to_string()).or_default();
                *e = (*e).max(b.len());
            }
            let none = vec![];
            let a = a.as_array().unwrap_or(&none);
            for (i, y) in b.iter().enumerate().take(1) {
                places(a.get(i).unwrap_or(&Value::Null), y, &format!("{}/{}", at, i), lists, texts);
            }
        }
        (a, Value::String(s)) if a != v && s.contains(' ') => {
            texts.insert(at.to_string());
        }
        _ => (),
    }
}
/// The same element, recognizable as the nth; for level 2 with whole numbers and in a plane.
fn vary(v: &mut Value, n: usize, level: usize) {
    match v {
        Value::Object(m) => m.iter_mut().for_each(|(k, x)| {
            if level == 2 && (k == "z" || k == "elevation") {
                *x = json!(0.0)
            } else {
                vary(x, n, level)
            }
        }),
        Value::Array(a) => a.iter_mut().for_each(|x| vary(x, n, level)),
        Value::Number(x) if x.is_f64() => *v = json!(if level == 2 { x.as_f64().unwrap().round() } else { x.as_f64().unwrap() } + n as f64),
        Value::String(x) if x.contains(' ') => *v = json!(format!("{} {}", x, n)),
        _ => (),
    }
}
/// Data in parts counts as a whole: a part of a binary file has at most 255 bytes.
fn joined(v: &mut Value) {
    match v {
        Value::Object(m) => m.values_mut().for_each(joined),
        Value::Array(a) => {
            if !a.is_empty() && a.iter().all(|x| x.as_array().map(|y| y.iter().all(|z| z.as_u64().map(|b| b < 256).unwrap_or(false))).unwrap_or(false)) {
                *v = Value::Array(a.iter().flat_map(|x| x.as_array().unwrap().clone()).collect());
            } else {
                a.iter_mut().for_each(joined)
            }
        }
        _ => (),
    }
}
fn grown(v: &Value, at: &str, n: usize, level: usize) -> Value {
    let mut v = v.clone();
    let a = v.pointer_mut(at).unwrap().as_array_mut().unwrap();
    let cycle = a.clone();
    *a = (0..n)
        .map(|i| {
            let mut x = cycle[i % cycle.len()].clone();
            if level >= 2 {
                vary(&mut x, i, level);
            }
            x
        })
        .collect();
    rt::fixup(&mut v);
    v
}
fn lengthened(v: &Value, at: &str, n: usize) -> Value {
    let mut v = v.clone();
    *v.pointer_mut(at).unwrap() = json!(text(n));
    v
}
fn text(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 23) as u8 + (i / 23 % 3) as u8) as char).collect()
}
struct Spot {
    ty: String,
    kind: Kind,
    at: String,
    list: bool,
    base: Value,
}
fn spots() -> Vec<Spot> {
    let mut kinds = ALL_KINDS.to_vec();
    kinds.push(Kind::Header);
    let mut out = vec![];
    for t in rt::tables(&kinds) {
        let mut seen: BTreeMap<(String, bool), (usize, usize)> = BTreeMap::new();
        for (i, a) in t.alts.iter().enumerate() {
            let (mut l, mut s) = (BTreeMap::new(), BTreeSet::new());
            places(&t.default, &a.value, "", &mut l, &mut s);
            for (p, n) in l {
                let e = seen.entry((p, true)).or_insert((0, i));
                if n > e.0 {
                    *e = (n, i);
                }
            }
            for p in s {
                seen.entry((p, false)).or_insert((1, i));
            }
        }
        for ((at, list), (_, i)) in seen {
            out.push(Spot { ty: t.name.clone(), kind: t.kind, at, list, base: t.alts[i].value.clone() });
        }
    }
    out
}
/// Several items of one kind: they all have to come back, in order.
fn many(k: Kind, ty: &str, v: &Value, n: usize, ver: usize, bin: bool) -> Result<(), String> {
    let mut d = empty_drawing(VERSIONS[ver]);
    for i in 0..n {
        let mut x = v.clone();
        if x.get("name").is_some() {
            x["name"] = json!(format!("N{}", i));
        }
        for f in ["class_name", "record_name"] {
            if x.get(f).is_some() {
                x[f] = json!(format!("A{}", i));
            }
        }
        if ty == "Line" {
            x["specific"]["Line"]["p1"]["x"] = json!(i as f64);
        }
        if ty == "DictionaryVariable" {
            x["specific"]["DictionaryVariable"]["value"] = json!(format!("V{}", i));
        }
        put(k, &mut d, &x)?;
    }
    let mut a = get(k, &d);
    let ours = a.iter().filter(|x| ty == "Line" || ty == "DictionaryVariable" || ["name", "class_name"].iter().any(|f| x[*f].as_str().map(|s| s.starts_with(['N', 'A']) && s[1..].parse::<usize>().is_ok()).unwrap_or(false))).count();
    if ours != n {
        return Err(format!("{} of {} added are there", ours, n));
    }
    let l = load(&save(&d, bin)?)?;
    let mut b = get(k, &l);
    a.iter_mut().chain(b.iter_mut()).for_each(gen::strip);
    if k == Kind::Block && ver <= 12 {
        // blocks have no handles there
        a.iter_mut().chain(b.iter_mut()).for_each(|x| x["handle"] = json!(0));
    }
    if a.len() != b.len() {
        return Err(format!("{} of {} came back", b.len(), a.len()));
    }
    if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i]) {
        let mut o = vec![];
        gen::diff(&a[i], &b[i], 0.0, "", &mut o);
        if !o.is_empty() {
            return Err(format!("number {} differs: {}", i, o.join("; ")));
        }
    }
    Ok(())
}
pub fn c32(c: &Ctx) -> i32 {
    let update = std::env::var("MC_UPDATE").is_ok();
    let path = c.verif.join("golden/C32.tsv");
    let mut known: BTreeMap<String, usize> = BTreeMap::new();
    if !update {
        for l in std::fs::read_to_string(&path).unwrap_or_default().lines().filter(|l| !l.starts_with('#')) {
            let f: Vec<&str> = l.split('\t').collect();
            known.insert(f[0].into(), f[1].parse().unwrap());
        }
    }
    let sp = spots();
    let found: Mutex<BTreeMap<String, (usize, String)>> = Mutex::new(BTreeMap::new());
    let list_sizes: &[usize] = if c.thorough { &[9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 70000] } else { &[9, 65, 129, 257, 1001, 1025, 4097, 33000] };
    let text_sizes: &[usize] = if c.thorough { &[31, 32, 63, 64, 127, 128, 129, 249, 250, 251, 254, 255, 256, 257, 499, 500, 501, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 70000] } else { &[33, 129, 251, 257, 513, 1025, 2050, 4097, 70000] };
    c.par(sp.len() * 3, |n| {
        let (s, ver) = (&sp[n / 3], [20, 15, 12][n % 3]);
        let id = format!("{} {} {} {:?}", kind_name(s.kind), s.ty, s.at, VERSIONS[ver]);
        // with the smallest size: does the version hold it at all, and can elements be told apart
        let make = |n: usize, level: usize| if s.list { grown(&s.base, &s.at, n, level) } else { lengthened(&s.base, &s.at, n) };
        let level = if update {
            c.begin(&id);
            let mut l = 3;
            let mut why = String::new();
            while l > 0 {
                let d: Vec<String> = [false, true].iter().flat_map(|b| rt::round_trip_with(s.kind, &make(9, l), ver, *b, &joined)).collect();
                if d.is_empty() {
                    break;
                }
                why = d[0].chars().take(100).collect();
                l = if s.list { l - 1 } else { 0 };
            }
            if l < 3 {
                found.lock().unwrap().insert(id.clone(), (l, why));
            }
            l
        } else {
            known.get(&id).copied().unwrap_or(3)
        };
        if level == 0 {
            c.end();
            return;
        }
        for &size in if s.list { list_sizes } else { text_sizes } {
            if size > 32767 && s.list && s.ty == "Leader" {
                continue; // the format counts these with 16 bits
            }
            for bin in [false, true] {
                let key = format!("{} with {}/{}", id, size, enc(bin));
                if c.skip(&key) {
                    continue;
                }
                c.begin(&key);
                c.eval(1);
                c.distinct(key.as_bytes());
                let v = make(size, level);
                let d = rt::round_trip_with(s.kind, &v, ver, bin, &joined);
                if !d.is_empty() {
                    c.fail(&key, &d.iter().take(3).map(|x| x.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("; "), || json!({"type": s.ty, "place": s.at, "size": size, "version": format!("{:?}", VERSIONS[ver]), "encoding": enc(bin)}));
                }
            }
        }
        c.end();
    });
    if update {
        let mut t = String::from("# lists and texts that can't be grown freely: type and place, what is done instead (0 nothing, 1 elements repeat, 2 in a plane), why\n");
        for (k, (l, w)) in found.into_inner().unwrap() {
            t += &format!("{}\t{}\t{}\n", k, l, w.replace(['\t', '\n'], " "));
        }
        std::fs::write(&path, t).unwrap();
    }
    // ---- many items of a kind
    let mut jobs: Vec<(Kind, String, Value, usize)> = vec![];
    let its = corpus::items(&ALL_KINDS);
    let counts: &[usize] = if c.thorough { &[2, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32768, 65536, 70000] } else { &[2, 129, 257, 1001, 1025, 4097, 33000] };
    for k in ALL_KINDS {
        for (t, v) in types_of(k) {
            if k == Kind::Entity && t != "Line" || k == Kind::Object && t != "DictionaryVariable" {
                continue;
            }
            for &n in counts {
                // adding to a table looks through it
                if n <= 5000 || k == Kind::Entity || k == Kind::Object || k == Kind::Class {
                    jobs.push((k, t.clone(), v.clone(), n));
                }
            }
        }
    }
    c.par(jobs.len() * 4, |n| {
        let (k, t, v, size) = &jobs[n / 4];
        let (ver, bin) = ([20, 12][n % 4 / 2], n % 2 == 1);
        if ver == 12 && matches!(k, Kind::Object | Kind::Class | Kind::BlockRecord) {
            return;
        }
        let key = format!("{} {:?} {}@{:?}/{}", size, k, t, VERSIONS[ver], enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(1);
        c.distinct(key.as_bytes());
        match guard(|| many(*k, t, v, *size, ver, bin)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"kind": format!("{:?}", k), "count": size})),
        }
        c.end();
    });
    // ---- block contents, vertices, attributes, extended data, nesting, raw data
    let what = ["block entities", "vertices", "attributes", "x data applications", "x data items", "x data nesting", "x data bytes", "groups", "group items", "group nesting", "x record pairs", "x record bytes", "comments", "dictionary"];
    let small: Vec<usize> = (0..if c.thorough { 1100 } else { 300 }).collect();
    c.par(what.len() * 2, |n| {
        let (w, bin) = (what[n / 2], n % 2 == 1);
        let sizes: Vec<usize> = match w {
            "x data nesting" | "group nesting" => (1..=250).collect(),
            "x data bytes" | "x record bytes" => small.iter().copied().chain([511, 512, 513, 1024, 4096, 65535, 65536, 70000]).collect(),
            _ => small.iter().copied().step_by(if c.thorough { 1 } else { 8 }).chain(list_sizes.iter().copied()).filter(|x| *x > 0).collect(),
        };
        for size in sizes {
            let key = format!("{} {}/{}", size, w, enc(bin));
            if c.skip(&key) {
                continue;
            }
            c.begin(&key);
            c.eval(1);
            c.distinct(key.as_bytes());
            match guard(|| special(w, size, bin)) {
                Ok(Ok(())) => (),
                Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"what": w, "count": size})),
            }
        }
        c.end();
    });
    c.extra("types", json!(its.len()));
    c.extra("lists_and_texts", json!(sp.len()));
    c.sample(|| json!({"list_sizes": list_sizes, "text_sizes": text_sizes, "item_counts": counts}));
    c.finish(
        "exploration",
        "every list and every text of every type of item, grown to each of the listed sizes (around powers of two, of ten and the limits of 8 and 16 bit counts), in R12, R2000 and R2018, text and binary; each kind of item, block contents, vertices, attributes, extended data and extension groups in each of the listed numbers and every nesting up to 250; everything has to come back in order",
        &["golden/C32.tsv lists lists with a fixed number of elements, lists tied to other lists, and places that the version does not hold", "nesting over 256 is rejected on purpose", "the format counts the vertices of a leader with 16 bits"],
        true,
    )
}
fn special(w: &str, n: usize, bin: bool) -> Result<(), String> {
    let mut d = empty_drawing(enums::AcadVersion::R2018);
    let mut line = Entity::new(EntityType::Line(Default::default()));
    let num = |i: usize| XDataItem::Integer((i % 30000) as i16);
    match w {
        "block entities" => {
            let mut b = Block { name: "B".into(), ..Default::default() };
            for i in 0..n {
                b.entities.push(Entity::new(EntityType::Line(Line::new(Point::new(i as f64, 1.0, 2.0), Point::origin()))));
            }
            d.add_block(b);
        }
        "vertices" => {
            let mut p = Polyline::default();
            for i in 0..n {
                p.add_vertex(&mut d, Vertex::new(Point::new(i as f64, 1.0, 2.0)));
            }
            d.add_entity(Entity::new(EntityType::Polyline(p)));
            d.add_entity(line);
        }
        "attributes" => {
            let mut p = Insert::default();
            for i in 0..n {
                p.add_attribute(&mut d, Attribute { value: format!("V{}", i), ..Default::default() });
            }
            d.add_entity(Entity::new(EntityType::Insert(p)));
            d.add_entity(line);
        }
        "x data applications" => {
            for i in 0..n {
                line.common.x_data.push(XData { application_name: format!("A{}", i), items: vec![num(i)] });
            }
            d.add_entity(line);
        }
        "x data items" => {
            line.common.x_data.push(XData { application_name: "A".into(), items: (0..n).map(num).collect() });
            line.common.x_data.push(XData { application_name: "B".into(), items: vec![XDataItem::ControlGroup((0..n).map(num).collect())] });
            d.add_entity(line);
        }
        "x data nesting" => {
            let mut x = num(n);
            for i in 0..n {
                x = XDataItem::ControlGroup(vec![num(i), x, XDataItem::Real(i as f64)]);
            }
            line.common.x_data.push(XData { application_name: "A".into(), items: vec![x] });
            d.add_entity(line);
        }
        "x data bytes" => {
            // longer data is written in parts
            line.common.x_data.push(XData { application_name: "A".into(), items: vec![XDataItem::BinaryData((0..n).map(|i| (i % 251) as u8).collect())] });
            d.add_entity(line);
            let l = load(&save(&d, bin)?)?;
            let e = l.entities().next().ok_or("no entity")?;
            let mut got = vec![];
            for i in &e.common.x_data[0].items {
                match i {
                    XDataItem::BinaryData(b) => got.extend_from_slice(b),
                    x => return Err(format!("{:?} among the data", x)),
                }
            }
            let ok = got.len() == n && got.iter().enumerate().all(|(i, b)| *b == (i % 251) as u8);
            return if ok { Ok(()) } else { Err(format!("{} bytes came back as {}", n, got.len())) };
        }
        "groups" => {
            for i in 0..n {
                line.common.extension_data_groups.push(ExtensionGroup { application_name: format!("G{}", i), items: vec![ExtensionGroupItem::CodePair(CodePair::new_i32(90, i as i32))] });
            }
            d.add_entity(line);
        }
        "group items" => {
            line.common.extension_data_groups.push(ExtensionGroup { application_name: "G".into(), items: (0..n).map(|i| ExtensionGroupItem::CodePair(CodePair::new_i32(90, i as i32))).collect() });
            d.add_entity(line);
        }
        "group nesting" => {
            let mut g = ExtensionGroup { application_name: "G".into(), items: vec![ExtensionGroupItem::CodePair(CodePair::new_i32(90, 7))] };
            for i in 1..n {
                g = ExtensionGroup { application_name: format!("G{}", i), items: vec![ExtensionGroupItem::CodePair(CodePair::new_i32(90, i as i32)), ExtensionGroupItem::Group(g)] };
            }
            line.common.extension_data_groups.push(g);
            d.add_entity(line);
        }
        "x record pairs" => {
            let x = XRecordObject { data_pairs: (0..n).map(|i| if i % 2 == 0 { CodePair::new_i32(90, i as i32) } else { CodePair::new_str(1, &format!("v{}", i)) }).collect(), ..Default::default() };
            d.add_object(Object::new(ObjectType::XRecordObject(x)));
        }
        "x record bytes" => {
            let x = XRecordObject { data_pairs: vec![CodePair::new_binary(310, (0..n).map(|i| (i % 251) as u8).collect()), CodePair::new_i32(90, 5)], ..Default::default() };
            d.add_object(Object::new(ObjectType::XRecordObject(x)));
            let l = load(&save(&d, bin)?)?;
            let Some(ObjectType::XRecordObject(x)) = l.objects().next().map(|o| o.specific.clone()) else { return Err("no record".into()) };
            let mut got = vec![];
            let (last, data) = x.data_pairs.split_last().ok_or("no pairs")?;
            for p in data {
                match &p.value {
                    CodePairValue::Binary(b) if p.code == 310 => got.extend_from_slice(b),
                    x => return Err(format!("{:?} among the data", x)),
                }
            }
            let ok = last.code == 90 && got.len() == n && got.iter().enumerate().all(|(i, b)| *b == (i % 251) as u8);
            return if ok { Ok(()) } else { Err(format!("{} bytes came back as {}", n, got.len())) };
        }
        "comments" => {
            // comment lines in a file
            d.add_entity(line);
            let b = save(&d, false)?;
            let mut x = vec![];
            for i in 0..n {
                x.extend(format!("999\r\ncomment {}\r\n", i).into_bytes());
            }
            x.extend(b);
            let l = load(&x)?;
            return if l.entities().count() == 1 { Ok(()) } else { Err("no entity".into()) };
        }
        "dictionary" => {
            let mut x = Dictionary::default();
            for i in 0..n {
                x.value_handles.insert(format!("K{}", i), Handle(0x1000 + i as u64));
            }
            d.add_object(Object::new(ObjectType::Dictionary(x)));
        }
        _ => unreachable!(),
    }
    let l = load(&save(&d, bin)?)?;
    for k in [Kind::Entity, Kind::Block, Kind::Object] {
        let (mut a, mut b) = (get(k, &d), get(k, &l));
        a.iter_mut().chain(b.iter_mut()).for_each(gen::strip);
        if a.len() != b.len() {
            return Err(format!("{} of {} {:?} came back", b.len(), a.len(), k));
        }
        for (x, y) in a.iter().zip(&b) {
            let mut o = vec![];
            if x != y {
                gen::diff(x, y, 0.0, "", &mut o);
            }
            if !o.is_empty() {
                return Err(o.iter().take(3).cloned().collect::<Vec<_>>().join("; "));
            }
        }
    }
    Ok(())
}
