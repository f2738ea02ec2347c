//! C08: saved files are well-formed, text and binary carry the same groups, and every field is under its documented code.
use crate::catalog::*;
use crate::core::*;
use crate::corpus;
use crate::rt;
use crate::util::*;
use crate::wire::{self, G, V};
use dxf::Drawing;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Mutex;

/// Each group with the item (or header variable) and subclass it stands in.
fn labelled(gs: &[G]) -> Vec<String> {
    let mut out = Vec::with_capacity(gs.len());
    let (mut item, mut sub) = (String::new(), String::new());
    let mut var = String::new();
    for x in gs {
        match x.code {
            0 => {
                item = x.text();
                sub.clear();
                var.clear();
            }
            9 if item == "SECTION" => var = x.text(),
            100 => sub = x.text(),
            _ => (),
        }
        if !var.is_empty() {
            if var == "$HANDSEED" {
                continue;
            }
            out.push(format!("{} {}={}", var, x.code, x.text()));
            continue;
        }
        if x.code == 5 || x.code == 105 {
            continue; // handles are C09's
        }
        out.push(format!("{}/{} {}={}", item, sub, x.code, x.text()));
    }
    out
}
fn count(v: &[String]) -> BTreeMap<&str, i64> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x.as_str()).or_insert(0) += 1;
    }
    m
}
fn shorten(s: String) -> String {
    if s.len() > 400 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}... {:016x}", &s[..n], hash64(s.as_bytes()))
    } else {
        s
    }
}
/// What the deviation adds to and takes from the file.
fn difference(base: &[String], with: &[String]) -> String {
    let (a, b) = (count(base), count(with));
    let mut plus = vec![];
    let mut minus = vec![];
    for (k, n) in &b {
        let d = n - a.get(k).unwrap_or(&0);
        if d > 0 {
            plus.push(if d == 1 { format!("+{}", k) } else { format!("+{}*{}", d, k) });
        }
    }
    for (k, n) in &a {
        let d = n - b.get(k).unwrap_or(&0);
        if d > 0 {
            minus.push(if d == 1 { format!("-{}", k) } else { format!("-{}*{}", d, k) });
        }
    }
    plus.extend(minus);
    shorten(plus.join(" ").replace(['\t', '\n', '\r'], "?"))
}
/// Text and binary of a drawing: both well-formed, same groups.
pub fn same_groups(d: &Drawing, ver: usize) -> Result<Vec<G>, String> {
    let t = save(d, false)?;
    let b = save(d, true)?;
    let tg = wire::decode_text(&t).map_err(|e| format!("text: {}", e))?;
    let bg = wire::decode_binary(&b, corpus::wide(ver)).map_err(|e| format!("binary: {}", e))?;
    wire::grammar(&tg).map_err(|e| format!("text: {}", e))?;
    wire::grammar(&bg).map_err(|e| format!("binary: {}", e))?;
    compare(&tg, &bg, ver)?;
    Ok(tg)
}
fn compare(tg: &[G], bg: &[G], ver: usize) -> Result<(), String> {
    if tg.len() != bg.len() {
        return Err(format!("{} groups in text, {} in binary", tg.len(), bg.len()));
    }
    for (i, (x, y)) in tg.iter().zip(bg).enumerate() {
        let same = x.code == y.code
            && match (&x.v, &y.v) {
                (V::F64(p), V::F64(q)) => p == q || (p - q).abs() <= 1e-12 + q.abs() * 1e-14 || (p.is_nan() && q.is_nan()),
                (V::Str(p), V::Str(q)) => p == q || wire::unescape(p, ver <= 16) == wire::unescape(q, false),
                (V::Bool(p), V::Bool(q)) => p == q,
                (p, q) => p == q,
            };
        if !same {
            return Err(format!("group {}: {}/{} in text, {}/{} in binary", i, x.code, x.text(), y.code, y.text()));
        }
    }
    Ok(())
}
pub fn run(c: &Ctx) -> i32 {
    let mut kinds = corpus::ALL_KINDS.to_vec();
    kinds.push(Kind::Header);
    let mut tys = rt::tables(&kinds);
    // children and block contents have types of their own
    tys.iter_mut().filter(|t| t.kind == Kind::Block).for_each(|t| t.alts.retain(|a| !a.field.starts_with(".entities")));
    tys.iter_mut().filter(|t| t.name == "Insert" || t.name == "Polyline").for_each(|t| t.alts.retain(|a| !a.field.contains("_and_handles[")));
    let update = std::env::var("MC_UPDATE").is_ok();
    let path = c.verif.join("golden/C08.tsv");
    // (type, label) -> [(versions, rendering)]
    let mut golden: BTreeMap<(String, String), Vec<(u64, String)>> = BTreeMap::new();
    for l in std::fs::read_to_string(&path).unwrap_or_default().lines().filter(|l| !l.starts_with('#')) {
        let f: Vec<&str> = l.split('\t').collect();
        golden.entry((f[0].into(), f[1].into())).or_default().push((u64::from_str_radix(f[2], 16).unwrap(), f[3].into()));
    }
    let new: Mutex<BTreeMap<(String, String), Vec<(u64, String)>>> = Mutex::default();
    let vers: Vec<usize> = if c.thorough || update { (0..VERSIONS.len()).collect() } else { vec![9, 12, 13, 14, 15, 16, 17, 20] };
    let jobs: Vec<(usize, usize)> = tys.iter().enumerate().flat_map(|(i, t)| (0..t.alts.len() + 1).map(move |j| (i, j))).collect();
    let bases: Vec<Mutex<BTreeMap<usize, std::sync::Arc<Vec<String>>>>> = tys.iter().map(|_| Mutex::default()).collect();
    let build = |t: &rt::Ty, v: &Value, ver: usize| -> Result<Vec<G>, String> {
        guard(|| {
            let d = corpus::drawing_with(t.kind, v, ver);
            same_groups(&d, ver)
        })
        .unwrap_or_else(|p| Err(format!("panic: {}", p)))
    };
    c.par(jobs.len(), |n| {
        let (i, j) = jobs[n];
        let t = &tys[i];
        let (label, v) = if j == 0 { ("default", &t.default) } else { (t.alts[j - 1].label.as_str(), &t.alts[j - 1].value) };
        let id = (t.name.clone(), label.replace(['\t', '\n', '\r'], "?"));
        let want = golden.get(&id);
        let mut found: Vec<(u64, String)> = vec![];
        for &ver in &vers {
            let key = format!("{}/{}@{:?}", t.name, label, VERSIONS[ver]);
            if c.skip(&key) {
                continue;
            }
            c.begin(&key);
            c.eval(1);
            let gs = match build(t, v, ver) {
                Ok(g) => g,
                Err(e) => {
                    c.fail(&key, &e, || json!({"item": v, "version": format!("{:?}", VERSIONS[ver])}));
                    continue;
                }
            };
            let mine = labelled(&gs);
            let base = if j == 0 {
                // against an empty drawing
                let mut m = bases[i].lock().unwrap();
                m.entry(ver).or_insert_with(|| std::sync::Arc::new(mine.clone()));
                drop(m);
                match guard(|| same_groups(&empty_drawing(VERSIONS[ver]), ver)) {
                    Ok(Ok(g)) => labelled(&g),
                    _ => vec![],
                }
                .into()
            } else {
                let have = bases[i].lock().unwrap().get(&ver).cloned();
                match have {
                    Some(b) => b,
                    None => {
                        let b = std::sync::Arc::new(build(t, &t.default, ver).map(|g| labelled(&g)).unwrap_or_default());
                        bases[i].lock().unwrap().insert(ver, b.clone());
                        b
                    }
                }
            };
            let r = difference(&base, &mine);
            if update {
                match found.iter_mut().find(|f| f.1 == r) {
                    Some(f) => f.0 |= 1 << ver,
                    None => found.push((1 << ver, r)),
                }
                continue;
            }
            c.distinct(format!("{}/{}/{}", t.name, label, r).as_bytes());
            let Some(want) = want else { continue };
            let w = want.iter().find(|w| w.0 >> ver & 1 == 1).map(|w| w.1.as_str()).unwrap_or("");
            if w != r {
                c.fail(&key, &format!("written as [{}], documented as [{}]", r, w), || json!({"item": v, "version": format!("{:?}", VERSIONS[ver]), "written": r, "documented": w}));
            }
        }
        if update && found.iter().any(|f| !f.1.is_empty()) {
            new.lock().unwrap().insert(id, found);
        }
    });
    // whole drawings
    let all: Vec<(usize, bool)> = (0..VERSIONS.len()).flat_map(|v| [(v, false), (v, true)]).collect();
    c.par(all.len(), |n| {
        let (ver, full) = all[n];
        let key = format!("one of everything{}@{:?}", if full { " full" } else { "" }, VERSIONS[ver]);
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(1);
        let r = guard(|| same_groups(&corpus::mixed(ver, full, |_| true), ver)).unwrap_or_else(|p| Err(format!("panic: {}", p)));
        match r {
            Ok(g) => c.distinct(wire::encode_text(&g).as_slice()),
            Err(e) => c.fail(&key, &e, || Value::Null),
        }
    });
    if update {
        let mut o = String::from("# item type, deviation from its default, versions (bit mask), groups it adds to and takes from the file (item/subclass code=value); handles left out\n");
        for ((t, l), v) in new.into_inner().unwrap() {
            for (m, r) in v {
                if !r.is_empty() {
                    o += &format!("{}\t{}\t{:x}\t{}\n", t, l, m, r);
                }
            }
        }
        std::fs::write(&path, o).unwrap();
        return 0;
    }
    c.extra("documented_renderings", json!(golden.len()));
    c.sample(|| json!({"case": golden.keys().nth(golden.len() / 2).map(|k| format!("{}/{}", k.0, k.1)), "documented": golden.values().nth(golden.len() / 2)}));
    c.finish(
        "exploration",
        "every item type and the header: its default and every single-field deviation over the per-type value domain x versions; each file is decoded from text and from binary by an independent decoder, both checked against the grammar and against each other, and what the deviation changes in the file is compared with a reviewed table of item, subclass, code and value; drawings with one of everything in every version",
        &["golden/C08.tsv states item name, subclass, group code and value of each field; handles are excluded (C09)"],
        true,
    )
}
