//! C19: unknown content at every place where the format allows it.
use crate::core::*;
use crate::corpus::*;
use crate::faults::{content, diff};
use crate::robust;
use crate::util::*;
use crate::wire::{encode, g, s, G, V};
use serde_json::{json, Value};
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    /// between sections, or before the end marker
    Sections,
    Header,
    Tables,
    Entities,
    Objects,
    /// inside an item that takes groups of any code
    Item,
    Anywhere,
}
/// What may be inserted before each group.
fn places(gs: &[G]) -> Vec<Vec<At>> {
    let mut out = vec![];
    let mut sec = String::new();
    let mut in_block = false;
    let mut in_item = false;
    let mut closed = false;
    let mut braces = 0;
    for i in 0..gs.len() {
        let x = &gs[i];
        let opens = x.is(0, "SECTION") && gs.get(i + 1).map(|y| y.code) == Some(2);
        let mut p = vec![At::Anywhere];
        if sec.is_empty() && (opens || x.is(0, "EOF")) {
            p.push(At::Sections);
        }
        if sec == "HEADER" && (x.code == 9 || x.code == 0) {
            p.push(At::Header);
        }
        if sec == "TABLES" && (x.is(0, "TABLE") || x.is(0, "ENDSEC")) {
            p.push(At::Tables);
        }
        if x.code == 0 && (sec == "ENTITIES" || sec == "BLOCKS" && in_block) {
            p.push(At::Entities);
        }
        if x.code == 0 && sec == "OBJECTS" {
            p.push(At::Objects);
        }
        if in_item && !closed && braces == 0 {
            p.push(At::Item);
        }
        out.push(p);
        // what comes after x
        if x.code == 0 {
            closed = x.is(0, "XRECORD");
            braces = 0;
            in_item = !sec.is_empty() && sec != "HEADER" && sec != "THUMBNAILIMAGE" && !opens;
            match x.text().as_str() {
                "BLOCK" if sec == "BLOCKS" => in_block = true,
                "ENDBLK" if sec == "BLOCKS" => in_block = false,
                "ENDSEC" => {
                    sec.clear();
                    in_item = false;
                }
                "TABLE" | "ENDTAB" => in_item = false,
                _ => (),
            }
        } else if x.code == 2 && i > 0 && gs[i - 1].is(0, "SECTION") && sec.is_empty() {
            sec = x.text();
        } else if x.code == 2 && i > 0 && gs[i - 1].is(0, "TABLE") {
            in_item = true;
        } else if x.code == 102 {
            if x.text().starts_with('{') {
                braces += 1;
            } else {
                braces -= 1;
            }
        } else if x.code == 1001 {
            closed = true;
        }
    }
    out
}
struct Thing {
    name: &'static str,
    at: At,
    gs: Vec<G>,
}
fn things() -> Vec<Thing> {
    let t = |name, at, gs: Vec<G>| Thing { name, at, gs };
    let mut o = vec![
        t("comment", At::Anywhere, vec![s(999, "a comment")]),
        t("comment like a marker", At::Anywhere, vec![s(999, "0"), s(999, "ENDSEC")]),
        t("empty section", At::Sections, vec![s(0, "SECTION"), s(2, "NOSUCH"), s(0, "ENDSEC")]),
        t(
            "section",
            At::Sections,
            vec![
                s(0, "SECTION"),
                s(2, "ACDSDATA"),
                g(70, V::I16(2)),
                s(0, "LINE"),
                s(8, "ENDSEC"),
                s(2, "ENTITIES"),
                g(90, V::I32(7)),
                g(310, V::Bin(vec![1, 2])),
                s(0, "EOF"),
                s(0, "TABLE"),
                s(9, "$ACADVER"),
                s(1, "AC1009"),
                s(0, "ENDSEC"),
            ],
        ),
        t("variable", At::Header, vec![s(9, "$NOSUCH"), s(1, "text")]),
        t("real variable", At::Header, vec![s(9, "$NOSUCHREAL"), g(40, V::F64(1.5))]),
        t("point variable", At::Header, vec![s(9, "$NOSUCHPOINT"), g(10, V::F64(1.5)), g(20, V::F64(2.5)), g(30, V::F64(3.5))]),
        t("empty variable", At::Header, vec![s(9, "$NOSUCHVALUE")]),
        t("empty table", At::Tables, vec![s(0, "TABLE"), s(2, "NOSUCH"), s(0, "ENDTAB")]),
        t(
            "table",
            At::Tables,
            vec![s(0, "TABLE"), s(2, "NOSUCH"), s(5, "FFF0"), g(70, V::I16(1)), s(0, "NOSUCH"), s(5, "FFF1"), s(2, "LAYER"), s(100, "X"), s(0, "LAYER"), s(2, "not a layer"), s(0, "ENDTAB")],
        ),
        t("empty entity", At::Entities, vec![s(0, "NOSUCH")]),
        t(
            "entity",
            At::Entities,
            vec![
                s(0, "NOSUCH_ENTITY"),
                s(5, "FFF2"),
                s(102, "{ACAD_REACTORS"),
                s(330, "1F"),
                s(102, "}"),
                s(100, "AcDbEntity"),
                s(8, "other"),
                g(66, V::I16(1)),
                g(10, V::F64(1.5)),
                s(2, "LINE"),
                s(1001, "APP"),
                s(1002, "{"),
                s(1000, "x"),
                s(1002, "}"),
            ],
        ),
        t("empty object", At::Objects, vec![s(0, "NOSUCH")]),
        t("object", At::Objects, vec![s(0, "NOSUCH_OBJECT"), s(5, "FFF3"), s(102, "{ACAD_REACTORS"), s(330, "1F"), s(102, "}"), s(330, "C"), s(100, "X"), s(3, "n"), s(350, "1F"), g(90, V::I32(3))]),
    ];
    for (name, x) in [
        ("code 328", s(328, "1F")),
        ("code 366", s(366, "0")),
        ("code 418", s(418, "")),
        ("code 478", s(478, "text")),
        ("code 217", g(217, V::F64(1.5))),
        ("code 467", g(467, V::F64(1.5))),
        ("code 377", g(377, V::I16(3))),
        ("code 407", g(407, V::I16(3))),
        ("code 427", g(427, V::I32(3))),
        ("code 457", g(457, V::I32(3))),
        ("code 167", g(167, V::I64(3))),
        ("code 298", g(298, V::Bool(1))),
        ("code 317", g(317, V::Bin(vec![1, 2, 3]))),
    ] {
        o.push(t(name, At::Item, vec![x]));
    }
    o
}
pub fn run(c: &Ctx) -> i32 {
    let bases = robust::bases(1);
    let all = things();
    let checked = std::sync::atomic::AtomicU64::new(0);
    let jobs: Vec<(usize, bool)> = (0..bases.len()).flat_map(|i| [(i, false), (i, true)]).collect();
    c.par(jobs.len(), |j| {
        let (i, bin) = jobs[j];
        let b = &bases[i];
        let w = wide(b.ver);
        c.begin(&b.key);
        let plain = match guard(|| load(&encode(&b.gs, bin, w))) {
            Ok(Ok(d)) => content(&d),
            x => {
                c.fail(&b.key, &format!("does not load: {:?}", x.map(|r| r.map(|_| ()))), || Value::Null);
                return;
            }
        };
        let pl = places(&b.gs);
        let ok_at = |t: &Thing, k: usize| pl[k].contains(&t.at) && !(bin && k == 0 && t.at == At::Anywhere);
        let run = |key: &str, gs: &[G]| {
            if c.skip(key) {
                return;
            }
            c.begin(key);
            c.eval(1);
            checked.fetch_add(1, SeqCst);
            let bytes = encode(gs, bin, w);
            let bad = match guard(|| load(&bytes)) {
                Err(p) => Some(format!("panic: {}", p)),
                Ok(Err(e)) => Some(e),
                Ok(Ok(d)) => {
                    let v = content(&d);
                    if v == plain {
                        None
                    } else {
                        Some(format!("loads differently: {}", diff(&plain, &v)))
                    }
                }
            };
            if let Some(m) = bad {
                c.fail(key, &m, || json!({"file": robust::show(&bytes)}));
            }
        };
        let with = |ins: &[(usize, &Thing)]| {
            let mut o = Vec::with_capacity(b.gs.len() + 20);
            for (k, x) in b.gs.iter().enumerate() {
                for (at, t) in ins {
                    if *at == k {
                        o.extend(t.gs.iter().cloned());
                    }
                }
                o.push(x.clone());
            }
            o
        };
        let newest = b.key.contains('+') || !b.key.contains('@');
        for t in &all {
            if !newest && !c.thorough && !["comment", "section", "table", "entity", "object", "code 478", "code 217", "code 377"].contains(&t.name) {
                continue;
            }
            let mut every = vec![];
            for k in 0..b.gs.len() {
                if ok_at(t, k) {
                    run(&format!("{} {}: {} before {}", b.key, enc(bin), t.name, k), &with(&[(k, t)]));
                    every.push((k, t));
                }
            }
            run(&format!("{} {}: {} everywhere", b.key, enc(bin), t.name), &with(&every));
        }
        let every: Vec<(usize, &Thing)> = (0..b.gs.len()).flat_map(|k| all.iter().filter(move |t| ok_at(t, k)).map(move |t| (k, t))).collect();
        run(&format!("{} {}: everything everywhere", b.key, enc(bin)), &with(&every));
        c.distinct(format!("{} {}", b.key, bin).as_bytes());
        // pairs
        if c.thorough && newest {
            let some: Vec<&Thing> = all.iter().filter(|t| ["comment", "section", "variable", "table", "entity", "object", "code 478"].contains(&t.name)).collect();
            let ps: Vec<(usize, &Thing)> = (0..b.gs.len()).flat_map(|k| some.iter().filter(move |t| ok_at(t, k)).map(move |t| (k, *t))).collect();
            let n = if b.gs.len() > 260 { 60 } else { ps.len() };
            for x in 0..ps.len() {
                for y in x..ps.len().min(x + n) {
                    run(&format!("{} {}: {} before {} and {} before {}", b.key, enc(bin), ps[x].1.name, ps[x].0, ps[y].1.name, ps[y].0), &with(&[ps[x], ps[y]]));
                }
            }
        }
        for k in 0..b.gs.len() {
            c.distinct(format!("{} {} {}", b.key, bin, k).as_bytes());
        }
    });
    c.extra("files", json!(bases.len()));
    c.extra("kinds_of_insertion", json!(all.len()));
    c.extra("files_loaded", json!(checked.load(SeqCst)));
    c.sample(|| json!({"file": bases[0].key, "insertion": "comment", "positions": bases[0].gs.len()}));
    c.finish(
        "exploration",
        "each file of a corpus covering every item type (oldest and newest version, default and every field set), text and binary: each of 27 kinds of insertion (comments, unknown sections, tables, entities, objects, header variables, 13 codes that no item has) before every group where the format allows it, each kind at all its places at once, and all kinds everywhere; thorough: also pairs of insertions. The loaded drawing has to be the same",
        &["unknown codes are not inserted into extension records, extension groups and extended data, which may hold any code", "codes no item has: 167 217 298 317 328 366 377 407 418 427 457 467 478"],
        true,
    )
}
