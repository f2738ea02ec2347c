//! C33: how a file is divided into sections and tables, and in what order these and the header variables are.
use crate::catalog::*;
use crate::core::*;
use crate::corpus::*;
use crate::faults::{content, diff};
use crate::robust;
use crate::util::*;
use crate::wire::{decode_text, encode, s, G};
use serde_json::{json, Value};

const TABLES: [&str; 9] = ["VPORT", "LTYPE", "LAYER", "STYLE", "VIEW", "UCS", "APPID", "DIMSTYLE", "BLOCK_RECORD"];

struct Part {
    name: String,
    /// from the opening group to after the closing one
    from: usize,
    to: usize,
}
fn parts(gs: &[G], from: usize, to: usize, open: &str, close: &str) -> Vec<Part> {
    let mut o = vec![];
    let mut i = from;
    while i < to {
        if gs[i].is(0, open) && i + 1 < to && gs[i + 1].code == 2 {
            let end = (i + 2..to).find(|k| gs[*k].is(0, close)).map(|k| k + 1).unwrap_or(to);
            o.push(Part { name: gs[i + 1].text(), from: i, to: end });
            i = end;
        } else {
            i += 1;
        }
    }
    o
}
/// Places where one part may end and another of the same name begin.
fn breaks(gs: &[G], p: &Part, old: bool) -> Vec<usize> {
    let mut o = vec![];
    let mut last = String::new();
    for k in p.from + 2..p.to {
        if gs[k].code != 0 {
            continue;
        }
        let t = gs[k].text();
        let ok = match p.name.as_str() {
            "ENTITIES" => !["VERTEX", "ATTRIB", "SEQEND"].contains(&t.as_str()) && !(t == "MTEXT" && (last == "ATTRIB" || last == "ATTDEF")),
            "BLOCKS" => t == "BLOCK" || t == "ENDSEC",
            "TABLES" => t == "TABLE" || t == "ENDSEC",
            "CLASSES" => t == "CLASS" || t == "ENDSEC" || old,
            "OBJECTS" => true,
            _ => false,
        };
        if ok {
            o.push(k);
        }
        last = t;
    }
    o
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in permutations(n - 1) {
        for at in 0..n {
            let mut q = p.clone();
            q.insert(at, n - 1);
            o.push(q);
        }
    }
    o
}
fn rearranged(gs: &[G], ps: &[Part], order: &[usize]) -> Vec<G> {
    let mut o = gs[..ps[0].from].to_vec();
    for i in order {
        o.extend_from_slice(&gs[ps[*i].from..ps[*i].to]);
    }
    o.extend_from_slice(&gs[ps[ps.len() - 1].to..]);
    o
}
fn with(gs: &[G], at: &[usize], extra: &[G]) -> Vec<G> {
    let mut o = vec![];
    for (k, x) in gs.iter().enumerate() {
        if at.contains(&k) {
            o.extend_from_slice(extra);
        }
        o.push(x.clone());
    }
    o
}
pub fn run(c: &Ctx) -> i32 {
    let mut files: Vec<(String, Vec<G>, usize)> = vec![];
    let vers: &[usize] = if c.thorough { &[8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20] } else { &[10, 12, 13, 14, 15, 20] };
    for &ver in vers {
        for full in [false, true] {
            let mut d = mixed(ver, full, |_| true);
            d.thumbnail = Some(image::DynamicImage::ImageRgb8(image::RgbImage::from_fn(2, 2, |x, y| image::Rgb([x as u8 * 60, y as u8 * 60, 7]))));
            if let Ok(gs) = save(&d, false).and_then(|b| decode_text(&b)) {
                files.push((format!("{} of everything@{:?}", if full { "full" } else { "default" }, VERSIONS[ver]), gs, ver));
            }
        }
    }
    // the default contents of a new drawing, and small files of every type
    for b in robust::bases(1) {
        files.push((b.key.clone(), b.gs.clone(), b.ver));
    }
    c.par(files.len() * 2, |n| {
        let (name, gs, ver) = &files[n / 2];
        let (bin, w) = (n % 2 == 1, wide(*ver));
        c.begin(name);
        let plain = match guard(|| load(&encode(gs, bin, w))) {
            Ok(Ok(d)) => content(&d),
            x => {
                c.fail(name, &format!("does not load: {:?}", x.map(|r| r.map(|_| ()))), || Value::Null);
                return;
            }
        };
        let judge = |what: &str, gs: &[G]| {
            let key = format!("{}/{}: {}", name, enc(bin), what);
            if c.skip(&key) {
                return;
            }
            c.begin(&key);
            c.eval(1);
            c.distinct(key.as_bytes());
            let bytes = encode(gs, bin, w);
            let bad = match guard(|| load(&bytes)) {
                Err(p) => Some(format!("panic: {}", p)),
                Ok(Err(e)) => Some(e),
                Ok(Ok(d)) => {
                    let v = content(&d);
                    (v != plain).then(|| format!("loads differently: {}", diff(&plain, &v)))
                }
            };
            if let Some(m) = bad {
                c.fail(&key, &m, || json!({"file": robust::show(&bytes)}));
            }
        };
        let big = name.contains("everything");
        let secs = parts(gs, 0, gs.len(), "SECTION", "ENDSEC");
        // ---- sections divided
        for p in &secs {
            let at = breaks(gs, p, *ver <= 13);
            let again = [s(0, "ENDSEC"), s(0, "SECTION"), s(2, &p.name)];
            for &k in &at {
                judge(&format!("{} divided at {}", p.name, k), &with(gs, &[k], &again));
            }
            if at.len() > 1 {
                judge(&format!("{} divided everywhere", p.name), &with(gs, &at, &again));
            }
            if c.thorough && at.len() <= 40 {
                for (i, &a) in at.iter().enumerate() {
                    for &b in &at[i + 1..] {
                        judge(&format!("{} divided at {} and {}", p.name, a, b), &with(gs, &[a, b], &again));
                    }
                }
            }
        }
        // ---- sections that are empty
        let ends: Vec<usize> = secs.iter().map(|p| p.to).collect();
        for x in ["CLASSES", "TABLES", "BLOCKS", "ENTITIES", "OBJECTS"] {
            for &k in &ends {
                judge(&format!("empty {} at {}", x, k), &with(gs, &[k], &[s(0, "SECTION"), s(2, x), s(0, "ENDSEC")]));
            }
        }
        // ---- order of sections: entries of tables come before what refers to them
        if secs.first().map(|p| p.name == "HEADER").unwrap_or(false) && secs.len() > 2 {
            let rest: Vec<Part> = secs[1..].iter().map(|p| Part { name: p.name.clone(), from: p.from, to: p.to }).collect();
            let place = |o: &[usize], n: &str| o.iter().position(|i| rest[*i].name == n);
            for o in permutations(rest.len()) {
                let fits = match place(&o, "TABLES") {
                    Some(t) => ["BLOCKS", "ENTITIES", "OBJECTS"].iter().all(|x| place(&o, x).map(|k| k > t).unwrap_or(true)),
                    None => true,
                };
                if fits {
                    let names: Vec<&str> = o.iter().map(|i| rest[*i].name.as_str()).collect();
                    judge(&format!("sections {}", names.join(" ")), &rearranged(gs, &rest, &o));
                }
            }
        }
        // ---- tables divided, empty, in another order
        if let Some(t) = secs.iter().find(|p| p.name == "TABLES") {
            let tabs = parts(gs, t.from + 2, t.to - 1, "TABLE", "ENDTAB");
            for p in &tabs {
                let at: Vec<usize> = (p.from + 2..p.to).filter(|k| gs[*k].code == 0).collect();
                let again = [s(0, "ENDTAB"), s(0, "TABLE"), s(2, &p.name)];
                for &k in &at {
                    judge(&format!("table {} divided at {}", p.name, k), &with(gs, &[k], &again));
                }
                if at.len() > 1 {
                    judge(&format!("table {} divided everywhere", p.name), &with(gs, &at, &again));
                }
            }
            for x in TABLES {
                for k in tabs.iter().map(|p| p.from).chain([t.to - 1]) {
                    judge(&format!("empty table {} at {}", x, k), &with(gs, &[k], &[s(0, "TABLE"), s(2, x), s(0, "ENDTAB")]));
                }
            }
            let n = tabs.len();
            if n > 1 {
                let id: Vec<usize> = (0..n).collect();
                // in any order, but line types always precede layers
                let place = |o: &[usize], n: &str| o.iter().position(|i| tabs[*i].name == n).unwrap_or(0);
                let mut back: Vec<usize> = id.iter().rev().cloned().collect();
                if let Some(k) = back.iter().position(|i| tabs[*i].name == "LTYPE") {
                    let x = back.remove(k);
                    back.insert(0, x);
                }
                judge("tables reversed", &rearranged(gs, &tabs, &back));
                for i in 0..n {
                    for j in 0..n {
                        let mut o = id.clone();
                        o.remove(i);
                        o.insert(j, i);
                        if o != id && place(&o, "LTYPE") <= place(&o, "LAYER") {
                            judge(&format!("table {} moved to place {}", tabs[i].name, j), &rearranged(gs, &tabs, &o));
                        }
                    }
                }
            }
        }
        // ---- header variables in another order
        if let Some(h) = secs.iter().find(|p| p.name == "HEADER") {
            let at: Vec<usize> = (h.from + 2..h.to).filter(|k| gs[*k].code == 9 || gs[*k].code == 0).collect();
            let vars: Vec<Part> = at.windows(2).map(|x| Part { name: gs[x[0]].text(), from: x[0], to: x[1] }).collect();
            let n = vars.len();
            if n > 1 {
                let id: Vec<usize> = (0..n).collect();
                judge("variables reversed", &rearranged(gs, &vars, &id.iter().rev().cloned().collect::<Vec<_>>()));
                for i in 0..n {
                    // a variable of the same name again stands for the one after it
                    for j in [0, n - 1] {
                        let mut o = id.clone();
                        o.remove(i);
                        o.insert(j, i);
                        if o != id && (big && (c.thorough || *ver == 20 || *ver == 12) || !big) {
                            judge(&format!("variable {} moved to place {}", vars[i].name, j), &rearranged(gs, &vars, &o));
                        }
                    }
                }
            }
        }
        c.end();
    });
    c.extra("files", json!(files.len()));
    c.sample(|| json!({"file": files[0].0, "case": "ENTITIES divided before an entity: 0/ENDSEC 0/SECTION 2/ENTITIES inserted"}));
    c.finish(
        "exploration",
        "files with one of everything (versions around each change of the format, default and every field set) and small files of every type: every section and table divided at every place between items and at all of them, empty sections and tables of each name at every place, every order of the sections in which the tables precede what refers to them, every table moved to every place (line types before layers, as the format says), every header variable moved to the front and the end, and all reversed; in text and binary. The drawing loaded has to be the same",
        &["a second header or thumbnail section replaces the first, which is excluded"],
        true,
    )
}
