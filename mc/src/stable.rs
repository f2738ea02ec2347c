//! C15: saving is deterministic, changes nothing, and is stable under reload.
use crate::catalog::*;
use crate::core::*;
use crate::corpus;
use crate::gen;
use crate::rt;
use crate::util::*;
use dxf::*;
use serde_json::{json, Value};

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &[u8]| {
        let from = s[..i].iter().rev().take(60).rposition(|_| true).map(|n| i - 1 - n).unwrap_or(0);
        String::from_utf8_lossy(&s[from..(i + 40).min(s.len())]).replace("\r\n", "|")
    };
    format!("{} and {} bytes, first difference at {}: {:?} / {:?}", a.len(), b.len(), i, cut(a), cut(b))
}
/// The file without handles: before R13 not every item has one in the file, and loading numbers those anew.
fn without_handles(b: &[u8], bin: bool, ver: usize) -> Vec<u8> {
    match corpus::decode(b, bin, ver) {
        Ok(mut gs) => {
            gs.retain(|g| g.code != 5);
            format!("{:?}", gs.iter().map(|g| (g.code, g.text())).collect::<Vec<_>>()).into_bytes()
        }
        Err(_) => b.to_vec(),
    }
}
/// `loaded`: what cannot be held by the fields or the version is dropped by loading once before anything is compared.
fn check(d: &Drawing, ver: usize, bin: bool, cycles: usize, loaded: bool) -> Result<(), String> {
    let before = corpus::snapshot(d);
    let raw = serde_json::to_value(d).map_err(|e| e.to_string())?;
    let b = save(d, bin)?;
    if save(d, bin)? != b {
        return Err("saving twice gives different bytes".into());
    }
    if save(&d.clone(), bin)? != b {
        return Err("a copy saves differently".into());
    }
    if corpus::snapshot(d) != before || serde_json::to_value(d).map_err(|e| e.to_string())? != raw {
        return Err("saving changed the drawing".into());
    }
    if let Ok(mut e) = serde_json::from_value::<Drawing>(raw) {
        e.thumbnail = d.thumbnail.clone();
        if save(&e, bin)? != b {
            return Err("an equal drawing saves differently".into());
        }
    }
    let no_handles = ver <= 12;
    let mut last = b;
    if loaded {
        let mut first = load(&last)?;
        first.header.version = d.header.version; // R11 and R12 have the same name
        last = save(&first, bin)?;
    }
    for n in 0..cycles {
        let mut again = load(&last)?;
        again.header.version = d.header.version; // R11 and R12 have the same name
        let c = save(&again, bin)?;
        let (x, y) = if no_handles { (without_handles(&last, bin, ver), without_handles(&c, bin, ver)) } else { (last.clone(), c.clone()) };
        if x != y {
            return Err(format!("saved again after loading ({}): {}", n + 1, first_difference(&x, &y)));
        }
        last = c;
    }
    Ok(())
}
pub fn run(c: &Ctx) -> i32 {
    let mut kinds = corpus::ALL_KINDS.to_vec();
    kinds.push(Kind::Header);
    let tys = rt::tables(&kinds);
    let jobs: Vec<(usize, usize)> = tys.iter().enumerate().flat_map(|(i, t)| (0..t.alts.len() + 1).map(move |j| (i, j))).collect();
    let cfg: Vec<(usize, bool)> = if c.thorough { (9..VERSIONS.len()).flat_map(|v| [(v, false), (v, true)]).collect() } else { vec![(12, false), (15, true), (20, false)] };
    let report = |key: &str, item: &Value, r: Result<Result<(), String>, String>| match r {
        Ok(Ok(())) => c.distinct(key.split('@').next().unwrap().as_bytes()),
        Ok(Err(e)) | Err(e) => c.fail(key, &e, || json!({"item": item})),
    };
    c.par(jobs.len(), |n| {
        let (i, j) = jobs[n];
        let t = &tys[i];
        let (label, v) = if j == 0 { ("default", &t.default) } else { (t.alts[j - 1].label.as_str(), &t.alts[j - 1].value) };
        for &(ver, bin) in &cfg {
            let key = format!("{}/{}@{:?}/{}", t.name, label, VERSIONS[ver], enc(bin));
            if c.skip(&key) {
                continue;
            }
            c.begin(&key);
            c.eval(1);
            let r = guard(|| {
                let mut d = empty_drawing(VERSIONS[ver]);
                put(t.kind, &mut d, v)?;
                if t.kind == Kind::Header {
                    d.header.version = VERSIONS[ver];
                }
                check(&d, ver, bin, 1, j != 0)
            });
            report(&key, v, r);
        }
        c.end();
    });
    // one of everything, every field set, normalized or not, in every version
    let all: Vec<(usize, bool, bool, bool)> = (0..VERSIONS.len()).flat_map(|v| (0..8).map(move |x| (v, x & 1 != 0, x & 2 != 0, x & 4 != 0))).collect();
    c.par(all.len(), |n| {
        let (ver, bin, full, norm) = all[n];
        let key = format!("one of everything{}{}@{:?}/{}", if full { " full" } else { "" }, if norm { " normalized" } else { "" }, VERSIONS[ver], enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(1);
        let r = guard(|| {
            let mut d = corpus::mixed(ver, full, |_| true);
            if norm {
                d.normalize();
            }
            check(&d, ver, bin, if c.thorough { 4 } else { 2 }, full)
        });
        report(&key, &json!("one of everything"), r);
        c.end();
    });
    // things kept in maps: every order of insertion of several keys
    let keys = ["b", "a", "C", "d", "10", "9", "\u{e9}", "zz"];
    c.par(40320 / 168, |n| {
        for m in 0..if c.thorough { 168 } else { 4 } {
            let mut left: Vec<&str> = keys.to_vec();
            let mut order = vec![];
            let mut x = n * 168 + m * (168 / if c.thorough { 168 } else { 4 });
            while !left.is_empty() {
                order.push(left.remove(x % left.len()));
                x /= left.len() + 1;
            }
            for what in ["Dictionary", "DictionaryWithDefault"] {
                let key = format!("{} filled in order {:?}@R2018/text", what, order);
                if c.skip(&key) {
                    continue;
                }
                c.begin(&key);
                c.eval(1);
                let r = guard(|| -> Result<(), String> {
                    let base = {
                        let mut d = empty_drawing(VERSIONS[20]);
                        d.add_object(dict(what, &keys));
                        save(&d, false)?
                    };
                    let mut d = empty_drawing(VERSIONS[20]);
                    d.add_object(dict(what, &order));
                    if save(&d, false)? != base {
                        return Err("the order of insertion shows in the file".into());
                    }
                    check(&d, 20, false, 1, false)
                });
                report(&key, &json!(order), r);
            }
        }
        c.end();
    });
    let _ = gen::short;
    c.finish(
        "exploration",
        "every item type and the header: default and every single-field deviation; one of everything (defaults, every field set, normalized) in every version; dictionaries filled in every order; each saved repeatedly, from copies, and again after loading, and compared byte by byte; distinct by case without version and encoding",
        &["files of R12 and older, where not every item has a handle, are compared without the next-handle variable, which then counts the loaded items"],
        true,
    )
}
fn dict(what: &str, order: &[&str]) -> objects::Object {
    use dxf::objects::*;
    // the same handle for the same key whatever the order
    let h = |k: &str| Handle(0x200 + k.bytes().map(|b| b as u64).sum::<u64>());
    if what == "Dictionary" {
        let mut x = Dictionary::default();
        for k in order {
            x.value_handles.insert(k.to_string(), h(k));
        }
        Object::new(ObjectType::Dictionary(x))
    } else {
        let mut x = DictionaryWithDefault::default();
        for k in order {
            x.value_handles.insert(k.to_string(), h(k));
        }
        Object::new(ObjectType::DictionaryWithDefault(x))
    }
}
