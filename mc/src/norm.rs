//! C28: what normalizing does to values.
use crate::catalog::*;
use crate::core::*;
use crate::corpus;
use crate::rt;
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Value};

/// What makes a value valid, and what takes the place of one that is not.
#[derive(Clone, Copy)]
enum Rule {
    Positive(f64),
    PositiveWhole(i64),
    Named(&'static str),
    LayerColor,
}
use Rule::*;
fn rules(k: Kind) -> Vec<(&'static str, Rule)> {
    match k {
        Kind::Header => vec![
            ("/default_text_height", Positive(0.2)),
            ("/trace_width", Positive(0.05)),
            ("/text_style", Named("STANDARD")),
            ("/current_layer", Named("0")),
            ("/current_entity_line_type", Named("BYLAYER")),
            ("/dimension_style_name", Named("STANDARD")),
            ("/file_name", Named(".")),
        ],
        Kind::Layer => vec![("/line_type_name", Named("CONTINUOUS")), ("/color/raw_value", LayerColor)],
        Kind::Style => vec![("/text_height", Positive(0.0)), ("/width_factor", Positive(1.0))],
        Kind::View => vec![("/view_height", Positive(1.0)), ("/view_width", Positive(1.0)), ("/lens_length", Positive(1.0))],
        Kind::ViewPort => vec![
            ("/snap_spacing/x", Positive(1.0)),
            ("/snap_spacing/y", Positive(1.0)),
            ("/snap_spacing/z", Positive(1.0)),
            ("/grid_spacing/x", Positive(1.0)),
            ("/grid_spacing/y", Positive(1.0)),
            ("/grid_spacing/z", Positive(1.0)),
            ("/view_height", Positive(1.0)),
            ("/view_port_aspect_ratio", Positive(1.0)),
            ("/lens_length", Positive(50.0)),
            ("/ucs_icon", PositiveWhole(3)),
            ("/circle_sides", PositiveWhole(1000)),
        ],
        Kind::Entity => vec![("/common/layer", Named("0"))],
        Kind::Block => vec![("/layer", Named("0"))],
        _ => vec![],
    }
}
fn samples(r: Rule) -> Vec<Value> {
    match r {
        Positive(_) => vec![json!(0.0), json!(-0.0), json!(-1e-300), json!(-1.0), json!(-1e9), json!(1e-300), json!(1e-9), json!(0.5), json!(1.0), json!(2.5), json!(1e9)],
        PositiveWhole(_) => vec![json!(0), json!(-1), json!(-32768), json!(1), json!(2), json!(3), json!(255), json!(1000), json!(32767)],
        Named(_) => vec![json!(""), json!(" "), json!("0"), json!("x"), json!("STANDARD"), json!("continuous"), json!(".")],
        LayerColor => [-32768, -256, -255, -7, -1, 0, 1, 2, 6, 7, 8, 254, 255, 256, 257, 258, 32767].iter().map(|i| json!(i)).collect(),
    }
}
fn expected(k: Kind, v: &Value) -> Value {
    let mut v = v.clone();
    for (at, r) in rules(k) {
        let x = v.pointer_mut(at).unwrap();
        match r {
            Positive(d) => {
                if x.as_f64().map(|f| f <= 0.0).unwrap_or(false) {
                    *x = json!(d)
                }
            }
            PositiveWhole(d) => {
                if x.as_i64().unwrap() <= 0 {
                    *x = json!(d)
                }
            }
            Named(d) => {
                if x.as_str() == Some("") {
                    *x = json!(d)
                }
            }
            LayerColor => {
                if matches!(x.as_i64(), Some(0) | Some(256)) {
                    *x = json!(7)
                }
            }
        }
    }
    v
}
/// The item before and after its own `normalize`, for the kinds that have one.
fn normalized(k: Kind, v: &Value) -> Result<Option<(Value, Value)>, String> {
    macro_rules! go {
        ($t:ty) => {{
            let mut x: $t = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            let before = serde_json::to_value(&x).map_err(|e| e.to_string())?;
            x.normalize();
            (before, serde_json::to_value(&x).map_err(|e| e.to_string())?)
        }};
    }
    Ok(Some(match k {
        Kind::Header => go!(Header),
        Kind::Layer => go!(Layer),
        Kind::Style => go!(Style),
        Kind::View => go!(View),
        Kind::ViewPort => go!(ViewPort),
        Kind::Entity => go!(Entity),
        Kind::Object => go!(Object),
        Kind::Block => go!(Block),
        _ => return Ok(None),
    }))
}
fn alone(k: Kind, v: &Value) -> Result<(), String> {
    let Some((before, got)) = normalized(k, v)? else { return Ok(()) };
    let want = expected(k, &before);
    if got != want {
        return Err(format!("normalized: {}", first_difference(&want, &got)));
    }
    if normalized(k, &got)?.map(|x| x.1).as_ref() != Some(&got) {
        return Err("normalizing twice differs from normalizing once".into());
    }
    Ok(())
}
fn first_difference(want: &Value, got: &Value) -> String {
    let mut out = vec![];
    crate::gen::diff(want, got, 0.0, "", &mut out);
    out.first().map(|x| format!("{} (expected -> got)", x)).unwrap_or_else(|| "differs".into())
}
fn handle_of(v: &Value) -> u64 {
    v.get("handle").or_else(|| v.pointer("/common/handle")).and_then(|h| h.as_u64()).unwrap_or(0)
}
/// Normalizes a drawing holding the items and compares every item of it, and their order.
fn whole(d: &mut Drawing) -> Result<(), String> {
    let before: Vec<Vec<Value>> = corpus::ALL_KINDS.iter().map(|k| get(*k, d)).collect();
    let header = get(Kind::Header, d).remove(0);
    d.normalize();
    for (k, was) in corpus::ALL_KINDS.iter().zip(&before) {
        let now = get(*k, d);
        if TABLE_KINDS.contains(k) {
            let names: Vec<&str> = now.iter().map(|v| v["name"].as_str().unwrap_or("")).collect();
            if names.windows(2).any(|w| w[0] > w[1]) {
                return Err(format!("{:?} entries are not in the order of their names: {:?}", k, names));
            }
            for w in was {
                let e = expected(*k, w);
                match now.iter().find(|n| handle_of(n) == handle_of(w)) {
                    Some(n) if *n == e => (),
                    Some(n) => return Err(format!("{:?}: {}", k, first_difference(&e, n))),
                    None => return Err(format!("{:?} {} is gone", k, w["name"])),
                }
            }
        } else {
            if now.len() < was.len() {
                return Err(format!("{} {:?} became {}", was.len(), k, now.len()));
            }
            if now.len() > was.len() && *k != Kind::Object {
                return Err(format!("{} {:?} became {}", was.len(), k, now.len()));
            }
            for (w, n) in was.iter().zip(&now) {
                let e = expected(*k, w);
                if *n != e {
                    return Err(format!("{:?}: {}", k, first_difference(&e, n)));
                }
            }
        }
    }
    let mut e = expected(Kind::Header, &header);
    let now = get(Kind::Header, d).remove(0);
    e["next_available_handle"] = now["next_available_handle"].clone();
    if e != now {
        return Err(format!("header: {}", first_difference(&e, &now)));
    }
    Ok(())
}
fn judge(c: &Ctx, key: &str, v: &Value, f: impl FnOnce() -> Result<(), String>) {
    if c.skip(key) {
        return;
    }
    c.eval(1);
    match guard(f) {
        Ok(Ok(())) => c.distinct(key.as_bytes()),
        Ok(Err(e)) | Err(e) => c.fail(key, &e, || json!({"item": v})),
    }
}
pub fn run(c: &Ctx) -> i32 {
    let mut kinds = corpus::ALL_KINDS.to_vec();
    kinds.push(Kind::Header);
    let tys = rt::tables(&kinds);
    // every field of every type over its values
    c.par(tys.len(), |n| {
        let t = &tys[n];
        c.begin(&t.name);
        judge(c, &format!("{} as created", t.name), &t.default, || alone(t.kind, &t.default));
        for a in &t.alts {
            judge(c, &format!("{}/{}", t.name, a.label), &a.value, || alone(t.kind, &a.value));
        }
        c.end();
    });
    // the fields that have a rule, over their values, two at a time (thorough: three)
    let ruled: Vec<(Kind, String, Value)> = kinds.iter().flat_map(|k| types_of(*k).into_iter().take(if *k == Kind::Entity { 3 } else { 1 }).map(|(n, v)| (*k, n, v))).filter(|x| !rules(x.0).is_empty()).collect();
    for (k, name, base) in &ruled {
        let rs = rules(*k);
        let n = rs.len();
        c.par(n * n, |x| {
            let (i, j) = (x / n, x % n);
            if i > j {
                return;
            }
            c.begin(&format!("{} {} {}", name, rs[i].0, rs[j].0));
            for a in samples(rs[i].1) {
                for b in samples(rs[j].1) {
                    let mut v = base.clone();
                    *v.pointer_mut(rs[i].0).unwrap() = a.clone();
                    *v.pointer_mut(rs[j].0).unwrap() = b.clone();
                    let key = format!("{} {}={} {}={}", name, rs[i].0, a, rs[j].0, b);
                    judge(c, &key, &v, || alone(*k, &v));
                    judge(c, &format!("drawing with {}", key), &v, || {
                        let mut d = Drawing::new();
                        if *k == Kind::Header {
                            d.header = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
                            d.header.next_available_handle = Handle(0x100);
                        } else {
                            put(*k, &mut d, base)?;
                            put(*k, &mut d, &v)?;
                            put(*k, &mut d, base)?;
                            set_back(*k, &mut d, 1, &v)?;
                        }
                        whole(&mut d)
                    });
                    if !c.thorough {
                        continue;
                    }
                    for l in j + 1..n {
                        for e in samples(rs[l].1) {
                            let mut v = v.clone();
                            *v.pointer_mut(rs[l].0).unwrap() = e.clone();
                            judge(c, &format!("{} {}={}", key, rs[l].0, e), &v, || alone(*k, &v));
                        }
                    }
                }
            }
            c.end();
        });
    }
    // entries in every order of names
    let names = ["a", "B", "", "b", "0", "zz", "\u{e9}"];
    for k in TABLE_KINDS {
        let base = types_of(k).remove(0).1;
        let m = names.len();
        let depth = if c.thorough { 5 } else { 4 };
        c.par(m.pow(depth), |x| {
            let mut y = x;
            let mut ns = vec![];
            for _ in 0..depth {
                ns.push(names[y % m]);
                y /= m;
            }
            let key = format!("{:?} named {:?}", k, ns);
            judge(c, &key, &json!(ns), || {
                let mut d = Drawing::new();
                d.clear();
                for n in &ns {
                    let mut v = base.clone();
                    v["name"] = json!(n);
                    put(k, &mut d, &v)?;
                }
                whole(&mut d)
            });
        });
    }
    // one of everything, as created and with every field changed
    for full in [false, true] {
        for ver in [12, 20] {
            let key = format!("one of everything{}@{:?}", if full { " full" } else { "" }, VERSIONS[ver]);
            judge(c, &key, &json!(null), || {
                let mut d = corpus::mixed(ver, full, |_| true);
                whole(&mut d)?;
                let one = serde_json::to_value(&d.header).unwrap();
                whole(&mut d)?;
                if one != serde_json::to_value(&d.header).unwrap() {
                    return Err("the header changes again".into());
                }
                Ok(())
            });
        }
    }
    c.sample(|| json!({"kinds_with_rules": ruled.iter().map(|r| r.1.clone()).collect::<Vec<_>>()}));
    c.finish(
        "exploration",
        "every field of every type over its value domain, the fields that have a rule two at a time over values on both sides of it, items normalized alone and in drawings, and tables with every order of up to four names; compared exactly with a table of rules, so that any other change shows",
        &["entities inside blocks are not visited by the code", "values that are not numbers are not judged", "entries that normalizing adds are judged by C11"],
        true,
    )
}
/// Puts the value back as it was given where adding it changed it.
fn set_back(k: Kind, d: &mut Drawing, i: usize, v: &Value) -> Result<(), String> {
    fn one<'a, T: 'a + serde::de::DeserializeOwned>(mut it: impl Iterator<Item = &'a mut T>, i: usize, v: &Value, h: impl Fn(&mut T, Option<Handle>) -> Handle) -> Result<(), String> {
        if let Some(x) = it.nth(i) {
            let old = h(x, None);
            *x = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            h(x, Some(old));
        }
        Ok(())
    }
    macro_rules! h {
        ($t:ty) => {
            |x: &mut $t, n: Option<Handle>| {
                if let Some(n) = n {
                    x.handle = n
                }
                x.handle
            }
        };
    }
    match k {
        Kind::Entity => one(d.entities_mut(), i, v, |x: &mut Entity, n| {
            if let Some(n) = n {
                x.common.handle = n
            }
            x.common.handle
        }),
        Kind::Block => one(d.blocks_mut(), i, v, h!(Block)),
        _ => Ok(()),
    }
}
