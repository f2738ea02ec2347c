//! Enumeration of field values: every alternative of every field of a type, from its serde shape.
use crate::shape::{Node, Payload, Shape};
use serde_json::{json, Map, Value};

/// Replaces values that depend on the clock or on randomness (dates, uuids in a default header).
pub fn pin_clock_values(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for (_, x) in m.iter_mut() {
                pin_clock_values(x)
            }
        }
        Value::Array(a) => {
            for x in a.iter_mut() {
                pin_clock_values(x)
            }
        }
        Value::String(s) => {
            if s.len() == 36 && s.as_bytes()[8] == b'-' && s.as_bytes()[13] == b'-' {
                *s = "01234567-89ab-cdef-0123-456789abcdef".into();
            } else if s.len() >= 20 && s.as_bytes()[4] == b'-' && s.as_bytes()[10] == b'T' {
                *s = if s.ends_with('Z') { "2001-02-03T04:05:06Z".into() } else { "2001-02-03T04:05:06+00:00".into() };
            }
        }
        _ => (),
    }
}

/// Fields that are scratch space of the parser or writer, not data a user can see.
pub fn is_scratch(field: &str) -> bool {
    field.starts_with("__")
        && !(field.ends_with("_handle") || field.ends_with("_handles") || field.ends_with("_pointer") || field == "__object_drawing_format" || field == "__id_value")
}

fn int_in(lo: i128, hi: i128, x: i128) -> Value {
    let x = x.clamp(lo, hi);
    if lo < 0 {
        json!(x as i64)
    } else {
        json!(x as u64)
    }
}

/// A filled-in value: every field set, salted by k so that siblings differ.
pub fn sample(s: &Shape, path: &str, k: usize) -> Value {
    match s.nodes.get(path) {
        None => Value::Null,
        Some(n) => match n {
            Node::Bool => json!(k % 2 == 0),
            Node::Int(lo, hi) => int_in(*lo, *hi, (k % 100) as i128 + 1),
            Node::F64 => json!(k as f64 + 1.5),
            Node::Str => json!(format!("s{}", k)),
            Node::Char => json!("x"),
            Node::Date => json!("2011-12-13T14:15:16+00:00"),
            Node::Uuid => json!("fedcba98-7654-3210-0123-456789abcdef"),
            Node::Unit => Value::Null,
            Node::Option => {
                if s.nodes.contains_key(&format!("{}?", path)) {
                    sample(s, &format!("{}?", path), k)
                } else {
                    Value::Null
                }
            }
            Node::Seq => {
                let p = format!("{}[]", path);
                if s.nodes.contains_key(&p) && path.matches("[]").count() < 3 {
                    json!([sample(s, &p, k), sample(s, &p, k + 1)])
                } else {
                    json!([])
                }
            }
            Node::Map => json!({ format!("K{}", k): sample(s, &format!("{}{{}}", path), k) }),
            Node::Tuple(n) => Value::Array((0..*n).map(|i| sample(s, &format!("{}[{}]", path, i), k + i)).collect()),
            Node::Newtype(_) => sample(s, &format!("{}!", path), k + 0x20),
            Node::Struct(name, f) => {
                if name == "Color" || name == "LineWeight" {
                    return json!({ "raw_value": (k % 200) + 1 });
                }
                if name == "Duration" {
                    return json!({ "secs": 3600 + k, "nanos": 0 });
                }
                let mut m = Map::new();
                for (i, x) in f.iter().enumerate() {
                    let p = format!("{}.{}", path, x);
                    m.insert(
                        x.clone(),
                        if is_scratch(x) {
                            zero(s, &p)
                        } else if x == "x_data" || x == "extension_data_groups" {
                            json!([])
                        } else {
                            sample(s, &p, k + i)
                        },
                    );
                }
                Value::Object(m)
            }
            Node::Enum(_, vs) => {
                let v = &vs[k % vs.len()];
                variant(s, path, v, |p| sample(s, p, k))
            }
        },
    }
}
fn variant(s: &Shape, path: &str, v: &str, f: impl Fn(&str) -> Value) -> Value {
    let p = format!("{}::{}", path, v);
    match s.payload.get(&p) {
        None | Some(Payload::Unit) => json!(v),
        Some(Payload::Newtype) => json!({ v: f(&p) }),
        Some(Payload::Tuple(n)) => json!({ v: (0..*n).map(|i| f(&format!("{}[{}]", p, i))).collect::<Vec<_>>() }),
        Some(Payload::Struct(fs)) => {
            let mut m = Map::new();
            for x in fs {
                m.insert(x.clone(), f(&format!("{}.{}", p, x)));
            }
            json!({ v: m })
        }
    }
}
/// The all-zero value of a node.
pub fn zero(s: &Shape, path: &str) -> Value {
    match s.nodes.get(path) {
        None => Value::Null,
        Some(n) => match n {
            Node::Bool => json!(false),
            Node::Int(..) => json!(0),
            Node::F64 => json!(0.0),
            Node::Str => json!(""),
            Node::Char => json!("."),
            Node::Date => json!("2001-02-03T04:05:06+00:00"),
            Node::Uuid => json!("00000000-0000-0000-0000-000000000000"),
            Node::Unit | Node::Option => Value::Null,
            Node::Seq => json!([]),
            Node::Map => json!({}),
            Node::Tuple(n) => Value::Array((0..*n).map(|i| zero(s, &format!("{}[{}]", path, i))).collect()),
            Node::Newtype(_) => zero(s, &format!("{}!", path)),
            Node::Struct(_, f) => {
                let mut m = Map::new();
                for x in f {
                    m.insert(x.clone(), zero(s, &format!("{}.{}", path, x)));
                }
                Value::Object(m)
            }
            Node::Enum(_, vs) => variant(s, path, &vs[0], |p| zero(s, p)),
        },
    }
}

/// All single-field alternatives of `cur` at `path`: (label of the place changed, index of the alternative there, whole new value).
pub fn alternatives(s: &Shape, path: &str, cur: &Value) -> Vec<(String, Value)> {
    let mut out = vec![];
    let label = |x: &str| format!("{}={}", path, x);
    let push = |out: &mut Vec<(String, Value)>, v: Value| {
        if &v != cur {
            out.push((label(&short(&v)), v));
        }
    };
    match s.nodes.get(path) {
        None => (),
        Some(n) => match n {
            Node::Unit => (),
            Node::Bool => {
                push(&mut out, json!(true));
                push(&mut out, json!(false));
            }
            Node::Int(lo, hi) => {
                let mut xs = vec![0, 1, 2, 3, -1, 100];
                xs.push(*lo);
                xs.push(*hi);
                xs.retain(|x| x >= lo && x <= hi);
                xs.sort();
                xs.dedup();
                for x in xs {
                    push(&mut out, int_in(*lo, *hi, x));
                }
            }
            Node::F64 => {
                for x in [0.0, 1.0, 1.5, -2.25, 123456.789, 1e-6, 1e15] {
                    push(&mut out, json!(x));
                }
            }
            Node::Str => {
                for x in ["", "S1", "two words"] {
                    push(&mut out, json!(x));
                }
            }
            Node::Char => {
                for x in [".", ",", "x"] {
                    push(&mut out, json!(x));
                }
            }
            Node::Date => {
                for x in ["2001-02-03T04:05:06", "1999-12-31T23:59:59", "2020-02-29T00:00:00", "2024-06-15T12:30:01", "1970-01-01T00:00:00"] {
                    let z = if cur.as_str().map(|c| c.ends_with('Z')).unwrap_or(false) { "Z" } else { "+00:00" };
                    push(&mut out, json!(format!("{}{}", x, z)));
                }
            }
            Node::Uuid => {
                push(&mut out, json!("00000000-0000-0000-0000-000000000000"));
                push(&mut out, json!("fedcba98-7654-3210-0123-456789abcdef"));
            }
            Node::Option => {
                push(&mut out, Value::Null);
                let p = format!("{}?", path);
                if s.nodes.contains_key(&p) {
                    let base = if cur.is_null() { sample(s, &p, 0) } else { cur.clone() };
                    push(&mut out, base.clone());
                    out.extend(alternatives(s, &p, &base));
                }
            }
            Node::Seq => {
                let p = format!("{}[]", path);
                push(&mut out, json!([]));
                if s.nodes.contains_key(&p) {
                    let a = sample(s, &p, 0);
                    let b = sample(s, &p, 1);
                    let c = sample(s, &p, 2);
                    push(&mut out, json!([a]));
                    push(&mut out, json!([a, b]));
                    push(&mut out, json!([c, b, a]));
                    for (l, v) in alternatives(s, &p, &a) {
                        let second = format!("{}[1]{}", path, &l[p.len()..]);
                        out.push((l, json!([v])));
                        out.push((second, json!([b, v])));
                    }
                    // and with the other fields of the element zero
                    if matches!(s.nodes.get(&p), Some(Node::Struct(n, _)) if n != "Color" && n != "Duration" && n != "LineWeight") {
                        let z = zero(s, &p);
                        for (l, v) in alternatives(s, &p, &z) {
                            let l = format!("{}[0]{}", path, &l[p.len()..]);
                            out.push((l, json!([v])));
                        }
                        // elements next to one with nothing but zeros
                        push(&mut out, json!([a, z]));
                        push(&mut out, json!([z, a]));
                        push(&mut out, json!([b, z, a]));
                    }
                }
            }
            Node::Map => {
                let p = format!("{}{{}}", path);
                push(&mut out, json!({}));
                push(&mut out, json!({ "K1": sample(s, &p, 0) }));
                push(&mut out, json!({ "K1": sample(s, &p, 0), "A2": sample(s, &p, 1) }));
            }
            Node::Tuple(n) => {
                let a = cur.as_array().cloned().unwrap_or_default();
                for i in 0..*n {
                    for (l, v) in alternatives(s, &format!("{}[{}]", path, i), a.get(i).unwrap_or(&Value::Null)) {
                        let mut b = a.clone();
                        b[i] = v;
                        out.push((l, Value::Array(b)));
                    }
                }
            }
            Node::Newtype(name) => {
                if name == "Handle" {
                    for x in [0x1Fu64, 0xABCDEF, 0x7FFF_FFFF_FFFF_FFFF] {
                        push(&mut out, json!(x));
                    }
                } else {
                    out.extend(alternatives(s, &format!("{}!", path), cur));
                }
            }
            Node::Struct(name, f) => {
                if name == "Color" {
                    for x in [0, 1, 7, 255, 256, 257, -1, -7] {
                        push(&mut out, json!({ "raw_value": x }));
                    }
                    return out;
                }
                if name == "LineWeight" {
                    for x in [0, -1, -2, -3, 13, 211] {
                        push(&mut out, json!({ "raw_value": x }));
                    }
                    return out;
                }
                if name == "Duration" {
                    for x in [0u64, 1, 59, 3600, 86399, 86400, 86401, 1_000_000, 123_456_789] {
                        push(&mut out, json!({"secs": x, "nanos": 0}));
                    }
                    return out;
                }
                for x in f {
                    if is_scratch(x) || (path.is_empty() && x == "handle") || path == ".common" && x == "handle" {
                        continue;
                    }
                    let Some(c) = cur.get(x) else { continue };
                    if x == "data_pairs" {
                        for (l, v) in data_pair_samples() {
                            let mut m = cur.clone();
                            m[x.as_str()] = v;
                            out.push((format!("{}.{}={}", path, x, l), m));
                        }
                        continue;
                    }
                    if x == "x_data" || x == "extension_data_groups" {
                        for (l, v) in if x == "x_data" { x_data_samples() } else { extension_samples() } {
                            let mut m = cur.clone();
                            m[x.as_str()] = v;
                            out.push((format!("{}.{}={}", path, x, l), m));
                        }
                        continue;
                    }
                    for (l, v) in alternatives(s, &format!("{}.{}", path, x), c) {
                        let mut m = cur.clone();
                        m[x.as_str()] = v;
                        out.push((l, m));
                    }
                }
            }
            Node::Enum(_, vs) => {
                let (cv, cp) = match cur {
                    Value::String(x) => (x.clone(), Value::Null),
                    Value::Object(m) => m.iter().next().map(|(a, b)| (a.clone(), b.clone())).unwrap_or_default(),
                    _ => return out,
                };
                // alternatives within the current variant's payload
                let p = format!("{}::{}", path, cv);
                match s.payload.get(&p) {
                    Some(Payload::Newtype) => {
                        for (l, v) in alternatives(s, &p, &cp) {
                            out.push((l, json!({ cv.as_str(): v })));
                        }
                    }
                    Some(Payload::Tuple(n)) => {
                        let a = cp.as_array().cloned().unwrap_or_default();
                        for i in 0..*n {
                            for (l, v) in alternatives(s, &format!("{}[{}]", p, i), &a[i]) {
                                let mut b = a.clone();
                                b[i] = v;
                                out.push((l, json!({ cv.as_str(): b })));
                            }
                        }
                    }
                    _ => (),
                }
                // the other variants (never of the item's own type)
                if path != ".specific" {
                    for v in vs {
                        if *v != cv {
                            let x = variant(s, path, v, |p| sample(s, p, 0));
                            out.push((label(v), x));
                        }
                    }
                }
            }
        },
    }
    out
}
pub fn short(v: &Value) -> String {
    let t = v.to_string();
    if t.len() > 60 {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        t.hash(&mut h);
        format!("{}..#{:08x}", t.chars().take(40).collect::<String>(), h.finish() as u32)
    } else {
        t
    }
}
/// Removes scratch fields, recursively.
pub fn strip(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.retain(|k, _| !is_scratch(k));
            if m.contains_key("offset") && m.contains_key("code") && m.contains_key("value") {
                m.remove("offset"); // where in the file a raw group was found
            }
            for (_, x) in m.iter_mut() {
                strip(x);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(strip),
        _ => (),
    }
}
/// As strip, but keeps the drawing's own collections, which have such names.
pub fn strip_keep_top(v: &mut Value) {
    if let Value::Object(m) = v {
        for (_, x) in m.iter_mut() {
            strip(x);
        }
    }
}
/// Paths at which two values differ (floats within tol); at most `max`.
pub fn diff(a: &Value, b: &Value, tol: f64, path: &str, out: &mut Vec<String>) {
    if out.len() > 8 {
        return;
    }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => diff(v, w, tol, &format!("{}.{}", path, k), out),
                    None => out.push(format!("{}.{}: missing", path, k)),
                }
            }
            for k in y.keys() {
                if !x.contains_key(k) {
                    out.push(format!("{}.{}: extra", path, k));
                }
            }
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                out.push(format!("{}: length {} -> {}", path, x.len(), y.len()));
            } else {
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    diff(v, w, tol, &format!("{}[{}]", path, i), out);
                }
            }
        }
        (Value::Number(x), Value::Number(y)) => {
            if x == y {
                return;
            }
            let (p, q) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            let ok = x.is_f64() && y.is_f64() && (p == q || (p - q).abs() <= tol * p.abs().max(1.0));
            if !ok {
                out.push(format!("{}: {} -> {}", path, x, y));
            }
        }
        _ => {
            if a != b {
                out.push(format!("{}: {} -> {}", path, short(a), short(b)));
            }
        }
    }
}

/// Extended data used when enumerating the fields of items (the trees themselves are explored by C26).
pub fn x_data_samples() -> Vec<(&'static str, Value)> {
    let a = json!({"application_name": "APP1", "items": [{"Str": "s"}, {"Real": 1.5}, {"Integer": 7}]});
    let b = json!({"application_name": "APP2", "items": [{"ControlGroup": [{"Long": 70000}, {"Handle": 31}]}]});
    vec![("one", json!([a])), ("two", json!([a, b]))]
}
/// The value type the DXF reference gives a group code (below 1000), independent of the code under test.
pub fn pair_value(code: i32, k: i64) -> Option<Value> {
    Some(match code {
        0..=9 | 100..=102 | 105 | 300..=309 | 320..=369 | 390..=399 | 410..=419 | 430..=439 | 470..=481 => {
            if matches!(code, 105 | 320..=369 | 390..=399 | 480 | 481) {
                json!({ "Str": format!("{:X}", k + 0x20) })
            } else {
                json!({ "Str": format!("v{}", k) })
            }
        }
        10..=59 | 110..=149 | 210..=239 | 460..=469 => json!({ "Double": k as f64 + 0.5 }),
        60..=79 | 170..=179 | 270..=289 | 370..=389 | 400..=409 => json!({ "Short": k }),
        90..=99 | 420..=429 | 440..=459 => json!({ "Integer": k + 70000 }),
        160..=169 => json!({ "Long": k + 5_000_000_000 }),
        290..=299 => json!({ "Boolean": k % 2 }),
        310..=319 => json!({ "Binary": [k % 256, 0, 255] }),
        _ => return None,
    })
}
pub fn pair(code: i32, k: i64) -> Option<Value> {
    Some(json!({"code": code, "value": pair_value(code, k)?, "offset": 0}))
}
pub fn data_pair_samples() -> Vec<(String, Value)> {
    let mut out = vec![];
    for code in 1..=481 {
        if let Some(p) = pair(code, code as i64) {
            out.push((format!("[{}]", code), json!([p])));
            if code % 10 == 0 {
                out.push((format!("[1,{}]", code), json!([pair(1, 1), p])));
                out.push((format!("[{},70]", code), json!([p, pair(70, 1)])));
            }
        }
    }
    out
}
pub fn extension_samples() -> Vec<(&'static str, Value)> {
    let a = json!({"application_name": "GRP1", "items": [{"CodePair": {"code": 1, "value": {"Str": "v"}, "offset": 0}}, {"CodePair": {"code": 70, "value": {"Short": 7}, "offset": 0}}]});
    let b = json!({"application_name": "GRP2", "items": [{"CodePair": {"code": 40, "value": {"Double": 2.5}, "offset": 0}}]});
    vec![("one", json!([a])), ("two", json!([a, b]))]
}
/// Three-way merge of two independent changes of the same base.
pub fn merge(base: &Value, a: &Value, b: &Value) -> Value {
    if a == base {
        return b.clone();
    }
    if b == base {
        return a.clone();
    }
    match (base, a, b) {
        (Value::Object(x), Value::Object(p), Value::Object(q)) => {
            let mut m = Map::new();
            for (k, v) in p {
                let base = x.get(k).unwrap_or(&Value::Null);
                m.insert(k.clone(), merge(base, v, q.get(k).unwrap_or(base)));
            }
            for (k, v) in q {
                if !m.contains_key(k) {
                    m.insert(k.clone(), v.clone());
                }
            }
            Value::Object(m)
        }
        _ => a.clone(),
    }
}
