//! C16 (DXB write and read back) and C17 (every DXB item sequence against a reference interpreter).
use crate::core::*;
use crate::robust;
use dxf::entities::*;
use dxf::*;
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;

/// What a reader finds: kind, numbers, layer, colour, children.
#[derive(Clone, PartialEq, Debug)]
pub struct E {
    kind: &'static str,
    n: Vec<f64>,
    layer: String,
    color: i16,
    /// location x and y, bulge, widths
    children: Vec<Vec<f64>>,
}
fn raw(c: &Color) -> i16 {
    serde_json::to_value(c).unwrap()["raw_value"].as_i64().unwrap() as i16
}
fn color_of(v: i16) -> Color {
    serde_json::from_value(json!({ "raw_value": v })).unwrap()
}
fn pt(p: &Point, z: bool) -> Vec<f64> {
    if z {
        vec![p.x, p.y, p.z]
    } else {
        vec![p.x, p.y]
    }
}
fn vertex(v: &Vertex) -> Vec<f64> {
    vec![v.location.x, v.location.y, v.bulge, v.starting_width, v.ending_width]
}
fn seen(e: &Entity) -> E {
    let mut children = vec![];
    let mut n = vec![];
    let kind = match &e.specific {
        EntityType::Line(l) => {
            n.extend(pt(&l.p1, true));
            n.extend(pt(&l.p2, true));
            "line"
        }
        EntityType::ModelPoint(p) => {
            n.extend(pt(&p.location, false));
            "point"
        }
        EntityType::Circle(x) => {
            n.extend(pt(&x.center, false));
            n.push(x.radius);
            "circle"
        }
        EntityType::Arc(x) => {
            n.extend(pt(&x.center, false));
            n.extend([x.radius, x.start_angle, x.end_angle]);
            "arc"
        }
        EntityType::Trace(x) => {
            for p in [&x.first_corner, &x.second_corner, &x.third_corner, &x.fourth_corner] {
                n.extend(pt(p, false));
            }
            "trace"
        }
        EntityType::Solid(x) => {
            for p in [&x.first_corner, &x.second_corner, &x.third_corner, &x.fourth_corner] {
                n.extend(pt(p, false));
            }
            "solid"
        }
        EntityType::Face3D(x) => {
            for p in [&x.first_corner, &x.second_corner, &x.third_corner, &x.fourth_corner] {
                n.extend(pt(p, true));
            }
            "face"
        }
        EntityType::Polyline(p) => {
            n.push(p.is_closed() as u8 as f64);
            children = p.vertices().map(vertex).collect();
            "polyline"
        }
        EntityType::Vertex(v) => {
            n = vertex(v);
            "vertex"
        }
        EntityType::Seqend(_) => "seqend",
        _ => "other",
    };
    E { kind, n, layer: e.common.layer.clone(), color: raw(&e.common.color), children }
}
#[derive(Clone, PartialEq, Debug)]
struct Found {
    entities: Vec<E>,
    /// base point and contents
    blocks: Vec<(f64, f64, Vec<E>)>,
}
fn found(d: &Drawing) -> Found {
    Found { entities: d.entities().map(seen).collect(), blocks: d.blocks().map(|b| (b.base_point.x, b.base_point.y, b.entities.iter().map(seen).collect())).collect() }
}
/// Vertices belong to the polyline they follow, up to the end marker if there is one.
fn gather(flat: Vec<E>) -> Vec<E> {
    let mut out: Vec<E> = vec![];
    let mut i = 0;
    while i < flat.len() {
        let mut e = flat[i].clone();
        i += 1;
        if e.kind == "polyline" {
            while i < flat.len() && flat[i].kind == "vertex" {
                e.children.push(flat[i].n.clone());
                i += 1;
            }
            if i < flat.len() && flat[i].kind == "seqend" {
                i += 1;
            }
        }
        out.push(e);
    }
    out
}

// ---- C17

#[derive(Clone, Copy, Debug)]
struct Tok {
    name: &'static str,
    code: u8,
    v: &'static [f64],
}
const TOKS: &[Tok] = &[
    Tok { name: "line", code: 1, v: &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0] },
    Tok { name: "point", code: 2, v: &[7.0, -8.0] },
    Tok { name: "circle", code: 3, v: &[9.0, 10.0, 11.0] },
    Tok { name: "arc", code: 8, v: &[12.0, 13.0, 14.0, 15.0, 16.0] },
    Tok { name: "trace", code: 9, v: &[17.0, 18.0, 19.0, 20.0, 21.0, 22.0, 23.0, 24.0] },
    Tok { name: "solid", code: 11, v: &[25.0, 26.0, 27.0, 28.0, 29.0, 30.0, 31.0, 32.0] },
    Tok { name: "end", code: 17, v: &[] },
    Tok { name: "polyline", code: 19, v: &[0.0] },
    Tok { name: "closed", code: 19, v: &[1.0] },
    Tok { name: "vertex", code: 20, v: &[33.0, 34.0] },
    Tok { name: "line3d", code: 21, v: &[35.0, 36.0, 37.0, 38.0, 39.0, 40.0] },
    Tok { name: "face", code: 22, v: &[41.0, 42.0, 43.0, 44.0, 45.0, 46.0, 47.0, 48.0, 49.0, 50.0, 51.0, 52.0] },
    Tok { name: "scale.5", code: 128, v: &[0.5] },
    Tok { name: "scale4", code: 128, v: &[4.0] },
    Tok { name: "layerA", code: 129, v: &[0.0] },
    Tok { name: "layer0", code: 129, v: &[1.0] },
    Tok { name: "line+", code: 130, v: &[53.0, 54.0] },
    Tok { name: "trace+", code: 131, v: &[55.0, 56.0, 57.0, 58.0] },
    Tok { name: "base", code: 132, v: &[59.0, 60.0] },
    Tok { name: "bulge", code: 133, v: &[0.5] },
    Tok { name: "width", code: 134, v: &[61.0, 62.0] },
    Tok { name: "integers", code: 135, v: &[0.0] },
    Tok { name: "reals", code: 135, v: &[1.0] },
    Tok { name: "color3", code: 136, v: &[3.0] },
    Tok { name: "bylayer", code: 136, v: &[256.0] },
    Tok { name: "line3d+", code: 137, v: &[63.0, 64.0, 65.0] },
];
const LAYERS: [&str; 2] = ["A\u{e9}", "0"];
const SENTINEL: &[u8] = b"AutoCAD DXB 1.0\r\n\x1a\0";

/// Writes the items and says what they mean.
fn encode(seq: &[usize]) -> (Vec<u8>, Option<Found>) {
    let mut b = SENTINEL.to_vec();
    let mut real = false;
    let mut scale = 1.0;
    let mut layer = "0".to_string();
    let mut color = 256i16;
    let mut last_line = vec![0.0, 0.0, 0.0];
    let mut last_trace = vec![0.0; 4];
    let mut base: Option<(f64, f64)> = None;
    let mut flat: Vec<E> = vec![];
    let mut wrong = false;
    for &i in seq {
        let t = TOKS[i];
        b.push(t.code);
        // a coordinate: 16 bit integer times the scale factor, or 32 bit real
        let mut put = |x: f64| -> f64 {
            if real {
                let r = (x + 0.25) as f32;
                b.extend(r.to_le_bytes());
                r as f64
            } else {
                b.extend((x as i16).to_le_bytes());
                x * scale
            }
        };
        let mut push = |kind: &'static str, n: Vec<f64>| flat.push(E { kind, n, layer: layer.clone(), color, children: vec![] });
        match t.code {
            1 | 21 => {
                let n: Vec<f64> = t.v.iter().map(|x| put(*x)).collect();
                last_line = n[3..].to_vec();
                push("line", n);
            }
            2 => push("point", t.v.iter().map(|x| put(*x)).collect()),
            3 => push("circle", t.v.iter().map(|x| put(*x)).collect()),
            8 => {
                let mut n: Vec<f64> = t.v[..3].iter().map(|x| put(*x)).collect();
                for x in &t.v[3..] {
                    // angles: millionths of a degree, or 32 bit real
                    if real {
                        let r = (*x + 0.25) as f32;
                        b.extend(r.to_le_bytes());
                        n.push(r as f64);
                    } else {
                        b.extend(((x * 1_000_000.0) as i32).to_le_bytes());
                        n.push(*x);
                    }
                }
                push("arc", n);
            }
            9 => {
                let n: Vec<f64> = t.v.iter().map(|x| put(*x)).collect();
                last_trace = n[4..].to_vec();
                push("trace", n);
            }
            11 => push("solid", t.v.iter().map(|x| put(*x)).collect()),
            17 => push("seqend", vec![]),
            19 => {
                b.extend((t.v[0] as i16).to_le_bytes());
                push("polyline", vec![t.v[0]]);
            }
            20 => {
                let n: Vec<f64> = t.v.iter().map(|x| put(*x)).collect();
                push("vertex", vec![n[0], n[1], 0.0, 0.0, 0.0]);
            }
            22 => push("face", t.v.iter().map(|x| put(*x)).collect()),
            128 => {
                scale = t.v[0];
                b.extend(scale.to_le_bytes());
            }
            129 => {
                layer = LAYERS[t.v[0] as usize].to_string();
                b.extend(layer.chars().map(|c| c as u8));
                b.push(0);
            }
            130 => {
                let n: Vec<f64> = t.v.iter().map(|x| put(*x)).collect();
                let to = vec![n[0], n[1], 0.0];
                let mut all = last_line.clone();
                all.extend(to.clone());
                last_line = to;
                push("line", all);
            }
            137 => {
                let to: Vec<f64> = t.v.iter().map(|x| put(*x)).collect();
                let mut all = last_line.clone();
                all.extend(to.clone());
                last_line = to;
                push("line", all);
            }
            131 => {
                let to: Vec<f64> = t.v.iter().map(|x| put(*x)).collect();
                let mut all = last_trace.clone();
                all.extend(to.clone());
                last_trace = to;
                push("trace", all);
            }
            132 => {
                let n: Vec<f64> = t.v.iter().map(|x| put(*x)).collect();
                if base.is_some() || !flat.is_empty() {
                    wrong = true;
                }
                base = Some((n[0], n[1]));
            }
            133 => {
                // a factor: times 65536, or 32 bit real
                if real {
                    b.extend((t.v[0] as f32).to_le_bytes());
                } else {
                    b.extend(((t.v[0] * 65536.0) as i32).to_le_bytes());
                }
                match flat.last_mut() {
                    Some(v) if v.kind == "vertex" => v.n[2] = t.v[0],
                    _ => wrong = true,
                }
            }
            134 => {
                let n: Vec<f64> = t.v.iter().map(|x| put(*x)).collect();
                match flat.last_mut() {
                    Some(v) if v.kind == "vertex" => {
                        v.n[3] = n[0];
                        v.n[4] = n[1];
                    }
                    _ => wrong = true,
                }
            }
            135 => {
                b.extend((t.v[0] as i16).to_le_bytes());
                real = t.v[0] != 0.0;
            }
            136 => {
                color = t.v[0] as i16;
                b.extend(color.to_le_bytes());
            }
            _ => unreachable!(),
        }
    }
    b.push(0);
    if wrong {
        return (b, None);
    }
    let es = gather(flat);
    let f = match base {
        Some((x, y)) => Found { entities: vec![], blocks: vec![(x, y, es)] },
        None => Found { entities: es, blocks: vec![] },
    };
    (b, Some(f))
}
fn same(a: &Found, b: &Found) -> bool {
    if a == b {
        return true;
    }
    let close = |x: &[f64], y: &[f64]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (p - q).abs() <= 1e-9);
    let ents = |x: &[E], y: &[E]| {
        x.len() == y.len()
            && x.iter().zip(y).all(|(p, q)| {
                p.kind == q.kind && p.layer == q.layer && p.color == q.color && close(&p.n, &q.n) && p.children.len() == q.children.len() && p.children.iter().zip(&q.children).all(|(c, d)| close(c, d))
            })
    };
    ents(&a.entities, &b.entities) && a.blocks.len() == b.blocks.len() && a.blocks.iter().zip(&b.blocks).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && ents(&x.2, &y.2))
}
pub fn c17(c: &Ctx) -> i32 {
    let depth = 5;
    let n = TOKS.len();
    let names = |q: &[usize]| q.iter().map(|i| TOKS[*i].name).collect::<Vec<_>>().join(" ");
    let check = |q: &[usize], cuts: bool| {
        let key = format!("items {}", names(q));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.states.fetch_add(1, SeqCst);
        c.transitions.fetch_add(q.len() as u64, SeqCst);
        c.traces.fetch_add(1, SeqCst);
        let (b, want) = encode(q);
        let bad = match (guard(|| Drawing::load(&mut &b[..])), &want) {
            (Err(p), _) => Some(format!("panic: {}", p)),
            (Ok(Ok(_)), None) => Some("not an error".into()),
            (Ok(Err(_)), None) => None,
            (Ok(Err(e)), Some(_)) => Some(format!("not loaded: {:?}", e)),
            (Ok(Ok(d)), Some(w)) => {
                let f = found(&d);
                if same(w, &f) {
                    None
                } else {
                    Some(format!("{:?} instead of {:?}", f, w))
                }
            }
        };
        if let Some(m) = bad {
            c.fail(&key, &m, || json!({"file": robust::show(&b)}));
        }
        if cuts && want.is_some() {
            for k in 0..b.len() {
                let key = format!("items {} cut at {}", names(q), k);
                if c.skip(&key) {
                    continue;
                }
                c.begin(&key);
                if k >= SENTINEL.len() && matches!(guard(|| Drawing::load(&mut &b[..k])), Ok(Ok(_)) | Err(_)) {
                    c.fail(&key, "a file without its end is not an error", || json!({"file": robust::show(&b[..k])}));
                }
            }
        }
    };
    check(&[], true);
    for len in 1..=depth {
        let total = n.pow(len as u32);
        let groups = n.pow(len.min(2) as u32);
        c.par(groups, |g| {
            let per = total / groups;
            for x in g * per..(g + 1) * per {
                let mut q = vec![0; len];
                let mut y = x;
                for k in (0..len).rev() {
                    q[k] = y % n;
                    y /= n;
                }
                check(&q, len <= 2);
            }
        });
    }
    // longer sequences that build on the state: every pair of state items before every pair of entities, both modes
    let state: Vec<usize> = (0..n).filter(|i| [128, 129, 135, 136].contains(&TOKS[*i].code)).collect();
    let solid: Vec<usize> = (0..n).filter(|i| ![128, 129, 132, 135, 136].contains(&TOKS[*i].code)).collect();
    c.par(state.len() * state.len(), |s| {
        let (a, b) = (state[s / state.len()], state[s % state.len()]);
        for &x in &solid {
            for &y in &solid {
                for z in [usize::MAX, 19, 20] {
                    let mut q = vec![a, x, b, y];
                    if z != usize::MAX {
                        q.push(z);
                    }
                    q.push(0);
                    check(&q, false);
                }
            }
        }
    });
    // every integer value of each kind
    for t in [0usize, 3, 19, 20, 23] {
        c.par(65536, |v| {
            let v = v as u16 as i16;
            let key = format!("value {} of {}", v, TOKS[t].name);
            if c.skip(&key) || (!c.thorough && v % 7 != 0 && v.unsigned_abs() > 300) {
                return;
            }
            c.begin(&key);
            c.transitions.fetch_add(1, SeqCst);
            let mut b = SENTINEL.to_vec();
            let pre = |b: &mut Vec<u8>| {
                b.push(20);
                b.extend([1, 0, 2, 0]);
            };
            let want: Vec<f64> = match TOKS[t].code {
                1 => {
                    b.push(1);
                    for _ in 0..6 {
                        b.extend(v.to_le_bytes());
                    }
                    vec![v as f64; 6]
                }
                8 => {
                    b.push(8);
                    for _ in 0..3 {
                        b.extend(v.to_le_bytes());
                    }
                    let a = v as i32 * 10_007;
                    b.extend(a.to_le_bytes());
                    b.extend((-a).to_le_bytes());
                    vec![v as f64, v as f64, v as f64, a as f64 / 1e6, -a as f64 / 1e6]
                }
                133 => {
                    pre(&mut b);
                    let u = v as i32 * 32_749;
                    b.push(133);
                    b.extend(u.to_le_bytes());
                    vec![1.0, 2.0, u as f64 / 65536.0, 0.0, 0.0]
                }
                134 => {
                    pre(&mut b);
                    b.push(134);
                    b.extend(v.to_le_bytes());
                    b.extend(v.wrapping_neg().to_le_bytes());
                    vec![1.0, 2.0, 0.0, v as f64, v.wrapping_neg() as f64]
                }
                _ => {
                    b.push(136);
                    b.extend(v.to_le_bytes());
                    b.extend([2, 5, 0, 6, 0]);
                    vec![5.0, 6.0]
                }
            };
            b.push(0);
            let color = if TOKS[t].code == 136 { v } else { 256 };
            let ok = match guard(|| Drawing::load(&mut &b[..])) {
                Ok(Ok(d)) => {
                    let f = found(&d);
                    f.entities.len() == 1 && f.entities[0].color == color && f.entities[0].n.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-9)
                }
                _ => false,
            };
            if !ok {
                c.fail(&key, &format!("expected {:?} colour {}", want, color), || json!({"file": robust::show(&b)}));
            }
        });
    }
    // every word that says whether numbers are reals and whether a polyline is closed
    c.par(65536, |v| {
        let v = v as u16 as i16;
        let key = format!("word {}", v);
        if c.skip(&key) || (!c.thorough && v % 7 != 0 && v.unsigned_abs() > 300) {
            return;
        }
        c.begin(&key);
        c.transitions.fetch_add(1, SeqCst);
        let mut b = SENTINEL.to_vec();
        b.push(135);
        b.extend(v.to_le_bytes());
        b.push(2);
        let want = if v != 0 {
            b.extend(1.5f32.to_le_bytes());
            b.extend((-2.5f32).to_le_bytes());
            vec![1.5, -2.5]
        } else {
            b.extend([5, 0, 6, 0]);
            vec![5.0, 6.0]
        };
        b.push(19);
        b.extend(v.to_le_bytes());
        b.extend([17, 0]);
        let r = guard(|| Drawing::load(&mut &b[..]));
        let ok = match &r {
            Ok(Ok(d)) => {
                let es: Vec<&Entity> = d.entities().collect();
                es.len() == 2 && matches!(&es[0].specific, EntityType::ModelPoint(p) if p.location.x == want[0] && p.location.y == want[1]) && matches!(&es[1].specific, EntityType::Polyline(p) if p.is_closed() == (v != 0))
            }
            _ => false,
        };
        if !ok {
            c.fail(&key, &format!("expected a point {:?} and a polyline closed {}", want, v != 0), || json!({"file": robust::show(&b)}));
        }
    });
    c.extra("item_kinds", json!(n));
    c.extra("depth", json!(depth));
    c.sample(|| json!({"items": names(&[12, 8, 9, 19, 22]), "file": robust::show(&encode(&[12, 8, 9, 19, 22]).0)}));
    c.finish(
        "model_checking",
        "all sequences of DXB items up to the depth over all 22 item types with 26 value variants, each loaded by the real reader and compared with a reference interpreter of the format; sequences of up to six items around every pair of state changes; every prefix of the short files; 16 bit values and words",
        &["a line item has three coordinates per point, as in the repository's own files", "in integer mode coordinates are scaled by the scale factor, angles are millionths of a degree, bulges are multiples of 1/65536, words are plain"],
        true,
    )
}

// ---- C16

fn ent(kind: usize, x: f64) -> EntityType {
    let p = |k: f64| Point::new(x + k, x - k, 0.0);
    let p3 = |k: f64| Point::new(x + k, x - k, x * 2.0 + k);
    match kind {
        0 => EntityType::Line(Line::new(p3(1.0), p3(2.0))),
        1 => EntityType::ModelPoint(ModelPoint::new(p(3.0))),
        2 => EntityType::Circle(Circle::new(p(4.0), x + 5.0)),
        3 => EntityType::Arc(Arc::new(p(6.0), x + 7.0, x + 8.0, x + 9.0)),
        4 => EntityType::Trace(Trace::new(p(10.0), p(11.0), p(12.0), p(13.0))),
        5 => EntityType::Solid(Solid::new(p(14.0), p(15.0), p(16.0), p(17.0))),
        6 => EntityType::Face3D(Face3D::new(p3(18.0), p3(19.0), p3(20.0), p3(21.0))),
        7 | 8 | 9 => {
            let mut d = Drawing::new();
            let mut poly = Polyline::default();
            poly.set_is_closed(kind == 8);
            for k in 0..(kind - 7) {
                let mut v = Vertex::new(p(22.0 + k as f64));
                if k == 0 {
                    v.bulge = 0.5;
                }
                if kind == 8 {
                    v.starting_width = 1.5;
                    v.ending_width = 2.5;
                } else if k == 1 {
                    v.ending_width = 3.5;
                    v.bulge = -0.25;
                }
                poly.add_vertex(&mut d, v);
            }
            EntityType::Polyline(poly)
        }
        10 => EntityType::Text(Default::default()),
        11 => EntityType::LwPolyline(Default::default()),
        12 => {
            let mut d = Drawing::new();
            let mut i = Insert { name: "B".into(), ..Default::default() };
            i.add_attribute(&mut d, Default::default());
            EntityType::Insert(i)
        }
        13 => EntityType::Ellipse(Default::default()),
        14 => {
            let mut v = Vertex::new(p(30.0));
            v.bulge = 0.75;
            EntityType::Vertex(v)
        }
        _ => EntityType::Seqend(Default::default()),
    }
}
const NKINDS: usize = 16;
const NAMES: [&str; NKINDS] = ["line", "point", "circle", "arc", "trace", "solid", "face", "polyline0", "polyline1", "polyline2", "text", "lwpolyline", "insert", "ellipse", "vertex", "seqend"];
const EL: [&str; 3] = ["0", "A", "\u{e9}t\u{e9} 2"];
const EC: [i16; 4] = [256, 0, 3, 7];

fn mk(kind: usize, layer: usize, color: usize, x: f64) -> Entity {
    let mut e = Entity::new(ent(kind, x));
    e.common.layer = EL[layer].into();
    e.common.color = color_of(EC[color]);
    e
}
fn single(e: &mut E) {
    e.n.iter_mut().for_each(|x| *x = *x as f32 as f64);
    e.children.iter_mut().flatten().for_each(|x| *x = *x as f32 as f64);
}
fn expected(es: &[Entity]) -> Vec<E> {
    es.iter()
        .map(seen)
        .filter(|e| e.kind != "other")
        .map(|mut e| {
            single(&mut e);
            e
        })
        .collect()
}
/// Drawing, and what its DXB file holds.
fn dxb_round(d: &Drawing) -> Result<Found, String> {
    let mut b = vec![];
    d.save_dxb(&mut b).map_err(|e| format!("save_dxb: {:?}", e))?;
    let l = Drawing::load(&mut &b[..]).map_err(|e| format!("load: {:?} [{}]", e, robust::show(&b)))?;
    Ok(found(&l))
}
fn check16(c: &Ctx, key: &str, es: &[Entity], block: Option<(f64, f64)>) {
    if c.skip(key) {
        return;
    }
    c.begin(key);
    c.eval(1);
    let r = guard(|| {
        let mut d = Drawing::new();
        d.clear();
        let want = match block {
            Some((x, y)) => {
                d.add_block(Block { name: "B".into(), base_point: Point::new(x, y, 0.0), entities: es.to_vec(), ..Default::default() });
                Found { entities: vec![], blocks: vec![(x as f32 as f64, y as f32 as f64, expected(es))] }
            }
            None => {
                for e in es {
                    d.add_entity(e.clone());
                }
                Found { entities: expected(es), blocks: vec![] }
            }
        };
        (dxb_round(&d), want)
    });
    let bad = match r {
        Err(p) => Some(format!("panic: {}", p)),
        Ok((Err(e), _)) => Some(e),
        Ok((Ok(f), w)) if f == w => None,
        Ok((Ok(f), w)) => Some(format!("{:?} instead of {:?}", f, w)),
    };
    if let Some(m) = bad {
        c.fail(key, &m, || json!({"entities": es.iter().map(|e| format!("{:?}", seen(e))).collect::<Vec<_>>(), "block": block}));
    }
    c.distinct(key.as_bytes());
}
pub fn c16(c: &Ctx) -> i32 {
    let nl = EL.len();
    let nc = EC.len();
    let tok = NKINDS * nl * nc;
    let parts = |t: usize| (t % NKINDS, t / NKINDS % nl, t / NKINDS / nl);
    let name = |t: usize| {
        let (k, l, q) = parts(t);
        format!("{}/{}/{}", NAMES[k], EL[l], EC[q])
    };
    let build = |t: usize, x: f64| {
        let (k, l, q) = parts(t);
        mk(k, l, q, x)
    };
    // all pairs, with every layer and colour
    c.par(tok, |a| {
        for block in [None, Some((0.0, 0.0)), Some((1.5, -2.25))] {
            let w = if block.is_some() { "block" } else { "entities" };
            check16(c, &format!("{} {:?} {}", w, block, name(a)), &[build(a, 0.5)], block);
            for b in 0..tok {
                check16(c, &format!("{} {:?} {} {}", w, block, name(a), name(b)), &[build(a, 0.5), build(b, 100.25)], block);
            }
        }
    });
    // longer ones with few layers and colours
    let depth = 4;
    let combos = 3;
    let small = NKINDS * combos;
    let pick = |t: usize| -> usize {
        let (k, m) = (t % NKINDS, t / NKINDS);
        let (l, q) = [(0, 0), (1, 2), (1, 0)][m];
        k + NKINDS * (l + nl * q)
    };
    c.par(small * small, |p| {
        let rest = small.pow(depth as u32 - 2);
        for r in 0..rest {
            let mut q = vec![pick(p / small), pick(p % small)];
            let mut y = r;
            for _ in 2..depth {
                q.push(pick(y % small));
                y /= small;
            }
            let es: Vec<Entity> = q.iter().enumerate().map(|(i, t)| build(*t, i as f64 * 100.0)).collect();
            let nm = q.iter().map(|t| name(*t)).collect::<Vec<_>>().join(" ");
            check16(c, &format!("entities {}", nm), &es, None);
            if r % 2 == p % 2 {
                check16(c, &format!("block {}", nm), &es, Some((7.0, 8.0)));
            }
        }
    });
    // values
    let vals: Vec<f64> = {
        let mut v = vec![0.0, 1.0, -1.0, 0.1, 1.0 / 3.0, 1e-30, 1e30, -1e30, 16777217.0, 123456.789, f32::MAX as f64, f32::MIN_POSITIVE as f64, 65535.0, 65536.0];
        v.extend((-100..100).map(|i| 2f64.powi(i)));
        v
    };
    c.par(NKINDS, |k| {
        for &x in &vals {
            check16(c, &format!("value {} of {}", x, NAMES[k]), &[mk(k, 0, 0, x)], None);
            check16(c, &format!("value {} of {} in a block", x, NAMES[k]), &[mk(k, 0, 0, x)], Some((x, -x)));
        }
    });
    // every choice of numbers that are zero, and of bulges and widths
    let point = |b: &[f64]| Point::new(b[0], b[1], 0.0);
    let point3 = |b: &[f64]| Point::new(b[0], b[1], b[2]);
    for (what, n) in [("line", 6), ("point", 2), ("circle", 3), ("arc", 5), ("trace", 8), ("solid", 8), ("face", 12)] {
        c.par(1 << n, |m: usize| {
            for sign in [1.0, -1.0] {
                let x: Vec<f64> = (0..n).map(|i| if m >> i & 1 == 1 { sign * (i as f64 + 1.5) } else { 0.0 }).collect();
                let e = match what {
                    "line" => EntityType::Line(Line::new(point3(&x), point3(&x[3..]))),
                    "point" => EntityType::ModelPoint(ModelPoint::new(point(&x))),
                    "circle" => EntityType::Circle(Circle::new(point(&x), x[2])),
                    "arc" => EntityType::Arc(Arc::new(point(&x), x[2], x[3], x[4])),
                    "trace" => EntityType::Trace(Trace::new(point(&x), point(&x[2..]), point(&x[4..]), point(&x[6..]))),
                    "solid" => EntityType::Solid(Solid::new(point(&x), point(&x[2..]), point(&x[4..]), point(&x[6..]))),
                    _ => EntityType::Face3D(Face3D::new(point3(&x), point3(&x[3..]), point3(&x[6..]), point3(&x[9..]))),
                };
                check16(c, &format!("{} of {:?}", what, x), &[Entity::new(e), mk(2, 0, 0, 3.0)], None);
            }
        });
    }
    let widths = [0.0, 1.5, 2.5, -1.5];
    c.par(4 * 4 * 4, |m: usize| {
        let (bulge, sw, ew) = ([0.0, 0.5, -0.5, 1.5][m / 16], widths[m / 4 % 4], widths[m % 4]);
        let mut v = Vertex::new(Point::new(1.0, 2.0, 0.0));
        v.bulge = bulge;
        v.starting_width = sw;
        v.ending_width = ew;
        check16(c, &format!("vertex bulge {} widths {} {}", bulge, sw, ew), &[Entity::new(EntityType::Vertex(v.clone()))], None);
        for at in 0..3 {
            for closed in [false, true] {
                let mut d = Drawing::new();
                let mut poly = Polyline::default();
                poly.set_is_closed(closed);
                for k in 0..3 {
                    poly.add_vertex(&mut d, if k == at { v.clone() } else { Vertex::new(Point::new(k as f64, 7.0, 0.0)) });
                }
                check16(c, &format!("vertex {} of a polyline closed {} bulge {} widths {} {}", at, closed, bulge, sw, ew), &[Entity::new(EntityType::Polyline(poly)), mk(2, 0, 0, 3.0)], None);
            }
        }
    });
    // colours and layer names
    c.par(65536, |v| {
        let v = v as u16 as i16;
        if !c.thorough && v % 5 != 0 && v.unsigned_abs() > 300 {
            return;
        }
        let mut e = mk(0, 0, 0, 1.0);
        e.common.color = color_of(v);
        check16(c, &format!("colour {}", v), &[mk(1, 0, 0, 0.0), e.clone(), mk(1, 0, 1, 0.0), e], None);
    });
    c.par(256, |ch| {
        // characters that a byte can hold
        for ch in [ch as u32] {
            if let Some(x) = char::from_u32(ch).filter(|x| *x != '\0') {
                for s in [format!("{}", x), format!("a{}b", x)] {
                    let mut e = mk(0, 0, 0, 1.0);
                    e.common.layer = s.clone();
                    check16(c, &format!("layer {:?}", s), &[e.clone(), mk(1, 1, 0, 0.0), e], None);
                }
            }
        }
    });
    // characters it can not hold must not disturb the others
    let step = if c.thorough { 1 } else { 61 };
    c.par(0x110000 / step, |i| {
        let u = (i * step) as u32;
        let Some(ch) = char::from_u32(u).filter(|x| *x as u32 > 255 || *x == '\0') else { return };
        let key = format!("layer with U+{:04X}", u);
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(1);
        let mut e = mk(0, 0, 0, 1.0);
        e.common.layer = format!("a{}b", ch);
        let es = [mk(2, 1, 2, 3.0), e, mk(1, 1, 0, 0.0)];
        let mut d = Drawing::new();
        d.clear();
        es.iter().for_each(|e| {
            d.add_entity(e.clone());
        });
        let mut w = expected(&es);
        match guard(|| dxb_round(&d)) {
            Ok(Ok(mut f)) => {
                if f.entities.len() == 3 {
                    f.entities[1].layer.clear();
                    w[1].layer.clear();
                }
                if f.entities != w {
                    c.fail(&key, &format!("{:?} instead of {:?}", f.entities, w), || json!(null));
                }
            }
            x => c.fail(&key, &format!("{:?}", x), || json!(null)),
        }
    });
    // blocks and entities together
    for (nb, ne) in [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (3, 2)] {
        let key = format!("{} blocks, {} entities", nb, ne);
        if c.skip(&key) {
            continue;
        }
        c.eval(1);
        let mut d = Drawing::new();
        d.clear();
        for i in 0..nb {
            d.add_block(Block { name: format!("B{}", i), base_point: Point::new(1.0, 2.0, 0.0), entities: vec![mk(0, 1, 2, 5.0 + i as f64)], ..Default::default() });
        }
        let es: Vec<Entity> = (0..ne).map(|i| mk(2 + i, 0, 0, i as f64)).collect();
        es.iter().for_each(|e| {
            d.add_entity(e.clone());
        });
        let want = if nb == 1 && ne == 0 { Found { entities: vec![], blocks: vec![(1.0, 2.0, expected(&[mk(0, 1, 2, 5.0)]))] } } else { Found { entities: expected(&es), blocks: vec![] } };
        match guard(|| dxb_round(&d)) {
            Ok(Ok(f)) if f == want => (),
            x => c.fail(&key, &format!("{:?} instead of {:?}", x, want), || json!(null)),
        }
    }
    c.sample(|| json!({"entities": [name(8), name(40), name(100)]}));
    c.extra("entity_variants", json!(tok));
    c.extra("depth", json!(depth));
    c.finish(
        "exploration",
        "all pairs of entities over 16 kinds x 3 layers x 4 colours, loose and in a block; all sequences to the depth over fewer layers and colours; coordinate values over the range of single precision; every choice of coordinates that are zero, of bulges and widths; colours; layer names with every character; blocks and entities together; each saved as DXB and loaded again",
        &["coordinates are compared in single precision; z coordinates only where DXB has them (lines and faces)", "a layer name with characters that one byte cannot hold may come back changed, but nothing else may"],
        true,
    )
}
