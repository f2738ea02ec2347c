//! C27: constructors, typed groups, item wrappers and child lists give back what they were given.
use crate::catalog::*;
use crate::core::*;
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde::Serialize;
use serde_json::{json, Value};

fn tv<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap()
}
const REALS: [f64; 9] = [0.0, 1.0, -1.5, 2.25, 1e-300, 1e300, -7.0, 90.0, 360.5];
fn judge(c: &Ctx, key: &str, f: impl FnOnce() -> Result<(), String>) {
    if c.skip(key) {
        return;
    }
    c.eval(1);
    match guard(f) {
        Ok(Ok(())) => c.distinct(key.as_bytes()),
        Ok(Err(e)) | Err(e) => c.fail(key, &e, || json!({"case": key})),
    }
}
fn same(what: &str, want: &Value, got: &Value) -> Result<(), String> {
    let mut out = vec![];
    crate::gen::diff(want, got, 0.0, "", &mut out);
    match out.first() {
        None => Ok(()),
        Some(x) => Err(format!("{}: {} (expected -> got)", what, x)),
    }
}
/// The default of the type with the given fields replaced.
fn with<T: Default + Serialize>(fs: &[(&str, Value)]) -> Value {
    let mut v = tv(&T::default());
    for (k, x) in fs {
        let slot = v.get_mut(*k).unwrap_or_else(|| panic!("no field {}", k));
        *slot = x.clone();
    }
    v
}
fn constructors(c: &Ctx) {
    let pt = |x: f64, y: f64, z: f64| json!({"x": x, "y": y, "z": z});
    for (i, &a) in REALS.iter().enumerate() {
        for (j, &b) in REALS.iter().enumerate() {
            for (k, &d) in REALS.iter().enumerate() {
                judge(c, &format!("constructors {} {} {}", i, j, k), || {
                    let p = Point::new(a, b, d);
                    same("Point::new", &pt(a, b, d), &tv(&p))?;
                    if p.tuple() != (a, b, d) {
                        return Err(format!("Point::tuple gives {:?}", p.tuple()));
                    }
                    same("Vector::new", &pt(a, b, d), &tv(&Vector::new(a, b, d)))?;
                    let q = Point::new(d, a + 1.0, b + 2.0);
                    let r = Point::new(b + 3.0, d + 4.0, a + 5.0);
                    let s = Point::new(a + 6.0, d + 7.0, b + 8.0);
                    same("Line::new", &with::<Line>(&[("p1", tv(&p)), ("p2", tv(&q))]), &tv(&Line::new(p.clone(), q.clone())))?;
                    same("Circle::new", &with::<Circle>(&[("center", tv(&p)), ("radius", json!(d))]), &tv(&Circle::new(p.clone(), d)))?;
                    same("Arc::new", &with::<Arc>(&[("center", tv(&q)), ("radius", json!(a)), ("start_angle", json!(b)), ("end_angle", json!(d))]), &tv(&Arc::new(q.clone(), a, b, d)))?;
                    same("ModelPoint::new", &with::<ModelPoint>(&[("location", tv(&p))]), &tv(&ModelPoint::new(p.clone())))?;
                    let cs = [("first_corner", tv(&p)), ("second_corner", tv(&q)), ("third_corner", tv(&r)), ("fourth_corner", tv(&s))];
                    same("Solid::new", &with::<Solid>(&cs), &tv(&Solid::new(p.clone(), q.clone(), r.clone(), s.clone())))?;
                    same("Trace::new", &with::<Trace>(&cs), &tv(&Trace::new(p.clone(), q.clone(), r.clone(), s.clone())))?;
                    same("Face3D::new", &with::<Face3D>(&cs), &tv(&Face3D::new(p.clone(), q.clone(), r.clone(), s.clone())))?;
                    same("GeoMeshPoint::new", &json!({"source": tv(&p), "destination": tv(&q)}), &tv(&GeoMeshPoint::new(p.clone(), q.clone())))?;
                    let col = Color::from_index(j as u8 + 1);
                    same("MLineStyleElement::new", &json!({"offset": a, "color": tv(&col), "line_type": format!("t{}", k)}), &tv(&MLineStyleElement::new(a, col, format!("t{}", k))))
                });
            }
        }
    }
    judge(c, "fixed values", || {
        same("Point::origin", &pt(0.0, 0.0, 0.0), &tv(&Point::origin()))?;
        same("Vector::zero", &pt(0.0, 0.0, 0.0), &tv(&Vector::zero()))?;
        same("Vector::x_axis", &pt(1.0, 0.0, 0.0), &tv(&Vector::x_axis()))?;
        same("Vector::y_axis", &pt(0.0, 1.0, 0.0), &tv(&Vector::y_axis()))?;
        same("Vector::z_axis", &pt(0.0, 0.0, 1.0), &tv(&Vector::z_axis()))?;
        let m = tv(&TransformationMatrix::identity());
        for i in 1..5 {
            for j in 1..5 {
                let f = format!("m{}{}", i, j);
                if m[&f].as_f64() != Some((i == j) as u8 as f64) {
                    return Err(format!("the identity has {} in {}", m[&f], f));
                }
            }
        }
        Ok(())
    });
    // an entity or object has the default common values around what it is made of
    for k in [Kind::Entity, Kind::Object] {
        for (n, v) in types_of(k) {
            judge(c, &format!("new {}", n), || {
                let common = if k == Kind::Entity { tv(&EntityCommon::default()) } else { tv(&ObjectCommon::default()) };
                let got = if k == Kind::Entity {
                    tv(&Entity::new(serde_json::from_value::<Entity>(v.clone()).map_err(|e| e.to_string())?.specific))
                } else {
                    tv(&Object::new(serde_json::from_value::<Object>(v.clone()).map_err(|e| e.to_string())?.specific))
                };
                same("common", &common, &got["common"])?;
                same("specific", &v["specific"], &got["specific"])
            });
        }
    }
}
fn groups(c: &Ctx) {
    // every typed value, through every accessor, against every other value
    let mut ps: Vec<(char, String, CodePair)> = vec![];
    for s in ["", " ", "0", "1", "x", "1.5", "\u{e9}"] {
        ps.push(('s', s.into(), CodePair::new_str(7, s)));
        ps.push(('s', s.into(), CodePair::new_string(7, s)));
    }
    for b in [vec![], vec![0u8], vec![1], vec![1, 0], vec![255; 3]] {
        ps.push(('b', format!("{:?}", b), CodePair::new_binary(7, b)));
    }
    for i in [i16::MIN, -1, 0, 1, 255, 256, i16::MAX] {
        ps.push(('i', i.to_string(), CodePair::new_i16(7, i)));
    }
    for i in [i32::MIN, -32769, -1, 0, 1, 65536, i32::MAX] {
        ps.push(('j', i.to_string(), CodePair::new_i32(7, i)));
    }
    for i in [i64::MIN, -1, 0, 1, 1 << 32, i64::MAX] {
        ps.push(('k', i.to_string(), CodePair::new_i64(7, i)));
    }
    for f in [-1e300, -1.0, 0.0, 1e-300, 0.1, 1.0, 1.5, 1e300] {
        ps.push(('f', format!("{:?}", f), CodePair::new_f64(7, f)));
    }
    for b in [false, true] {
        ps.push(('o', b.to_string(), CodePair::new_bool(7, b)));
    }
    for (t, v, p) in &ps {
        judge(c, &format!("group {} {:?}", t, v), || {
            let got = [
                ('s', p.assert_string().ok()),
                ('b', p.assert_binary().ok().map(|x| format!("{:?}", x))),
                ('i', p.assert_i16().ok().map(|x| x.to_string())),
                ('j', p.assert_i32().ok().map(|x| x.to_string())),
                ('k', p.assert_i64().ok().map(|x| x.to_string())),
                ('f', p.assert_f64().ok().map(|x| format!("{:?}", x))),
                ('o', p.assert_bool().ok().map(|x| x.to_string())),
            ];
            for (u, g) in got {
                // a boolean is stored as a short and can be read as one
                let want = match (u, *t) {
                    ('i', 'o') => Some(if v == "true" { "1".to_string() } else { "0".to_string() }),
                    _ if u == *t => Some(v.clone()),
                    _ => None,
                };
                if g != want {
                    return Err(format!("read as {}: {:?}, expected {:?}", u, g, want));
                }
            }
            Ok(())
        });
    }
    for (t, v, p) in &ps {
        for (u, w, q) in &ps {
            for code in [7, 8] {
                judge(c, &format!("equal {}{:?} {}{:?} {}", t, v, u, w, code), || {
                    let mut q = q.clone();
                    q.code = code;
                    q.offset = 99;
                    let want = t == u && v == w && code == 7;
                    if (p == &q) != want || (q == *p) != want {
                        return Err(format!("{:?} == {:?} is {}", p, q, p == &q));
                    }
                    Ok(())
                });
            }
        }
    }
}
fn wrappers(c: &Ctx) {
    for h in [0u64, 1, 0x10, 0xFFFF, u64::MAX] {
        let h = Handle(h);
        macro_rules! go {
            ($v:ident, $x:expr, $f:expr) => {{
                judge(c, &format!("wrapper {} {:X}", stringify!($v), h.0), || {
                    let mut x = $x;
                    let mut m = DrawingItemMut::$v(&mut x);
                    if m.handle() != Handle(0) {
                        return Err("a new item has a handle".into());
                    }
                    m.set_handle(h);
                    if m.handle() != h {
                        return Err(format!("the wrapper has handle {:X}", m.handle().0));
                    }
                    match m.to_drawing_item() {
                        DrawingItem::$v(y) if $f(y) == h => (),
                        _ => return Err("the shared wrapper is of another kind or item".into()),
                    }
                    if m.to_drawing_item().handle() != h {
                        return Err("the shared wrapper has another handle".into());
                    }
                    if $f(&x) != h {
                        return Err(format!("the item has handle {:X}", $f(&x).0));
                    }
                    Ok(())
                })
            }};
        }
        go!(AppId, AppId::default(), |x: &AppId| x.handle);
        go!(Block, Block::default(), |x: &Block| x.handle);
        go!(BlockRecord, BlockRecord::default(), |x: &BlockRecord| x.handle);
        go!(DimStyle, DimStyle::default(), |x: &DimStyle| x.handle);
        go!(Entity, Entity::new(EntityType::Line(Default::default())), |x: &Entity| x.common.handle);
        go!(Layer, Layer::default(), |x: &Layer| x.handle);
        go!(LineType, LineType::default(), |x: &LineType| x.handle);
        go!(Object, Object::new(ObjectType::PlaceHolder(Default::default())), |x: &Object| x.common.handle);
        go!(Style, Style::default(), |x: &Style| x.handle);
        go!(Ucs, Ucs::default(), |x: &Ucs| x.handle);
        go!(View, View::default(), |x: &View| x.handle);
        go!(ViewPort, ViewPort::default(), |x: &ViewPort| x.handle);
        judge(c, &format!("handle {:X}", h.0), || {
            if h.is_empty() != (h.0 == 0) || Handle::empty().0 != 0 {
                return Err("is_empty".into());
            }
            if h.as_string() != format!("{:X}", h.0) {
                return Err(h.as_string());
            }
            if h.0 != u64::MAX && h.next_handle_value().0 != h.0 + 1 {
                return Err("next_handle_value".into());
            }
            Ok(())
        });
    }
}
fn children(c: &Ctx) {
    for n in 0..=6usize {
        for change in 0..=n {
            judge(c, &format!("{} children, {} changed", n, change), || {
                let mut d = Drawing::new();
                let mut p = Polyline::default();
                let mut ins = Insert::default();
                for i in 0..n {
                    p.add_vertex(&mut d, Vertex { bulge: i as f64, ..Default::default() });
                    ins.add_attribute(&mut d, Attribute { thickness: i as f64, ..Default::default() });
                }
                let (vs, as_): (Vec<f64>, Vec<f64>) = (p.vertices().map(|v| v.bulge).collect(), ins.attributes().map(|v| v.thickness).collect());
                let mut want: Vec<f64> = (0..n).map(|i| i as f64).collect();
                if vs != want || as_ != want {
                    return Err(format!("{:?} {:?}", vs, as_));
                }
                for (i, v) in p.vertices_mut().enumerate() {
                    if v.bulge != i as f64 {
                        return Err(format!("vertex {} visited as {}", v.bulge, i));
                    }
                    if i == change {
                        v.bulge = 99.0;
                    }
                }
                for (i, v) in ins.attributes_mut().enumerate() {
                    if v.thickness != i as f64 {
                        return Err(format!("attribute {} visited as {}", v.thickness, i));
                    }
                    if i == change {
                        v.thickness = 99.0;
                    }
                }
                if change < n {
                    want[change] = 99.0;
                }
                let (vs, as_): (Vec<f64>, Vec<f64>) = (p.vertices().map(|v| v.bulge).collect(), ins.attributes().map(|v| v.thickness).collect());
                if vs != want || as_ != want {
                    return Err(format!("after changing: {:?} {:?}", vs, as_));
                }
                // the same through the entity in the drawing, and after a save and load
                d.add_entity(Entity::new(EntityType::Polyline(p)));
                d.add_entity(Entity::new(EntityType::Insert(ins)));
                for e in d.entities_mut() {
                    match e.specific {
                        EntityType::Polyline(ref mut p) => p.vertices_mut().for_each(|v| v.bulge += 1.0),
                        EntityType::Insert(ref mut p) => p.attributes_mut().for_each(|v| v.thickness += 1.0),
                        _ => (),
                    }
                }
                let d = load(&save(&d, false)?)?;
                for e in d.entities() {
                    let got: Vec<f64> = match e.specific {
                        EntityType::Polyline(ref p) => p.vertices().map(|v| v.bulge - 1.0).collect(),
                        EntityType::Insert(ref p) => p.attributes().map(|v| v.thickness - 1.0).collect(),
                        _ => vec![],
                    };
                    if got != want {
                        return Err(format!("after changing in the drawing: {:?}", got));
                    }
                }
                Ok(())
            });
        }
    }
}
fn packed(c: &Ctx) {
    let words: Vec<i32> = (0..16).flat_map(|b| [1 << b, (1 << b) - 1]).chain([0, 0xFFFF, 0x1234, 0xABCD]).collect();
    for &a in &words {
        judge(c, &format!("proxy versions {:X}", a), || {
            for &b in &words {
                for first in [false, true] {
                    let mut p = ProxyEntity::default();
                    for x in [first, !first] {
                        if x {
                            p.set_object_drawing_format_version(a);
                        } else {
                            p.set_object_mainenance_release_version(b);
                        }
                    }
                    if (p.object_drawing_format_version(), p.object_maintenance_release_version()) != (a, b) {
                        return Err(format!("set {:X} and {:X}, got {:X} and {:X}", a, b, p.object_drawing_format_version(), p.object_maintenance_release_version()));
                    }
                    // what does not fit one word does not spill into the other
                    for wild in [-1, i32::MIN, i32::MAX, 0x10000, 0x12345] {
                        let mut q = p.clone();
                        q.set_object_drawing_format_version(wild);
                        if q.object_maintenance_release_version() != b {
                            return Err(format!("setting the format version to {:X} changes the release from {:X} to {:X}", wild, b, q.object_maintenance_release_version()));
                        }
                        let mut q = p.clone();
                        q.set_object_mainenance_release_version(wild);
                        if q.object_drawing_format_version() != a {
                            return Err(format!("setting the release to {:X} changes the format version from {:X} to {:X}", wild, a, q.object_drawing_format_version()));
                        }
                    }
                    p.set_object_drawing_format_version(b);
                    if (p.object_drawing_format_version(), p.object_maintenance_release_version()) != (b, b) {
                        return Err(format!("set again {:X}", b));
                    }
                }
            }
            Ok(())
        });
    }
}
pub fn run(c: &Ctx) -> i32 {
    c.begin("constructors");
    constructors(c);
    groups(c);
    c.begin("wrappers and children");
    wrappers(c);
    children(c);
    packed(c);
    c.end();
    c.finish(
        "exploration",
        "all triples of nine numbers as arguments of every constructor, compared with the type's default with exactly the named fields replaced; every typed group value through every accessor and against every other value; every wrapper x handles; lists of up to six children with each one changed; all pairs of word values in the packed versions",
        &["a boolean group may also be read as a short"],
        true,
    )
}
