//! C05 and C18: items next to one another, in blocks, in every version, and through changes of version.
use crate::catalog::*;
use crate::core::*;
use crate::corpus::{self, Item};
use crate::gen;
use crate::hist::bare;
use crate::rt;
use crate::util::*;
use dxf::*;
use image::{DynamicImage, GenericImageView};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Mutex;

/// An item as it is compared: without handles and scratch fields.
fn plain(v: &Value) -> Value {
    let mut v = bare(v);
    gen::strip(&mut v);
    if let Some(Value::Object(m)) = v.pointer_mut("/specific/Insert") {
        m.remove("__seqend_handle");
    }
    v
}
fn plains(k: Kind, d: &Drawing) -> Vec<Value> {
    get(k, d).iter().map(plain).collect()
}
fn contents(d: &Drawing) -> Vec<Value> {
    d.blocks().flat_map(|b| b.entities.iter().map(|e| plain(&serde_json::to_value(e).unwrap())).collect::<Vec<_>>()).collect()
}
fn block_of(vs: &[&Value]) -> Value {
    let mut b = types_of(Kind::Block)[0].1.clone();
    b["entities"] = json!(vs);
    b
}
/// What comes back when the item is alone in the drawing (nothing if the version does not have it).
fn solo(k: Kind, v: &Value, ver: usize, bin: bool, in_block: bool) -> Result<Vec<Value>, String> {
    let mut d = empty_drawing(VERSIONS[ver]);
    if in_block {
        put(Kind::Block, &mut d, &block_of(&[v]))?;
    } else {
        put(k, &mut d, v)?;
    }
    let d = load(&save(&d, bin)?)?;
    if ver >= 9 && d.header.version != VERSIONS[if ver == 11 { 12 } else { ver }] {
        // (R11 and R12 have the same version name)
        return Err(format!("the file loads as {:?}", d.header.version));
    }
    Ok(if in_block { contents(&d) } else { plains(k, &d) })
}
fn same(want: &[Value], got: &[Value], tol: f64) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let ty = |l: &[Value]| -> Vec<String> {
        l.iter()
            .map(|v| match v.get("specific").and_then(|s| s.as_object()) {
                Some(m) => m.keys().next().cloned().unwrap_or_default(),
                None => v["name"].as_str().or(v["record_name"].as_str()).unwrap_or("").to_string(),
            })
            .collect()
    };
    if ty(want) != ty(got) {
        return Err(format!("expected {:?}, got {:?}", ty(want), ty(got)));
    }
    let mut o = vec![];
    gen::diff(&json!(want), &json!(got), tol, "", &mut o);
    if o.is_empty() {
        Ok(())
    } else {
        Err(o.join("; "))
    }
}
type Solos = Vec<BTreeMap<(usize, bool, bool), Result<Vec<Value>, String>>>;
/// A case: put a list of items (or a block holding them) in a drawing; what comes back is what comes back of each alone.
#[allow(clippy::too_many_arguments)]
fn together(c: &Ctx, key: &str, its: &[(Kind, &Value, &Result<Vec<Value>, String>)], ver: usize, bin: bool, in_block: bool) {
    if c.skip(key) {
        return;
    }
    c.begin(key);
    c.eval(1);
    let k = its[0].0;
    let r = guard(|| -> Result<(), String> {
        let mut want = vec![];
        for (_, _, s) in its {
            match s {
                Ok(l) => want.extend(l.iter().cloned()),
                Err(e) => return Err(format!("alone: {}", e)),
            }
        }
        let mut d = empty_drawing(VERSIONS[ver]);
        if in_block {
            put(Kind::Block, &mut d, &block_of(&its.iter().map(|x| x.1).collect::<Vec<_>>()))?;
        } else {
            for (k, v, _) in its {
                put(*k, &mut d, v)?;
            }
        }
        let n = its.len();
        let d = load(&save(&d, bin)?)?;
        let got = if in_block { contents(&d) } else { plains(k, &d) };
        if !want.is_empty() && n > 1 {
            c.distinct(key.split('@').next().unwrap().as_bytes());
        }
        same(&want, &got, 0.0)
    });
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) | Err(e) => c.fail(key, &e, || json!({"items": its.iter().map(|x| x.1).collect::<Vec<_>>(), "version": format!("{:?}", VERSIONS[ver]), "encoding": enc(bin)})),
    }
}
fn solos(c: &Ctx, its: &[(Kind, String, Value)], cfg: &[(usize, bool, bool)]) -> Solos {
    let out: Vec<Mutex<BTreeMap<_, _>>> = its.iter().map(|_| Mutex::new(BTreeMap::new())).collect();
    c.par(its.len(), |n| {
        c.begin(&its[n].1);
        let mut m = BTreeMap::new();
        for x in cfg {
            if x.2 && its[n].0 != Kind::Entity {
                continue;
            }
            let r = guard(|| solo(its[n].0, &its[n].2, x.0, x.1, x.2)).unwrap_or_else(Err);
            m.insert(*x, r);
        }
        *out[n].lock().unwrap() = m;
        c.end();
    });
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}
fn variants(its: &[Item], kinds: &[Kind]) -> Vec<(Kind, String, Value)> {
    its.iter().filter(|i| kinds.contains(&i.kind)).flat_map(|i| [(i.kind, i.name.clone(), i.full.clone()), (i.kind, format!("{} default", i.name), i.default.clone())]).collect()
}

pub fn c05(c: &Ctx) -> i32 {
    rt::explore(c, &[Kind::Block, Kind::Class]);
    let its = corpus::items(&corpus::ALL_KINDS);
    let cfg: Vec<(usize, bool)> = if c.thorough { (9..VERSIONS.len()).flat_map(|v| [(v, false), (v, true)]).collect() } else { vec![(12, false), (15, true), (20, false)] };
    let full: Vec<(usize, bool, bool)> = cfg.iter().flat_map(|x| [(x.0, x.1, false), (x.0, x.1, true)]).collect();
    // ordered pairs of entities (also inside a block) and of objects
    for k in [Kind::Entity, Kind::Object] {
        let vs = variants(&its, &[k]);
        let ss = solos(c, &vs, &full);
        let n = vs.len();
        c.extra(&format!("{:?}_pairs", k), json!(n * n));
        c.par(n * n, |x| {
            let (i, j) = (x / n, x % n);
            if !c.thorough && i % 2 == 1 && j % 2 == 1 {
                return; // two defaults
            }
            for f in &full {
                if f.2 && k != Kind::Entity {
                    continue;
                }
                let key = format!("{} then {}{}@{:?}/{}", vs[i].1, vs[j].1, if f.2 { " in a block" } else { "" }, VERSIONS[f.0], enc(f.1));
                together(c, &key, &[(k, &vs[i].2, &ss[i][f]), (k, &vs[j].2, &ss[j][f])], f.0, f.1, f.2);
            }
            c.end();
        });
    }
    // every sequence of up to four table entries, blocks or classes
    for k in corpus::ALL_KINDS {
        if k == Kind::Entity || k == Kind::Object {
            continue;
        }
        let mut vs = variants(&its, &[k]);
        let mut third = vs[1].clone();
        let f = if k == Kind::Class { "record_name" } else { "name" };
        third.2[f] = json!("third");
        vs.push(third);
        let ss = solos(c, &vs, &full);
        c.par(81 + 27 + 9, |x| {
            let (n, mut y) = match x {
                0..=80 => (4, x),
                81..=107 => (3, x - 81),
                _ => (2, x - 108),
            };
            let mut l = vec![];
            for _ in 0..n {
                l.push(y % 3);
                y /= 3;
            }
            for f in full.iter().filter(|f| !f.2) {
                let key = format!("{:?} {:?}@{:?}/{}", k, l, VERSIONS[f.0], enc(f.1));
                let its: Vec<_> = l.iter().map(|i| (k, &vs[*i].2, &ss[*i][f])).collect();
                together(c, &key, &its, f.0, f.1, false);
            }
            c.end();
        });
    }
    // blocks holding entities between blocks and entities outside: nothing moves between them
    {
        let vs = variants(&its, &[Kind::Entity]);
        c.par(vs.len(), |i| {
            for &(ver, bin) in &cfg {
                let key = format!("{} in one of three blocks and outside@{:?}/{}", vs[i].1, VERSIONS[ver], enc(bin));
                if c.skip(&key) {
                    continue;
                }
                c.begin(&key);
                c.eval(1);
                let r = guard(|| -> Result<(), String> {
                    let line = types_of(Kind::Entity).into_iter().find(|t| t.0 == "Line").unwrap().1;
                    let mut d = empty_drawing(VERSIONS[ver]);
                    for (n, l) in [("A", vec![&line]), ("B", vec![&line, &vs[i].2, &vs[i].2]), ("C", vec![&vs[i].2]), ("D", vec![])] {
                        let mut b = block_of(&l);
                        b["name"] = json!(n);
                        put(Kind::Block, &mut d, &b)?;
                    }
                    put(Kind::Entity, &mut d, &vs[i].2)?;
                    put(Kind::Entity, &mut d, &line)?;
                    let s = solo(Kind::Entity, &vs[i].2, ver, bin, true)?;
                    let o = solo(Kind::Entity, &vs[i].2, ver, bin, false)?;
                    let ln = solo(Kind::Entity, &line, ver, bin, true)?;
                    let d = load(&save(&d, bin)?)?;
                    let mut w = vec![];
                    w.push(ln.clone());
                    w.push(ln.iter().chain(&s).chain(&s).cloned().collect());
                    w.push(s);
                    w.push(vec![]);
                    let names: Vec<String> = d.blocks().map(|b| b.name.clone()).collect();
                    if names != ["A", "B", "C", "D"] {
                        return Err(format!("blocks {:?}", names));
                    }
                    for (b, w) in d.blocks().zip(&w) {
                        let got: Vec<Value> = b.entities.iter().map(|e| plain(&serde_json::to_value(e).unwrap())).collect();
                        same(w, &got, 0.0).map_err(|e| format!("block {}: {}", b.name, e))?;
                    }
                    let want: Vec<Value> = o.iter().chain(&ln).cloned().collect();
                    same(&want, &plains(Kind::Entity, &d), 0.0).map_err(|e| format!("outside: {}", e))
                });
                match r {
                    Ok(Ok(())) => c.distinct(key.split('@').next().unwrap().as_bytes()),
                    Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"entity": vs[i].2})),
                }
            }
            c.end();
        });
    }
    thumbnails(c);
    bitmaps(c);
    many(c, &cfg);
    // one of everything, again and again
    let reps: Vec<(usize, bool, bool)> = cfg.iter().flat_map(|x| [(x.0, x.1, false), (x.0, x.1, true)]).collect();
    c.par(reps.len(), |n| {
        let (ver, bin, full) = reps[n];
        let key = format!("one of everything ({}) three times@{:?}/{}", if full { "full" } else { "default" }, VERSIONS[ver], enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(3);
        let r = guard(|| -> Result<(), String> {
            let mut d = corpus::mixed(ver, full, |_| true);
            let mut last: Option<Vec<Vec<Value>>> = None;
            for round in 0..4 {
                d = load(&save(&d, bin)?)?;
                let now: Vec<Vec<Value>> = corpus::ALL_KINDS.iter().map(|k| plains(*k, &d)).collect();
                if let Some(l) = &last {
                    for (i, k) in corpus::ALL_KINDS.iter().enumerate() {
                        same(&l[i], &now[i], if bin { 0.0 } else { 1e-11 }).map_err(|e| format!("round {}, {:?}: {}", round + 1, k, e))?;
                    }
                }
                last = Some(now);
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => c.distinct(key.as_bytes()),
            Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"version": format!("{:?}", VERSIONS[ver])})),
        }
        c.end();
    });
    // a view port with a coordinate system of its own
    for ver in 15..VERSIONS.len() {
        for bin in [false, true] {
            let key = format!("view port with its own ucs, twice@{:?}/{}", VERSIONS[ver], enc(bin));
            if c.skip(&key) {
                continue;
            }
            c.eval(2);
            let r = guard(|| -> Result<(), String> {
                let mut v = types_of(Kind::ViewPort).remove(0).1;
                v["has_own_ucs"] = json!(true);
                v["ucs_elevation"] = json!(4.5);
                let mut d = empty_drawing(VERSIONS[ver]);
                put(Kind::ViewPort, &mut d, &v)?;
                let one = load(&save(&d, bin)?)?;
                let two = load(&save(&one, bin)?)?;
                same(&plains(Kind::ViewPort, &one), &plains(Kind::ViewPort, &two), 0.0)
            });
            match r {
                Ok(Ok(())) => c.distinct(key.as_bytes()),
                Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({})),
            }
        }
    }
    c.finish(
        "exploration",
        "every block and class field over its value domain x version x encoding, with pairs of fields; all ordered pairs of entity types (in the drawing and in a block) and of object types; all sequences of two to four entries per table, of blocks and of classes; every entity type distributed over blocks; thumbnails of all small sizes, and bitmaps of each header, depth and palette size as other programs write them; one of everything through four cycles; distinct by case without version and encoding",
        &["what a version cannot carry of one item is decided by C01 to C04 and listed in golden/C05.tsv for blocks and classes"],
        true,
    )
}
/// Long lists of every kind, numbered.
fn many(c: &Ctx, cfg: &[(usize, bool)]) {
    use dxf::entities::*;
    let line = |i: usize| Entity::new(EntityType::Line(Line { thickness: i as f64, ..Default::default() }));
    let number = |e: &Entity| match e.specific {
        EntityType::Line(ref l) => l.thickness as usize,
        _ => usize::MAX,
    };
    let ns = [31usize, 32, 33, 127, 128, 129, 255, 256, 257, 1000, 1025];
    let mut jobs = vec![];
    for &(ver, bin) in cfg {
        for (i, n) in ns.iter().enumerate() {
            jobs.push((ver, bin, *n, i));
        }
    }
    jobs.push((20, false, 70_000, 0));
    jobs.push((20, true, 70_000, 0));
    c.par(jobs.len(), |x| {
        let (ver, bin, n, _) = jobs[x];
        let key = format!("{} of each kind@{:?}/{}", n, VERSIONS[ver], enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(1);
        let r = guard(|| -> Result<(), String> {
            let mut d = empty_drawing(VERSIONS[ver]);
            for i in 0..n {
                d.add_entity(line(i));
            }
            if n <= 2000 {
                // a polyline and an insert with as many children, a block with as many entities, and as many blocks
                let mut p = Polyline::default();
                let mut ins = Insert::default();
                let mut b = Block { name: "LONG".into(), ..Default::default() };
                for i in 0..n {
                    p.add_vertex(&mut d, Vertex { bulge: i as f64, ..Default::default() });
                    ins.add_attribute(&mut d, Attribute { thickness: i as f64, ..Default::default() });
                    b.entities.push(line(i));
                }
                d.add_entity(Entity::new(EntityType::Polyline(p)));
                d.add_entity(Entity::new(EntityType::Insert(ins)));
                d.add_block(b);
                for i in 0..n {
                    let mut b = Block { name: format!("B{}", i), ..Default::default() };
                    b.entities.push(line(i));
                    d.add_block(b);
                    d.add_layer(dxf::tables::Layer { name: format!("L{}", i), ..Default::default() });
                    d.add_view(dxf::tables::View { name: format!("V{}", i), ..Default::default() });
                    if VERSIONS[ver] >= dxf::enums::AcadVersion::R13 {
                        let o = dxf::objects::DictionaryVariable { value: format!("O{}", i), ..Default::default() };
                        d.add_object(dxf::objects::Object::new(dxf::objects::ObjectType::DictionaryVariable(o)));
                        d.classes.push(Class { record_name: format!("C{}", i), ..Default::default() });
                    }
                }
            }
            let handles: Vec<Handle> = d.entities().map(|e| e.common.handle).collect();
            let d = load(&save(&d, bin)?)?;
            let in_order = |what: &str, got: Vec<usize>| if got == (0..n).collect::<Vec<_>>() { Ok(()) } else { Err(format!("{} {} came back as {} in another order or number", n, what, got.len())) };
            let tail = |p: &str, s: &str| s.strip_prefix(p).and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
            in_order("entities", d.entities().take(n).map(number).collect())?;
            if handles != d.entities().map(|e| e.common.handle).collect::<Vec<_>>() {
                return Err("the handles of the entities changed".into());
            }
            if n > 2000 {
                return Ok(());
            }
            for e in d.entities().skip(n) {
                match e.specific {
                    EntityType::Polyline(ref p) => in_order("vertices", p.vertices().map(|v| v.bulge as usize).collect())?,
                    EntityType::Insert(ref p) => in_order("attributes", p.attributes().map(|v| v.thickness as usize).collect())?,
                    _ => return Err("another entity".into()),
                }
            }
            if d.entities().count() != n + 2 {
                return Err(format!("{} entities", d.entities().count()));
            }
            in_order("entities of a block", d.blocks().next().ok_or("no block")?.entities.iter().map(number).collect())?;
            in_order("blocks", d.blocks().skip(1).map(|b| tail("B", &b.name)).collect())?;
            in_order("entities of blocks", d.blocks().skip(1).flat_map(|b| b.entities.iter().map(number)).collect())?;
            in_order("layers", d.layers().filter(|l| l.name.starts_with('L')).map(|l| tail("L", &l.name)).collect())?;
            in_order("views", d.views().filter(|l| l.name.starts_with('V')).map(|l| tail("V", &l.name)).collect())?;
            if VERSIONS[ver] >= dxf::enums::AcadVersion::R13 {
                in_order("objects", d.objects().filter_map(|o| match o.specific { dxf::objects::ObjectType::DictionaryVariable(ref v) => Some(tail("O", &v.value)), _ => None }).collect())?;
                in_order("classes", d.classes.iter().map(|x| tail("C", &x.record_name)).collect())?;
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => c.distinct(format!("{} of each", n).as_bytes()),
            Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"count": n, "version": format!("{:?}", VERSIONS[ver]), "encoding": enc(bin)})),
        }
        c.end();
    });
}
fn thumbnails(c: &Ctx) {
    let mut sizes: Vec<(u32, u32)> = vec![];
    let m = if c.thorough { 24 } else { 12 };
    for w in 1..=m {
        for h in 1..=m {
            sizes.push((w, h));
        }
    }
    for w in [31u32, 32, 33, 42, 43, 63, 64, 85, 127, 128, 129, 255, 256, 257, 300] {
        sizes.push((w, 2));
        sizes.push((1, w));
    }
    c.par(sizes.len(), |n| {
        let (w, h) = sizes[n];
        for form in 0..4 {
            for pat in 0..3u32 {
                let px = |x: u32, y: u32| -> [u8; 4] {
                    let v = match pat {
                        0 => x * 37 + y * 101,
                        1 => 255,
                        _ => (x + y) % 2 * 255 + x,
                    };
                    [v as u8, (v >> 1) as u8 ^ 0x0A, (v * 3) as u8, 255]
                };
                let img = match form {
                    0 => DynamicImage::ImageRgb8(image::RgbImage::from_fn(w, h, |x, y| {
                        let p = px(x, y);
                        image::Rgb([p[0], p[1], p[2]])
                    })),
                    1 => DynamicImage::ImageRgba8(image::RgbaImage::from_fn(w, h, |x, y| image::Rgba(px(x, y)))),
                    2 => DynamicImage::ImageLuma8(image::GrayImage::from_fn(w, h, |x, y| image::Luma([px(x, y)[0]]))),
                    _ => DynamicImage::ImageLumaA8(image::ImageBuffer::from_fn(w, h, |x, y| image::LumaA([px(x, y)[0], 255]))),
                };
                for (ver, bin) in [(15usize, false), (15, true), (20, false), (20, true)] {
                    if !c.thorough && (pat == 1) != (ver == 20) && form != 0 {
                        continue;
                    }
                    let key = format!("thumbnail {}x{} form {} pattern {}@{:?}/{}", w, h, form, pat, VERSIONS[ver], enc(bin));
                    if c.skip(&key) {
                        continue;
                    }
                    c.begin(&key);
                    c.eval(1);
                    let r = guard(|| -> Result<(), String> {
                        let mut d = empty_drawing(VERSIONS[ver]);
                        d.thumbnail = Some(img.clone());
                        let d = load(&save(&d, bin)?)?;
                        match &d.thumbnail {
                            None => Err("the thumbnail is gone".into()),
                            Some(t) if t.dimensions() != (w, h) => Err(format!("came back as {:?}", t.dimensions())),
                            Some(t) if t.to_rgb8() != img.to_rgb8() => Err("the pixels changed".into()),
                            _ => Ok(()),
                        }
                    });
                    match r {
                        Ok(Ok(())) => c.distinct(key.split('@').next().unwrap().as_bytes()),
                        Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"width": w, "height": h})),
                    }
                }
            }
        }
        c.end();
    });
}

/// Thumbnails as other programs write them: each header, colour depth and palette, against the same bitmap with its file header.
fn bitmaps(c: &Ctx) {
    let mut cases = vec![];
    for header in [40u32, 52, 56, 108, 124] {
        for bpp in [1u32, 4, 8, 16, 24, 32] {
            let full = if bpp <= 8 { 1u32 << bpp } else { 0 };
            let mut used: Vec<u32> = vec![0, full];
            if bpp == 8 {
                used.extend(1..=255);
            } else if bpp == 4 {
                used.extend(1..=15);
            } else if bpp == 1 {
                used.push(1);
            } else {
                used.extend([1, 2, 16, 256]); // a suggestion only, but the entries are there
            }
            used.dedup();
            for u in used {
                for masks in [false, true] {
                    if masks && (bpp != 16 && bpp != 32) {
                        continue;
                    }
                    for top_down in [false, true] {
                        cases.push((header, bpp, u, masks, top_down));
                    }
                }
            }
        }
    }
    let judged = std::sync::atomic::AtomicU64::new(0);
    c.par(cases.len(), |n| {
        let (header, bpp, used, masks, top_down) = cases[n];
        for (w, h) in [(1u32, 1u32), (2, 3), (5, 2), (33, 3)] {
            let colors = if bpp <= 8 && used == 0 { 1 << bpp } else { used };
            let mut dib: Vec<u8> = vec![];
            let mut u32le = |v: u32| dib.extend(v.to_le_bytes());
            u32le(header);
            u32le(w);
            u32le(if top_down { (-(h as i32)) as u32 } else { h });
            u32le(1 | bpp << 16);
            u32le(if masks { 3 } else { 0 });
            let row = ((w * bpp + 31) / 32 * 4) as usize;
            u32le(row as u32 * h);
            u32le(2835);
            u32le(2835);
            u32le(used);
            u32le(0);
            if masks || header > 40 {
                let m: [u32; 3] = if bpp == 16 { [0xF800, 0x07E0, 0x001F] } else { [0xFF0000, 0xFF00, 0xFF] };
                for x in m {
                    u32le(if masks { x } else { 0 });
                }
            }
            while dib.len() < header as usize {
                dib.push(0);
            }
            for i in 0..colors {
                dib.extend([(i * 7 + 1) as u8, (i * 3 + 2) as u8, (255 - i) as u8, 0]);
            }
            let start = dib.len();
            for y in 0..h as usize {
                let mut r = vec![0u8; row];
                for x in 0..w as usize {
                    let v = x * 5 + y * 11 + 1;
                    match bpp {
                        1 => r[x / 8] |= ((v % 2) as u8 * (colors > 1) as u8) << (7 - x % 8),
                        4 => r[x / 2] |= ((v as u32 % colors) as u8) << (if x % 2 == 0 { 4 } else { 0 }),
                        8 => r[x] = (v as u32 % colors) as u8,
                        k => {
                            for b in 0..k as usize / 8 {
                                r[x * k as usize / 8 + b] = (v * (b + 3) * 17) as u8;
                            }
                        }
                    }
                }
                dib.extend(r);
            }
            let mut bmp = b"BM".to_vec();
            bmp.extend((14 + dib.len() as u32).to_le_bytes());
            bmp.extend([0; 4]);
            bmp.extend((14 + start as u32).to_le_bytes());
            bmp.extend(&dib);
            let Ok(Ok(want)) = guard(|| image::load_from_memory_with_format(&bmp, image::ImageFormat::Bmp)) else { continue };
            for (bin, part) in [(false, 127usize), (false, 31), (true, 254), (true, 31)] {
                let key = format!("bitmap {}x{} header {} depth {} colours {} masks {} top down {}/{} {}", w, h, header, bpp, used, masks, top_down, enc(bin), part);
                if c.skip(&key) {
                    continue;
                }
                c.begin(&key);
                c.eval(1);
                judged.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let mut gs = vec![crate::wire::s(0, "SECTION"), crate::wire::s(2, "THUMBNAILIMAGE")];
                gs.push(crate::wire::G { code: 90, v: crate::wire::V::I32(dib.len() as i32), at: 0 });
                gs.extend(dib.chunks(part).map(|p| crate::wire::G { code: 310, v: crate::wire::V::Bin(p.to_vec()), at: 0 }));
                gs.extend([crate::wire::s(0, "ENDSEC"), crate::wire::s(0, "EOF")]);
                let b = crate::wire::encode(&gs, bin, true);
                let r = guard(|| -> Result<(), String> {
                    match &load(&b)?.thumbnail {
                        None => Err("no thumbnail".into()),
                        Some(t) if t.to_rgba8() != want.to_rgba8() => Err("other pixels".into()),
                        _ => Ok(()),
                    }
                });
                match r {
                    Ok(Ok(())) => c.distinct(key.as_bytes()),
                    Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"header": header, "depth": bpp, "colours": used})),
                }
            }
        }
        c.end();
    });
    c.extra("bitmaps_of_other_programs", json!(judged.into_inner()));
}

// ---------------------------------------------------------------- C18
fn load_golden(c: &Ctx) -> BTreeMap<(String, usize, bool), String> {
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(c.verif.join("golden/C18.tsv")).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if l.starts_with('#') || f.len() < 3 {
            continue;
        }
        for v in f[1].split(',') {
            let (v, b) = (v[..v.len() - 1].parse().unwrap(), v.ends_with('b'));
            m.insert((f[0].to_string(), v, b), f[2].to_string());
        }
    }
    m
}
/// The fields that differ, without values.
fn lost_fields(want: &Value, got: &Value) -> String {
    fn go(a: &Value, b: &Value, tol: f64, p: &str, out: &mut Vec<String>) {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
                for (k, v) in x {
                    go(v, &y[k], tol, &format!("{}.{}", p, k), out);
                }
            }
            _ => {
                let mut o = vec![];
                gen::diff(a, b, tol, "", &mut o);
                if !o.is_empty() {
                    out.push(p.to_string());
                }
            }
        }
    }
    let mut o = vec![];
    go(want, got, 1e-11, "", &mut o);
    o.join(" ")
}
pub fn c18(c: &Ctx) -> i32 {
    let update = std::env::var("MC_UPDATE").is_ok();
    let golden = load_golden(c);
    let new: Mutex<BTreeMap<(String, String), Vec<String>>> = Default::default();
    let mut its = corpus::items(&corpus::ALL_KINDS);
    let mut h = types_of(Kind::Header).remove(0).1;
    crate::gen::pin_clock_values(&mut h);
    its.retain(|i| i.kind != Kind::Header);
    let vs = variants(&its, &corpus::ALL_KINDS);
    let first = if c.thorough { 0 } else { 7 };
    let cfg: Vec<(usize, bool)> = (first..VERSIONS.len()).flat_map(|v| [(v, false), (v, true)]).collect();
    let full: Vec<(usize, bool, bool)> = cfg.iter().map(|x| (x.0, x.1, false)).collect();
    let ss = solos(c, &vs, &full);
    // what each version keeps of each item
    c.par(vs.len(), |n| {
        let (k, name, v) = &vs[n];
        for f in &full {
            let key = format!("{}@{:?}/{}", name, VERSIONS[f.0], enc(f.1));
            if c.skip(&key) {
                continue;
            }
            c.begin(&key);
            c.eval(1);
            let mut d = empty_drawing(VERSIONS[f.0]);
            let got = match guard(|| put(*k, &mut d, v)) {
                Ok(Ok(())) => match &ss[n][f] {
                    Ok(l) if l.is_empty() => "-".to_string(),
                    Ok(l) if l.len() > 1 => format!("came back {} times", l.len()),
                    Ok(l) => lost_fields(&plains(*k, &d)[0], &l[0]),
                    Err(e) => {
                        c.fail(&key, e, || json!({"item": v}));
                        continue;
                    }
                },
                e => format!("{:?}", e),
            };
            if update {
                new.lock().unwrap().entry((name.clone(), got)).or_default().push(format!("{}{}", f.0, if f.1 { 'b' } else { 't' }));
                continue;
            }
            match golden.get(&(name.clone(), f.0, f.1)) {
                None => c.fail(&key, "no record of what this version keeps of this type", || json!({})),
                Some(w) if *w == got => {
                    if got != "-" {
                        c.distinct(name.as_bytes());
                    }
                }
                Some(w) => {
                    // keeping more than recorded is no loss
                    let a: Vec<&str> = got.split(' ').filter(|x| !x.is_empty()).collect();
                    let b: Vec<&str> = w.split(' ').collect();
                    let (present, was) = (got != "-", w != "-");
                    if present != was {
                        c.fail(&key, if present { "the version does not have this type, but it is written" } else { "the version has this type, but it is left out" }, || json!({"item": v}));
                    } else if let Some(x) = a.iter().find(|x| !b.contains(x)) {
                        c.fail(&key, &format!("{} does not survive", x), || json!({"item": v, "fields": a}));
                    }
                }
            }
        }
        c.end();
    });
    if update {
        let mut out = String::from("# what saving for a version (index, t text or b binary) does not keep of an item with every field set / at its default; - : the type does not exist there\n");
        for ((n, l), v) in new.lock().unwrap().iter() {
            out.push_str(&format!("{}\t{}\t{}\n", n, v.join(","), l));
        }
        std::fs::write(c.verif.join("golden/C18.tsv"), out).unwrap();
    }
    // neighbours of the same kind, before and after
    c.par(vs.len(), |n| {
        let (k, name, v) = &vs[n];
        let nb: Vec<usize> = (0..vs.len())
            .filter(|j| vs[*j].0 == *k)
            .filter(|j| match k {
                Kind::Entity => ["Line", "Polyline", "Text", "MText default", "Insert default"].contains(&vs[*j].1.as_str()),
                Kind::Object => ["Dictionary", "DictionaryVariable", "XRecordObject", "PlotSettings"].contains(&vs[*j].1.as_str()),
                _ => true,
            })
            .collect();
        for f in &full {
            for &a in &nb {
                for &b in if c.thorough { &nb[..] } else { &nb[..1] } {
                    let key = format!("{} between {} and {}@{:?}/{}", name, vs[a].1, vs[b].1, VERSIONS[f.0], enc(f.1));
                    together(c, &key, &[(*k, &vs[a].2, &ss[a][f]), (*k, v, &ss[n][f]), (*k, &vs[b].2, &ss[b][f])], f.0, f.1, false);
                }
            }
        }
        c.end();
    });
    // loaded as one version, saved for another: each item fares as it does alone
    let nv = VERSIONS.len() - first;
    c.par(nv * nv * 2, |x| {
        let (v1, v2, bin) = (first + x / 2 / nv, first + x / 2 % nv, x % 2 == 1);
        if !c.thorough && (v1 + v2) % 2 != x % 2 {
            return;
        }
        let key = format!("one of everything, {:?} saved as {:?}/{}", VERSIONS[v1], VERSIONS[v2], enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(1);
        let r = guard(|| -> Result<(), String> {
            let mut d = corpus::mixed(v1, true, |_| true);
            let mut d1 = load(&save(&d, bin)?)?;
            let has = |k: Kind, d: &Drawing| -> Vec<Value> { plains(k, d) };
            let one: Vec<Vec<Value>> = corpus::ALL_KINDS.iter().map(|k| get(*k, &d1)).collect();
            d1.header.version = VERSIONS[v2];
            d = load(&save(&d1, bin)?)?;
            if v2 >= 9 && d.header.version != VERSIONS[if v2 == 11 { 12 } else { v2 }] {
                return Err(format!("loads as {:?}", d.header.version));
            }
            for (i, k) in corpus::ALL_KINDS.iter().enumerate() {
                let mut want = vec![];
                for v in &one[i] {
                    want.extend(solo(*k, v, v2, bin, false)?);
                }
                let got = has(*k, &d);
                let (w, mut g) = (want, got);
                if TABLE_KINDS.contains(k) {
                    // loading adds the entries that others name; the rest stays in order
                    let names: Vec<String> = w.iter().map(|v| v["name"].as_str().unwrap_or("").to_string()).collect();
                    g.retain(|v| names.iter().any(|n| v["name"] == *n));
                }
                if *k == Kind::Object {
                    // the style that a multi-line names
                    g.truncate(w.len());
                }
                same(&w, &g, 1e-11).map_err(|e| format!("{:?}: {}", k, e))?;
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => c.distinct(key.as_bytes()),
            Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"from": format!("{:?}", VERSIONS[v1]), "to": format!("{:?}", VERSIONS[v2])})),
        }
        c.end();
    });
    c.extra("versions", json!(cfg.len() / 2));
    c.finish(
        "exploration",
        "every item type with every field set and at its default, alone and between neighbours, for every version x text and binary; one of everything loaded from each version and saved for each other version; distinct by type or version pair",
        &["which fields and types a version has is recorded in golden/C18.tsv and was reviewed against the minimum and maximum versions of the specification", "versions before R9 are explored in the thorough tier only from version index 0"],
        true,
    )
}
