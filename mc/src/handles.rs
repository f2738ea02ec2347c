//! C09: handles, over edit histories and over patterns of handles in files.
use crate::catalog::*;
use crate::core::*;
use crate::hist::remove;
use crate::refs::ITEM_KINDS;
use crate::util::*;
use crate::wire::{encode_text, s, G};
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;

/// (what, handle, may be absent) of everything that has a handle of its own.
fn handles(d: &Drawing) -> Vec<(String, u64, bool)> {
    let mut out = vec![];
    fn entity(at: String, v: &Value, out: &mut Vec<(String, u64, bool)>) {
        out.push((at.clone(), v["common"]["handle"].as_u64().unwrap_or(0), false));
        for (ty, s) in v["specific"].as_object().into_iter().flatten() {
            for f in ["__vertices_and_handles", "__attributes_and_handles"] {
                for (i, p) in s[f].as_array().into_iter().flatten().enumerate() {
                    out.push((format!("{} {} {}{}", at, ty, f, i), p[1].as_u64().unwrap_or(0), false));
                }
            }
            if let Some(h) = s.get("__seqend_handle") {
                out.push((format!("{} {} end", at, ty), h.as_u64().unwrap_or(0), true));
            }
        }
    }
    for k in ITEM_KINDS {
        for (i, v) in get(k, d).iter().enumerate() {
            match k {
                Kind::Entity => entity(format!("Entity{}", i), v, &mut out),
                Kind::Object => out.push((format!("Object{}", i), v["common"]["handle"].as_u64().unwrap_or(0), false)),
                Kind::Block => {
                    out.push((format!("Block{}", i), v["handle"].as_u64().unwrap_or(0), false));
                    for (j, e) in v["entities"].as_array().into_iter().flatten().enumerate() {
                        entity(format!("Block{} entity{}", i, j), e, &mut out);
                    }
                }
                _ => out.push((format!("{:?}{}", k, i), v["handle"].as_u64().unwrap_or(0), false)),
            }
        }
    }
    out
}
fn sound(d: &Drawing) -> Result<BTreeSet<u64>, String> {
    let mut seen = std::collections::BTreeMap::new();
    for (w, h, opt) in handles(d) {
        if h == 0 {
            if opt {
                continue;
            }
            return Err(format!("{} has no handle", w));
        }
        if let Some(o) = seen.insert(h, w.clone()) {
            return Err(format!("{} and {} both have handle {:X}", o, w, h));
        }
    }
    let next = d.header.next_available_handle.0;
    if next == 0 {
        return Err("the next handle is zero".into());
    }
    if let Some((h, w)) = seen.iter().next_back() {
        if *h >= next {
            return Err(format!("the next handle is {:X} but {} has {:X}", next, w, h));
        }
    }
    Ok(seen.into_keys().collect())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Line,
    Poly,
    EmptyPoly,
    Ins,
    EmptyIns,
    CloneLast,
    Foreign,
    ForeignPoly,
    PresetLine,
    Blk,
    CloneBlk,
    Layer,
    Ucs,
    App,
    Obj,
    MLine,
    TextNew,
    RemoveFirst,
    RemoveLast,
    RemoveBlock,
    RemoveLayer,
    Clear,
    OwnerLoose,
    OwnerHeld,
    Normalize,
    Trip(AcadVersion, bool, bool),
}
use Op::*;
fn ops() -> Vec<Op> {
    let mut v = vec![
        Line, Poly, EmptyPoly, Ins, EmptyIns, CloneLast, Foreign, ForeignPoly, PresetLine, Blk, CloneBlk, Layer, Ucs, App, Obj, MLine, TextNew, RemoveFirst, RemoveLast, RemoveBlock, RemoveLayer, Clear, OwnerLoose, OwnerHeld, Normalize,
    ];
    v.push(Trip(AcadVersion::R2018, false, true));
    v.push(Trip(AcadVersion::R13, true, true));
    v.push(Trip(AcadVersion::R12, false, true));
    v.push(Trip(AcadVersion::R12, true, false));
    v
}
fn poly(d: &mut Drawing) -> Entity {
    let mut p = Polyline::default();
    p.add_vertex(d, Vertex::default());
    p.add_vertex(d, Vertex::default());
    Entity::new(EntityType::Polyline(p))
}
fn ins(d: &mut Drawing) -> Entity {
    let mut i = Insert::default();
    i.add_attribute(d, Attribute::default());
    i.add_attribute(d, Attribute::default());
    Entity::new(EntityType::Insert(i))
}
fn other_drawing() -> Drawing {
    let mut o = Drawing::new();
    let e = poly(&mut o);
    o.add_entity(e);
    let e = ins(&mut o);
    o.add_entity(e);
    o.add_entity(Entity::new(EntityType::Line(Default::default())));
    o
}
/// `used` holds every handle ever given out that must not be given out again.
fn apply(d: &mut Drawing, used: &mut BTreeSet<u64>, op: Op) -> Result<(), String> {
    let before = handles(d);
    let mut returned = None;
    match op {
        Line => returned = Some(d.add_entity(Entity::new(EntityType::Line(Default::default()))).common.handle),
        Poly => {
            let e = poly(d);
            returned = Some(d.add_entity(e).common.handle);
        }
        EmptyPoly => returned = Some(d.add_entity(Entity::new(EntityType::Polyline(Default::default()))).common.handle),
        Ins => {
            let e = ins(d);
            returned = Some(d.add_entity(e).common.handle);
        }
        EmptyIns => returned = Some(d.add_entity(Entity::new(EntityType::Insert(Default::default()))).common.handle),
        CloneLast => {
            if let Some(e) = d.entities().last().cloned() {
                returned = Some(d.add_entity(e).common.handle);
            }
        }
        Foreign => {
            let o = other_drawing();
            let e = o.entities().last().unwrap().clone();
            returned = Some(d.add_entity(e).common.handle);
        }
        ForeignPoly => {
            let o = other_drawing();
            for e in o.entities().take(2) {
                returned = Some(d.add_entity(e.clone()).common.handle);
            }
        }
        PresetLine => {
            let mut e = Entity::new(EntityType::Line(Default::default()));
            e.common.handle = Handle(3);
            returned = Some(d.add_entity(e).common.handle);
        }
        Blk => {
            let mut b = Block { name: "B".into(), ..Default::default() };
            b.entities.push(Entity::new(EntityType::Line(Default::default())));
            b.entities.push(poly(d));
            b.entities.push(ins(d));
            returned = Some(d.add_block(b).handle);
        }
        CloneBlk => {
            if let Some(b) = d.blocks().last().cloned() {
                returned = Some(d.add_block(b).handle);
            }
        }
        Layer => returned = Some(d.add_layer(tables::Layer { name: "L".into(), line_type_name: "T".into(), ..Default::default() }).handle),
        Ucs => returned = Some(d.add_ucs(tables::Ucs { name: "U".into(), handle: Handle(2), ..Default::default() }).handle),
        App => returned = Some(d.add_app_id(AppId { name: "A".into(), ..Default::default() }).handle),
        Obj => returned = Some(d.add_object(Object::new(ObjectType::DictionaryVariable(Default::default()))).common.handle),
        MLine => returned = Some(d.add_entity(Entity::new(EntityType::MLine(entities::MLine { style_name: "M".into(), ..Default::default() }))).common.handle),
        TextNew => {
            let mut e = Entity::new(EntityType::Text(Text { text_style_name: "S".into(), ..Default::default() }));
            e.common.layer = "L2".into();
            e.common.line_type_name = "T2".into();
            returned = Some(d.add_entity(e).common.handle);
        }
        RemoveFirst => {
            remove(d, Kind::Entity, 0);
        }
        RemoveLast => {
            let n = d.entities().count();
            remove(d, Kind::Entity, n.wrapping_sub(1));
        }
        RemoveBlock => {
            remove(d, Kind::Block, 0);
        }
        RemoveLayer => {
            remove(d, Kind::Layer, 0);
        }
        Clear => {
            d.clear();
            used.clear();
        }
        // an item that was never added is made the owner of something: it gets a handle of its own
        OwnerLoose => {
            let mut e = Entity::new(EntityType::Line(Default::default()));
            let mut o = Object::new(ObjectType::PlaceHolder(Default::default()));
            let mut l = tables::Layer::default();
            let mut b = Block::default();
            b.set_owner(&mut DrawingItemMut::Object(&mut o), d);
            l.set_owner(&mut DrawingItemMut::Entity(&mut e), d);
            b.set_owner(&mut DrawingItemMut::Layer(&mut l), d);
            for (w, h) in [("object", o.common.handle), ("entity", e.common.handle), ("layer", l.handle)] {
                if h.0 == 0 || !used.insert(h.0) {
                    return Err(format!("the {} made an owner was given handle {:X}", w, h.0));
                }
            }
        }
        // one that has a handle keeps it
        OwnerHeld => {
            let next = d.header.next_available_handle;
            let mut e = Entity::new(EntityType::Line(Default::default()));
            e.common.handle = Handle(3);
            Block::default().set_owner(&mut DrawingItemMut::Entity(&mut e), d);
            if e.common.handle.0 != 3 || d.header.next_available_handle != next {
                return Err(format!("an owner that had handle 3 was given handle {:X}", e.common.handle.0));
            }
        }
        Normalize => d.normalize(),
        Trip(ver, bin, on) => {
            d.header.version = ver;
            d.header.handles_enabled = on;
            *d = load(&save(d, bin)?)?;
            let now = sound(d)?;
            if on || ver >= AcadVersion::R13 {
                // block records and objects do not exist in the older file, and blocks have no handles there
                let gone = |w: &str| ver <= AcadVersion::R12 && (w.starts_with("Object") || w.starts_with("Block") && !w.contains("entity"));
                let was: Vec<_> = before.iter().filter(|x| !gone(&x.0) && x.1 != 0).map(|x| (&x.0, x.1)).collect();
                let hs = handles(d);
                for (w, h) in &was {
                    // multi-lines do not exist either, so entities may shift
                    if !(ver <= AcadVersion::R12 && w.starts_with("Entity")) && !hs.iter().any(|x| x.0 == **w && x.1 == *h) {
                        if w.ends_with(" end") {
                            continue; // not stored when there is nothing to end
                        }
                        return Err(format!("{} had handle {:X} before saving, {:X?} after loading", w, h, hs.iter().find(|x| x.0 == **w).map(|x| x.1)));
                    }
                }
                if ver <= AcadVersion::R12 {
                    let a: Vec<u64> = before.iter().filter(|x| x.0.starts_with("Entity") && !x.0.ends_with("end")).map(|x| x.1).collect();
                    for x in hs.iter().filter(|x| x.0.starts_with("Entity") && !x.0.ends_with("end")) {
                        if !a.contains(&x.1) {
                            return Err(format!("{} has handle {:X} after loading, which no entity had", x.0, x.1));
                        }
                    }
                }
                used.extend(now);
            } else {
                *used = now;
            }
            return Ok(());
        }
    }
    let now = sound(d)?;
    if let Some(h) = returned {
        if !now.contains(&h.0) {
            return Err(format!("the item returned has handle {:X}, which nothing in the drawing has", h.0));
        }
    }
    // items that were there keep their handles, in their collections
    let hs: BTreeSet<u64> = before.iter().map(|x| x.1).collect();
    if !matches!(op, RemoveFirst | RemoveLast | RemoveBlock | RemoveLayer | Clear) {
        if let Some(x) = hs.iter().find(|h| **h != 0 && !now.contains(h)) {
            return Err(format!("nothing has handle {:X} any more", x));
        }
        if !matches!(op, Normalize) {
            let after = handles(d);
            for b in &before {
                if !after.contains(b) {
                    return Err(format!("{} no longer has handle {:X}", b.0, b.1));
                }
            }
        }
    }
    for h in now.difference(&hs) {
        if used.contains(h) && op != Clear {
            return Err(format!("handle {:X} was given out before", h));
        }
    }
    used.extend(now);
    Ok(())
}
fn name(o: &Op) -> String {
    format!("{:?}", o)
}
fn step(c: &Ctx, d: &Drawing, used: &BTreeSet<u64>, ops: &[Op], i: usize, depth: usize, path: &mut Vec<usize>, start: &str) {
    let mut d = d.clone();
    let mut used = used.clone();
    c.transitions.fetch_add(1, SeqCst);
    path.push(i);
    if path.len() == 3 {
        c.begin(&format!("{} {:?}", start, path.iter().map(|i| name(&ops[*i])).collect::<Vec<_>>()));
    }
    match guard(|| apply(&mut d, &mut used, ops[i])) {
        Ok(Ok(())) => {
            let st: Vec<u64> = handles(&d).into_iter().map(|x| x.1).chain([d.header.next_available_handle.0]).collect();
            c.distinct(&st.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
            if depth > 1 {
                for j in 0..ops.len() {
                    if c.failing() {
                        break;
                    }
                    step(c, &d, &used, ops, j, depth - 1, path, start);
                }
            } else {
                c.traces.fetch_add(1, SeqCst);
            }
        }
        Ok(Err(e)) | Err(e) => {
            let h: Vec<String> = path.iter().map(|i| name(&ops[*i])).collect();
            let k = format!("{}: {}", start, h.join(", "));
            if !c.skip(&k) {
                c.fail(&k, &e, || json!({"start": start, "history": h}));
            }
        }
    }
    path.pop();
}
/// A file whose eight items with handles have the given ones.
fn file(h: &[Option<u64>], seed: Option<u64>, blockrec: bool) -> Vec<G> {
    let mut g = vec![s(0, "SECTION"), s(2, "HEADER"), s(9, "$ACADVER"), s(1, "AC1015")];
    if let Some(x) = seed {
        g.extend([s(9, "$HANDSEED"), s(5, &format!("{:X}", x))]);
    }
    g.push(s(0, "ENDSEC"));
    let hd = |g: &mut Vec<G>, i: usize| {
        if let Some(x) = h[i] {
            g.push(s(5, &format!("{:X}", x)));
        }
    };
    g.extend([s(0, "SECTION"), s(2, "TABLES"), s(0, "TABLE"), s(2, "LAYER"), s(0, "LAYER")]);
    hd(&mut g, 0);
    g.extend([s(2, "0"), s(6, "CONTINUOUS"), s(0, "ENDTAB")]);
    if blockrec {
        g.extend([s(0, "TABLE"), s(2, "BLOCK_RECORD"), s(0, "BLOCK_RECORD"), s(2, "B"), s(0, "ENDTAB")]);
    }
    g.extend([s(0, "ENDSEC"), s(0, "SECTION"), s(2, "BLOCKS"), s(0, "BLOCK")]);
    hd(&mut g, 1);
    g.extend([s(8, "0"), s(2, "B"), s(0, "LINE")]);
    hd(&mut g, 2);
    g.extend([s(8, "0"), s(0, "ENDBLK"), s(0, "ENDSEC"), s(0, "SECTION"), s(2, "ENTITIES"), s(0, "LINE")]);
    hd(&mut g, 3);
    g.extend([s(8, "0"), s(0, "POLYLINE")]);
    hd(&mut g, 4);
    g.extend([s(8, "0"), s(66, "1"), s(0, "VERTEX")]);
    hd(&mut g, 5);
    g.extend([s(8, "0"), s(0, "SEQEND")]);
    hd(&mut g, 6);
    g.extend([s(8, "0"), s(0, "ENDSEC"), s(0, "SECTION"), s(2, "OBJECTS"), s(0, "DICTIONARYVAR")]);
    hd(&mut g, 7);
    g.extend([s(0, "ENDSEC"), s(0, "EOF")]);
    g
}
fn pattern(c: &Ctx, key: &str, h: &[Option<u64>], seed: Option<u64>) {
    if c.skip(key) {
        return;
    }
    c.eval(1);
    c.distinct(key.as_bytes());
    let gs = file(h, seed, h[0].is_some());
    let b = encode_text(&gs);
    let r = guard(|| -> Result<(), String> {
        let mut d = load(&b)?;
        let now = sound(&d)?;
        let hs = handles(&d);
        let at = ["Layer0", "Block0", "Block0 entity0", "Entity0", "Entity1", "Entity1 Polyline __vertices_and_handles0", "Entity1 Polyline end", "Object0"];
        for (w, x) in at.iter().zip(h) {
            let got = hs.iter().find(|y| y.0 == *w).map(|y| y.1);
            match (x, got) {
                (Some(x), Some(g)) if *x == g => (),
                (None, Some(_)) => (),
                (Some(_), Some(_)) if w.ends_with(" end") && h[4].is_none() => (), // a marker of something without a handle
                _ => return Err(format!("{} has handle {:X?} in the file but {:X?} after loading", w, x, got)),
            }
        }
        if let Some(sd) = seed {
            if d.header.next_available_handle.0 < sd {
                return Err(format!("the file's next handle is {:X} but the drawing's {:X}", sd, d.header.next_available_handle.0));
            }
        }
        let mut used = now;
        apply(&mut d, &mut used, Poly)?;
        apply(&mut d, &mut used, Layer)?;
        apply(&mut d, &mut used, Blk)?;
        apply(&mut d, &mut used, Trip(AcadVersion::R2018, false, true))?;
        apply(&mut d, &mut used, Line)
    });
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) | Err(e) => c.fail(key, &e, || json!({"file": String::from_utf8_lossy(&b)})),
    }
}
pub fn c09(c: &Ctx) -> i32 {
    let ops = ops();
    let mut st = vec![("new", Drawing::new())];
    let mut e = Drawing::new();
    e.clear();
    st.push(("cleared", e));
    // after loading a file with gaps in its handles
    let f = encode_text(&file(&[Some(0x50), None, Some(1), Some(0x20), None, Some(0x21), None, Some(0x51)], Some(0x10), false));
    let l = load(&f);
    match &l {
        Ok(d) => st.push(("loaded", d.clone())),
        Err(e) => c.fail("start", e, || json!({})),
    }
    let mut jobs = vec![];
    let depth = if c.thorough { 4 } else { 3 };
    for s in 0..st.len() {
        for i in 0..ops.len() {
            jobs.push((s, i, ops.clone(), depth));
        }
        let few = [Poly, CloneLast, Blk, OwnerLoose, RemoveLast, Normalize, Clear, Trip(AcadVersion::R2018, true, true), Trip(AcadVersion::R12, false, false)];
        for i in 0..few.len() {
            jobs.push((s, i, few.to_vec(), depth + 1));
        }
    }
    c.par(jobs.len(), |n| {
        let (s, i, ops, depth) = &jobs[n];
        c.begin(&format!("{} {}", st[*s].0, name(&ops[*i])));
        let used = handles(&st[*s].1).into_iter().map(|x| x.1).collect();
        step(c, &st[*s].1, &used, ops, *i, *depth, &mut vec![], st[*s].0);
        c.end();
    });
    c.states.store(c.count_distinct(), SeqCst);
    // patterns of handles in files
    let n = 3usize.pow(8);
    let seeds = [None, Some(0), Some(1), Some(6), Some(0x23), Some(0x1000)];
    c.par(n / 81, |j| {
        c.begin("file patterns");
        for k in 0..81 {
            let mut x = j * 81 + k;
            let mut h = vec![];
            for i in 0..8u64 {
                h.push(match x % 3 {
                    0 => None,
                    1 => Some(1 + i),
                    _ => Some(0x20 + 7 - i),
                });
                x /= 3;
            }
            for (si, sd) in seeds.iter().enumerate() {
                if !c.thorough && si % 2 != k % 2 {
                    continue;
                }
                let key = format!("file {:X?} seed {:X?}", h, sd);
                pattern(c, &key, &h, *sd);
            }
        }
        c.end();
    });
    // one item, or the next handle, with a handle of any magnitude
    let sizes: Vec<u64> = (7..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).filter(|x| *x < 0xFFFE_0000_0000_0000).collect();
    c.par(sizes.len(), |j| {
        let x = sizes[j];
        c.begin("magnitudes");
        for p in 0..8 {
            for rest in 0..3u64 {
                for sd in [None, Some(x)] {
                    let h: Vec<Option<u64>> = (0..8)
                        .map(|i| match rest {
                            _ if i == p => Some(x),
                            0 => None,
                            1 => Some(1 + i),
                            _ => Some(x - 1 - i),
                        })
                        .collect();
                    pattern(c, &format!("file {:X?} seed {:X?}", h, sd), &h, sd);
                }
            }
        }
        c.end();
    });
    // an unadded polyline or insert whose children already have handles, added twice or to another drawing
    for which in 0..2 {
        for what in ["twice", "another drawing"] {
            let key = format!("{} with children, added {}", ["polyline", "insert"][which], what);
            if c.skip(&key) {
                continue;
            }
            c.eval(1);
            let r = guard(|| {
                let mut d = Drawing::new();
                let mut o = Drawing::new();
                for _ in 0..3 {
                    o.add_entity(Entity::new(EntityType::Line(Default::default())));
                }
                let e = if which == 0 { poly(&mut d) } else { ins(&mut d) };
                if what == "twice" {
                    d.add_entity(e.clone());
                    d.add_entity(e);
                    sound(&d)
                } else {
                    o.add_entity(e);
                    sound(&o)
                }
            });
            match r {
                Ok(Ok(_)) => (),
                Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"what": key})),
            }
        }
    }
    c.sample(|| json!({"operations": ops.iter().map(name).collect::<Vec<_>>()}));
    c.finish(
        "model_checking",
        "every sequence of the operations up to the depth, from a new, a cleared and a loaded drawing, with all handles compared after every step against the set of handles given out so far; every pattern of missing, low and high handles on eight items of a file, and handles around every power of two on each of them; states are distinct lists of all handles and the next handle",
        &["files that give the same handle twice are not considered", "without handles in the file (R12 and older with handles off) loading may renumber", "clearing starts over"],
        true,
    )
}
