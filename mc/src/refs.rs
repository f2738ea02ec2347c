//! C10: handles and references resolve to the right item.
use crate::catalog::*;
use crate::core::*;
use crate::corpus;
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::*;
use serde_json::{json, Value};

pub enum H<'a> {
    E(&'a mut Entity),
    O(&'a mut Object),
}
pub enum R<'a> {
    E(&'a Entity),
    O(&'a Object),
}
/// (kind, content) of what a reference resolves to
pub type Ident = (&'static str, Value);
pub fn ident(i: DrawingItem) -> Ident {
    use serde_json::to_value as tv;
    match i {
        DrawingItem::AppId(x) => ("AppId", tv(x).unwrap()),
        DrawingItem::Block(x) => ("Block", tv(x).unwrap()),
        DrawingItem::BlockRecord(x) => ("BlockRecord", tv(x).unwrap()),
        DrawingItem::DimStyle(x) => ("DimStyle", tv(x).unwrap()),
        DrawingItem::Entity(x) => ("Entity", tv(x).unwrap()),
        DrawingItem::Layer(x) => ("Layer", tv(x).unwrap()),
        DrawingItem::LineType(x) => ("LineType", tv(x).unwrap()),
        DrawingItem::Object(x) => ("Object", tv(x).unwrap()),
        DrawingItem::Style(x) => ("Style", tv(x).unwrap()),
        DrawingItem::Ucs(x) => ("Ucs", tv(x).unwrap()),
        DrawingItem::View(x) => ("View", tv(x).unwrap()),
        DrawingItem::ViewPort(x) => ("ViewPort", tv(x).unwrap()),
    }
}
pub struct Ref {
    pub name: &'static str,
    pub place: &'static str,
    pub many: bool,
    pub target: &'static str,
    pub set: fn(H, &DrawingItemMut) -> bool,
    pub get: fn(R, &Drawing) -> Vec<Ident>,
}
pub const ITEM_KINDS: [Kind; 12] = [
    Kind::AppId,
    Kind::Block,
    Kind::BlockRecord,
    Kind::DimStyle,
    Kind::Entity,
    Kind::Layer,
    Kind::LineType,
    Kind::Object,
    Kind::Style,
    Kind::Ucs,
    Kind::View,
    Kind::ViewPort,
];
pub fn handle_of(v: &Value) -> u64 {
    v.get("handle").or_else(|| v.pointer("/common/handle")).and_then(|h| h.as_u64()).unwrap_or(0)
}
/// Every item is found under its handle, as itself; other handles give nothing.
pub fn lookups(d: &mut Drawing) -> Result<u64, String> {
    let mut n = 0;
    let mut all = std::collections::BTreeSet::new();
    for k in ITEM_KINDS {
        for v in get(k, d) {
            let h = Handle(handle_of(&v));
            all.insert(h.0);
            n += 1;
            let found = d.item_by_handle(h).map(|i| (i.handle(), ident(i)));
            if found != Some((h, (kind_static(k), v.clone()))) {
                return Err(format!("{:?} with handle {:X} looked up as {:?}", k, h.0, found));
            }
            let m = d.item_by_handle_mut(h).map(|i| (i.handle(), ident(i.to_drawing_item())));
            if m != Some((h, (kind_static(k), v))) {
                return Err(format!("{:?} with handle {:X} looked up mutably as {:?}", k, h.0, m));
            }
        }
    }
    let mut none = vec![0, 1, 2, 3, u64::MAX, d.header.next_available_handle.0];
    none.extend(all.iter().map(|x| x.wrapping_add(1)));
    none.extend(all.iter().map(|x| x.wrapping_add(1 << 32)));
    for h in none {
        if all.contains(&h) {
            continue;
        }
        n += 1;
        if let Some(i) = d.item_by_handle(Handle(h)) {
            return Err(format!("handle {:X}, which no item has, found {:?}", h, ident(i)));
        }
        if d.item_by_handle_mut(Handle(h)).is_some() {
            return Err(format!("handle {:X}, which no item has, found mutably", h));
        }
    }
    Ok(n)
}
pub fn kind_static(k: Kind) -> &'static str {
    match k {
        Kind::AppId => "AppId",
        Kind::Block => "Block",
        Kind::BlockRecord => "BlockRecord",
        Kind::DimStyle => "DimStyle",
        Kind::Entity => "Entity",
        Kind::Layer => "Layer",
        Kind::LineType => "LineType",
        Kind::Object => "Object",
        Kind::Style => "Style",
        Kind::Ucs => "Ucs",
        Kind::View => "View",
        Kind::ViewPort => "ViewPort",
        Kind::Class => "Class",
        Kind::Header => "Header",
    }
}
/// The item of the kind at the index, for passing to a setter.
pub fn item_mut(d: &mut Drawing, k: Kind, i: usize) -> Option<DrawingItemMut<'_>> {
    Some(match k {
        Kind::AppId => DrawingItemMut::AppId(d.app_ids_mut().nth(i)?),
        Kind::Block => DrawingItemMut::Block(d.blocks_mut().nth(i)?),
        Kind::BlockRecord => DrawingItemMut::BlockRecord(d.block_records_mut().nth(i)?),
        Kind::DimStyle => DrawingItemMut::DimStyle(d.dim_styles_mut().nth(i)?),
        Kind::Entity => DrawingItemMut::Entity(d.entities_mut().nth(i)?),
        Kind::Layer => DrawingItemMut::Layer(d.layers_mut().nth(i)?),
        Kind::LineType => DrawingItemMut::LineType(d.line_types_mut().nth(i)?),
        Kind::Object => DrawingItemMut::Object(d.objects_mut().nth(i)?),
        Kind::Style => DrawingItemMut::Style(d.styles_mut().nth(i)?),
        Kind::Ucs => DrawingItemMut::Ucs(d.ucss_mut().nth(i)?),
        Kind::View => DrawingItemMut::View(d.views_mut().nth(i)?),
        Kind::ViewPort => DrawingItemMut::ViewPort(d.view_ports_mut().nth(i)?),
        _ => return None,
    })
}
fn same_item(a: &Ident, k: Kind, v: &Value) -> bool {
    a.0 == kind_static(k) && handle_of(&a.1) == handle_of(v) && handle_of(v) != 0
}
/// A drawing with two items of every kind (objects and entities of several types).
fn targets(ver: usize) -> Drawing {
    let mut d = empty_drawing(VERSIONS[ver]);
    for k in ITEM_KINDS {
        for (t, v) in types_of(k) {
            let pick = match k {
                Kind::Entity => ["Line", "Light", "Text"].contains(&t.as_str()),
                Kind::Object => ["PlaceHolder", "Material", "Field", "Dictionary"].contains(&t.as_str()),
                _ => true,
            };
            if !pick {
                continue;
            }
            for q in 0..2 {
                let mut v = v.clone();
                if v.get("name").is_some() {
                    v["name"] = json!(format!("T{}", q));
                }
                put(k, &mut d, &v).unwrap();
            }
        }
    }
    d
}
/// Versions in which the format has no such reference (see the golden file of C02).
const NOT_STORED: [&str; 4] = ["SectionSettings.source_objects", "SectionSettings.destination_object", "EntityCommon.plot_style", "EntityCommon.material"];

pub fn run(c: &Ctx) -> i32 {
    // ---- lookup in drawings holding one of everything, at every version
    let jobs: Vec<(usize, bool, bool)> = (9..21).flat_map(|v| [(v, false, false), (v, false, true), (v, true, false), (v, true, true)]).collect();
    c.par(jobs.len(), |n| {
        let (ver, bin, full) = jobs[n];
        let key = format!("mixed{}@{:?}/{}", if full { "+" } else { "" }, VERSIONS[ver], enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        let r = guard(|| -> Result<u64, String> {
            let mut d = corpus::mixed(ver, full, |_| true);
            let a = lookups(&mut d)?;
            d.header.handles_enabled = true;
            let mut d = load(&save(&d, bin)?)?;
            let b = lookups(&mut d)?;
            d.normalize();
            Ok(a + b + lookups(&mut d)?)
        });
        match r {
            Ok(Ok(n)) => {
                c.eval(n);
                c.distinct(key.as_bytes());
            }
            x => c.fail(&key, &format!("{:?}", x), || json!({})),
        }
        c.end();
    });
    // ---- lookup of each kind alone and in every pair of kinds, in both orders, with removal in between
    let mut jobs = vec![];
    for a in 0..12 {
        for b in 0..12 {
            for r in 0..4 {
                jobs.push((a, b, r));
            }
        }
    }
    c.par(jobs.len(), |n| {
        let (a, b, rm) = jobs[n];
        let key = format!("pair {:?} {:?} #{}", ITEM_KINDS[a], ITEM_KINDS[b], rm);
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        let r = guard(|| -> Result<u64, String> {
            let mut d = empty_drawing(VERSIONS[20]);
            let mut n = 0;
            for (q, k) in [a, b, a].iter().enumerate() {
                let k = ITEM_KINDS[*k];
                let mut v = types_of(k).remove(0).1;
                if v.get("name").is_some() {
                    v["name"] = json!(format!("P{}", q));
                }
                put(k, &mut d, &v)?;
                n += lookups(&mut d)?;
                if rm > 0 && q == rm - 1 {
                    crate::hist::remove(&mut d, k, 0);
                    n += lookups(&mut d)?;
                }
            }
            Ok(n)
        });
        match r {
            Ok(Ok(n)) => {
                c.eval(n);
                c.distinct(key.as_bytes());
            }
            x => c.fail(&key, &format!("{:?}", x), || json!({})),
        }
        c.end();
    });
    // ---- lookup of an item whose handle the user chose, alone and after a save and load
    let chosen = |d: &Drawing, i: usize| -> u64 {
        let n = d.header.next_available_handle.0;
        [0x7F, n, n + 1, n + 0x100, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000, 0x7FFF_FFFF_FFFF_FFFF][i]
    };
    let jobs: Vec<(usize, usize, bool)> = (0..12).flat_map(|k| (0..10).flat_map(move |h| [(k, h, false), (k, h, true)])).collect();
    c.par(jobs.len(), |n| {
        let (k, hi, bin) = jobs[n];
        let k = ITEM_KINDS[k];
        let key = format!("chosen handle {:?} #{} {}", k, hi, enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        let r = guard(|| -> Result<u64, String> {
            let mut d = empty_drawing(VERSIONS[20]);
            for q in 0..2 {
                for k in [k, Kind::Entity, Kind::Layer] {
                    let mut v = types_of(k).remove(0).1;
                    if v.get("name").is_some() {
                        v["name"] = json!(format!("P{}", q));
                    }
                    put(k, &mut d, &v)?;
                }
            }
            let h = Handle(chosen(&d, hi));
            let last = get(k, &d).len() - 1;
            let old = Handle(handle_of(&get(k, &d)[last]));
            match item_mut(&mut d, k, last).unwrap() {
                DrawingItemMut::AppId(x) => x.handle = h,
                DrawingItemMut::Block(x) => x.handle = h,
                DrawingItemMut::BlockRecord(x) => x.handle = h,
                DrawingItemMut::DimStyle(x) => x.handle = h,
                DrawingItemMut::Entity(x) => x.common.handle = h,
                DrawingItemMut::Layer(x) => x.handle = h,
                DrawingItemMut::LineType(x) => x.handle = h,
                DrawingItemMut::Object(x) => x.common.handle = h,
                DrawingItemMut::Style(x) => x.handle = h,
                DrawingItemMut::Ucs(x) => x.handle = h,
                DrawingItemMut::View(x) => x.handle = h,
                DrawingItemMut::ViewPort(x) => x.handle = h,
            }
            if let Some(i) = d.item_by_handle(old) {
                return Err(format!("the handle it had before, {:X}, still finds {:?}", old.0, ident(i)));
            }
            let a = lookups(&mut d)?;
            let mut d = load(&save(&d, bin)?)?;
            let b = lookups(&mut d)?;
            match d.item_by_handle(h).map(|i| ident(i).0) {
                Some(x) if x == kind_static(k) => Ok(a + b),
                x => Err(format!("handle {:X} found {:?} after a save and load", h.0, x)),
            }
        });
        match r {
            Ok(Ok(n)) => {
                c.eval(n);
                c.distinct(key.as_bytes());
            }
            x => c.fail(&key, &format!("{:?}", x), || json!({})),
        }
        c.end();
    });
    // ---- every reference accessor, every kind of target
    let refs = crate::api_refs::all();
    let vers: Vec<usize> = if c.thorough { vec![13, 14, 15, 16, 17, 18, 19, 20] } else { vec![15, 17, 20] };
    let mut jobs = vec![];
    for (i, _) in refs.iter().enumerate() {
        for &ver in &vers {
            jobs.push((i, ver));
        }
    }
    c.par(jobs.len(), |n| {
        let (i, ver) = jobs[n];
        let rf = &refs[i];
        let (pk, pt) = rf.place.split_once(':').unwrap();
        let hk = if pk == "entity" { Kind::Entity } else { Kind::Object };
        let hv = types_of(hk).into_iter().find(|(t, _)| t == pt).unwrap().1;
        let mut accepted = 0;
        for k in ITEM_KINDS {
            let count = get(k, &targets(ver)).len();
            for q in 0..count {
                for bin in [false, true] {
                    let key = format!("{} -> {:?}#{}@{:?}/{}", rf.name, k, q, VERSIONS[ver], enc(bin));
                    if c.skip(&key) {
                        continue;
                    }
                    c.begin(&key);
                    let r = guard(|| -> Result<bool, String> {
                        let mut d = targets(ver);
                        let tv = get(k, &d).remove(q);
                        let mut e: Option<Entity> = None;
                        let mut o: Option<Object> = None;
                        if hk == Kind::Entity {
                            e = Some(serde_json::from_value(hv.clone()).unwrap());
                        } else {
                            o = Some(serde_json::from_value(hv.clone()).unwrap());
                        }
                        fn host<'a>(e: &'a mut Option<Entity>, o: &'a mut Option<Object>) -> H<'a> {
                            match e {
                                Some(e) => H::E(e),
                                None => H::O(o.as_mut().unwrap()),
                            }
                        }
                        let t = item_mut(&mut d, k, q).unwrap();
                        let ok = (rf.set)(host(&mut e, &mut o), &t);
                        if !ok {
                            return Ok(false);
                        }
                        // a second one, in lists
                        let mut want = vec![tv];
                        if rf.many {
                            let other = if q + 1 < count { q + 1 } else { 0 };
                            let ov = get(k, &d).remove(other);
                            let t2 = item_mut(&mut d, k, other).unwrap();
                            if (rf.set)(host(&mut e, &mut o), &t2) {
                                want.push(ov);
                            }
                        }
                        let read = |e: &Option<Entity>, o: &Option<Object>, d: &Drawing| match e {
                            Some(e) => (rf.get)(R::E(e), d),
                            None => (rf.get)(R::O(o.as_ref().unwrap()), d),
                        };
                        let g = read(&e, &o, &d);
                        let eq = |g: &[Ident]| g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| same_item(a, k, b));
                        if !eq(&g) {
                            return Err(format!("before adding: {:?}", g.iter().map(|x| (x.0, handle_of(&x.1))).collect::<Vec<_>>()));
                        }
                        if let Some(e) = e.take() {
                            d.add_entity(e);
                        }
                        if let Some(o) = o.take() {
                            d.add_object(o);
                        }
                        let fetch = |d: &Drawing| -> Vec<Ident> {
                            if hk == Kind::Entity {
                                d.entities().last().map(|e| (rf.get)(R::E(e), d)).unwrap_or_default()
                            } else {
                                d.objects().last().map(|e| (rf.get)(R::O(e), d)).unwrap_or_default()
                            }
                        };
                        let g = fetch(&d);
                        if !eq(&g) {
                            return Err(format!("after adding: {:?}", g.iter().map(|x| (x.0, handle_of(&x.1))).collect::<Vec<_>>()));
                        }
                        let old = ver < 20;
                        if NOT_STORED[..2].contains(&rf.name) || (ver < 17 && NOT_STORED[2..].contains(&rf.name)) {
                            return Ok(true);
                        }
                        let n0 = (d.entities().count(), d.objects().count());
                        let d = load(&save(&d, bin)?)?;
                        if (d.entities().count(), d.objects().count()) != n0 || get(k, &d).len() < count {
                            // the version lacks the type of the host or of the target
                            return if old { Ok(true) } else { Err("an item is gone".into()) };
                        }
                        let g = fetch(&d);
                        if !eq(&g) {
                            return Err(format!("after save and load: {:?}, expected {:?}", g.iter().map(|x| (x.0, handle_of(&x.1))).collect::<Vec<_>>(), want.iter().map(handle_of).collect::<Vec<_>>()));
                        }
                        Ok(true)
                    });
                    c.eval(1);
                    match r {
                        Ok(Ok(ok)) => {
                            if ok {
                                accepted += 1;
                                c.distinct(format!("{}{:?}{}", rf.name, k, q).as_bytes());
                            }
                        }
                        x => c.fail(&key, &format!("{:?}", x), || json!({"host": hv})),
                    }
                }
            }
        }
        if accepted == 0 && c.only.is_none() {
            c.fail(&format!("{}@{:?}", rf.name, VERSIONS[ver]), "no item of any kind is accepted", || json!({}));
        }
        c.end();
    });
    // ---- owners of table entries and blocks
    let owned = [Kind::AppId, Kind::Block, Kind::BlockRecord, Kind::DimStyle, Kind::Layer, Kind::LineType, Kind::Style, Kind::Ucs, Kind::View, Kind::ViewPort];
    for h in owned {
        for k in ITEM_KINDS {
            let key = format!("{:?}.owner -> {:?}", h, k);
            if c.skip(&key) {
                continue;
            }
            let r = guard(|| -> Result<(), String> {
                for q in 0..2 {
                    let mut d = targets(20);
                    let tv = get(k, &d).remove(q);
                    macro_rules! own {
                        ($m:ident, $i:ident) => {{
                            let mut x = d.$i().next().unwrap().clone();
                            macro_rules! with {
                                ($kk:ident, $j:ident) => {{
                                    let mut t = d.$j().nth(q).unwrap().clone();
                                    x.set_owner(&mut DrawingItemMut::$kk(&mut t), &mut d);
                                }};
                            }
                            match k {
                                Kind::AppId => with!(AppId, app_ids),
                                Kind::Block => with!(Block, blocks),
                                Kind::BlockRecord => with!(BlockRecord, block_records),
                                Kind::DimStyle => with!(DimStyle, dim_styles),
                                Kind::Entity => with!(Entity, entities),
                                Kind::Layer => with!(Layer, layers),
                                Kind::LineType => with!(LineType, line_types),
                                Kind::Object => with!(Object, objects),
                                Kind::Style => with!(Style, styles),
                                Kind::Ucs => with!(Ucs, ucss),
                                Kind::View => with!(View, views),
                                _ => with!(ViewPort, view_ports),
                            }
                            *d.$m().next().unwrap() = x;
                            let o = d.$i().next().unwrap().owner(&d).map(ident);
                            match &o {
                                Some(o) if same_item(o, k, &tv) => (),
                                _ => return Err(format!("resolves to {:?}", o)),
                            }
                            if h == Kind::Block {
                                for bin in [false, true] {
                                    let l = load(&save(&d, bin)?)?;
                                    let o = l.$i().next().unwrap().owner(&l).map(ident);
                                    match &o {
                                        Some(o) if same_item(o, k, &tv) => (),
                                        _ => return Err(format!("after save and load resolves to {:?}", o)),
                                    }
                                }
                            }
                        }};
                    }
                    match h {
                        Kind::AppId => own!(app_ids_mut, app_ids),
                        Kind::Block => own!(blocks_mut, blocks),
                        Kind::BlockRecord => own!(block_records_mut, block_records),
                        Kind::DimStyle => own!(dim_styles_mut, dim_styles),
                        Kind::Layer => own!(layers_mut, layers),
                        Kind::LineType => own!(line_types_mut, line_types),
                        Kind::Style => own!(styles_mut, styles),
                        Kind::Ucs => own!(ucss_mut, ucss),
                        Kind::View => own!(views_mut, views),
                        _ => own!(view_ports_mut, view_ports),
                    }
                }
                Ok(())
            });
            c.eval(2);
            c.distinct(key.as_bytes());
            match r {
                Ok(Ok(())) => (),
                x => c.fail(&key, &format!("{:?}", x), || json!({})),
            }
        }
    }
    c.extra("reference_accessors", json!(refs.len() + owned.len()));
    c.finish(
        "exploration",
        "every reference accessor x every kind (and several types) of target x version x encoding, before and after adding and after save and load; handle lookup of every item of drawings with everything in them and of every ordered pair of kinds with removals; distinct by accessor and target",
        &[],
        true,
    )
}
