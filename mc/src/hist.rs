//! C20, C11, C09: histories of edits, explored as a tree of all operation sequences and compared with a reference model.
use crate::catalog::*;
use crate::core::*;
use crate::corpus;
use crate::gen;
use crate::refs::ITEM_KINDS;
use crate::util::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::SeqCst;

pub fn remove(d: &mut Drawing, k: Kind, i: usize) -> Option<Value> {
    use serde_json::to_value as tv;
    macro_rules! go {
        ($m:ident) => {
            d.$m(i).map(|x| tv(x).unwrap())
        };
    }
    match k {
        Kind::Entity => go!(remove_entity),
        Kind::Object => go!(remove_object),
        Kind::AppId => go!(remove_app_id),
        Kind::BlockRecord => go!(remove_block_record),
        Kind::DimStyle => go!(remove_dim_style),
        Kind::LineType => go!(remove_line_type),
        Kind::Layer => go!(remove_layer),
        Kind::Style => go!(remove_style),
        Kind::Ucs => go!(remove_ucs),
        Kind::View => go!(remove_view),
        Kind::ViewPort => go!(remove_view_port),
        Kind::Block => go!(remove_block),
        _ => None,
    }
}
/// Adds through the API and returns what the API says was added.
fn add(d: &mut Drawing, k: Kind, v: &Value) -> Value {
    use serde_json::to_value as tv;
    macro_rules! go {
        ($m:ident) => {
            tv(d.$m(serde_json::from_value(v.clone()).unwrap())).unwrap()
        };
    }
    match k {
        Kind::Entity => go!(add_entity),
        Kind::Object => go!(add_object),
        Kind::AppId => go!(add_app_id),
        Kind::BlockRecord => go!(add_block_record),
        Kind::DimStyle => go!(add_dim_style),
        Kind::LineType => go!(add_line_type),
        Kind::Layer => go!(add_layer),
        Kind::Style => go!(add_style),
        Kind::Ucs => go!(add_ucs),
        Kind::View => go!(add_view),
        Kind::ViewPort => go!(add_view_port),
        Kind::Block => go!(add_block),
        _ => unreachable!(),
    }
}
/// Replaces item i through the mutable iterator.
fn set_through_mut(d: &mut Drawing, k: Kind, i: usize, v: &Value) {
    macro_rules! go {
        ($m:ident) => {
            if let Some(x) = d.$m().nth(i) {
                *x = serde_json::from_value(v.clone()).unwrap();
            }
        };
    }
    match k {
        Kind::Entity => go!(entities_mut),
        Kind::Object => go!(objects_mut),
        Kind::AppId => go!(app_ids_mut),
        Kind::BlockRecord => go!(block_records_mut),
        Kind::DimStyle => go!(dim_styles_mut),
        Kind::LineType => go!(line_types_mut),
        Kind::Layer => go!(layers_mut),
        Kind::Style => go!(styles_mut),
        Kind::Ucs => go!(ucss_mut),
        Kind::View => go!(views_mut),
        Kind::ViewPort => go!(view_ports_mut),
        Kind::Block => go!(blocks_mut),
        _ => (),
    }
}
fn count_through_mut(d: &mut Drawing, k: Kind) -> usize {
    match k {
        Kind::Entity => d.entities_mut().count(),
        Kind::Object => d.objects_mut().count(),
        Kind::AppId => d.app_ids_mut().count(),
        Kind::BlockRecord => d.block_records_mut().count(),
        Kind::DimStyle => d.dim_styles_mut().count(),
        Kind::LineType => d.line_types_mut().count(),
        Kind::Layer => d.layers_mut().count(),
        Kind::Style => d.styles_mut().count(),
        Kind::Ucs => d.ucss_mut().count(),
        Kind::View => d.views_mut().count(),
        Kind::ViewPort => d.view_ports_mut().count(),
        Kind::Block => d.blocks_mut().count(),
        _ => 0,
    }
}

/// Content without identity: handles and owners cleared.
pub fn bare(v: &Value) -> Value {
    fn go(v: &mut Value) {
        match v {
            Value::Object(m) => {
                for (k, x) in m.iter_mut() {
                    if k == "handle" || k == "__owner_handle" || k == "__seqend_handle" {
                        *x = json!(0);
                    } else if k == "grid_spacing" || k == "snap_spacing" {
                        x["z"] = json!(0.0); // planar in files, and normalizing fills it in
                    } else if k == "__vertices_and_handles" || k == "__attributes_and_handles" {
                        for p in x.as_array_mut().unwrap() {
                            p[1] = json!(0);
                            go(&mut p[0]);
                        }
                    } else {
                        go(x);
                    }
                }
            }
            Value::Array(a) => a.iter_mut().for_each(go),
            _ => (),
        }
    }
    let mut v = v.clone();
    go(&mut v);
    v
}
pub fn name_of(k: Kind, v: &Value) -> String {
    match k {
        Kind::Entity => String::new(),
        Kind::Object => v.pointer("/specific/MLineStyle/style_name").and_then(|x| x.as_str()).map(|s| s.to_string()).unwrap_or("\0".into()),
        _ => v["name"].as_str().unwrap_or("").to_string(),
    }
}

/// The names an item refers to, and those that its resources refer to in turn. Written from the documentation of the
/// DXF reference, not from the code.
pub fn needs(k: Kind, v: &Value) -> Vec<(Kind, String)> {
    let mut out = vec![];
    let st = |x: &Value| x.as_str().unwrap_or("").to_string();
    match k {
        Kind::Entity => {
            out.push((Kind::Layer, st(&v["common"]["layer"])));
            out.push((Kind::LineType, st(&v["common"]["line_type_name"])));
            let (ty, s) = v["specific"].as_object().and_then(|m| m.iter().next()).map(|(a, b)| (a.clone(), b.clone())).unwrap_or_default();
            if ["ArcAlignedText", "Attribute", "AttributeDefinition", "MText", "Text"].contains(&ty.as_str()) {
                out.push((Kind::Style, st(&s["text_style_name"])));
            }
            if ty.ends_with("Dimension") {
                out.push((Kind::DimStyle, st(&s["dimension_base"]["dimension_style_name"])));
            }
            if ty == "Leader" || ty == "Tolerance" {
                out.push((Kind::DimStyle, st(&s["dimension_style_name"])));
            }
            if ty == "MLine" {
                out.push((Kind::Object, st(&s["style_name"])));
            }
        }
        Kind::Object => {
            let (ty, s) = v["specific"].as_object().and_then(|m| m.iter().next()).map(|(a, b)| (a.clone(), b.clone())).unwrap_or_default();
            if ty == "LayerFilter" || ty == "LayerIndex" {
                for l in s["layer_names"].as_array().unwrap_or(&vec![]) {
                    out.push((Kind::Layer, st(l)));
                }
            }
            if ty == "MLineStyle" {
                out.push((Kind::LineType, st(&s["style_name"])));
                out.push((Kind::Style, st(&s["style_name"])));
            }
            if ty == "PlotSettings" {
                out.push((Kind::View, st(&s["plot_view_name"])));
            }
        }
        Kind::Layer => out.push((Kind::LineType, st(&v["line_type_name"]))),
        Kind::Block => {
            out.push((Kind::Layer, st(&v["layer"])));
            out.push((Kind::BlockRecord, st(&v["name"])));
            for e in v["entities"].as_array().unwrap_or(&vec![]) {
                out.push((Kind::Layer, st(&e["common"]["layer"])));
                out.push((Kind::LineType, st(&e["common"]["line_type_name"])));
            }
        }
        _ => (),
    }
    out
}
/// What has to be added, beyond what is there, so that the named things exist.
fn closure(m: &Lists, want: Vec<(Kind, String)>) -> Vec<(Kind, String)> {
    let mut todo = want;
    let mut out: Vec<(Kind, String)> = vec![];
    let lt = Layer::default().line_type_name;
    while let Some((k, n)) = todo.pop() {
        if m[pos(k)].iter().any(|v| name_of(k, v) == n) || out.iter().any(|(a, b)| *a == k && *b == n) {
            continue;
        }
        match k {
            Kind::Layer => todo.push((Kind::LineType, lt.clone())),
            Kind::Object => {
                todo.push((Kind::LineType, n.clone()));
                todo.push((Kind::Style, n.clone()));
            }
            _ => (),
        }
        out.push((k, n));
    }
    out
}
fn standard(d: &Drawing) -> Vec<(Kind, String)> {
    let mut out = vec![];
    for n in ["ACAD", "ACADANNOTATIVE", "ACAD_NAV_VCDISPLAY", "ACAD_MLEADERVER"] {
        out.push((Kind::AppId, n.to_string()));
    }
    for n in ["*MODEL_SPACE", "*PAPER_SPACE"] {
        out.push((Kind::BlockRecord, n.to_string()));
    }
    for n in ["STANDARD", "ANNOTATIVE"] {
        out.push((Kind::DimStyle, n.to_string()));
        out.push((Kind::Style, n.to_string()));
    }
    for n in ["BYLAYER", "BYBLOCK", "CONTINUOUS"] {
        out.push((Kind::LineType, n.to_string()));
    }
    out.push((Kind::Layer, "0".into()));
    out.push((Kind::Layer, d.header.current_layer.clone()));
    out.push((Kind::ViewPort, "*ACTIVE".into()));
    let h = &d.header;
    for n in [&h.ucs_definition_name, &h.ucs_name, &h.ortho_ucs_reference, &h.paperspace_ucs_definition_name, &h.paperspace_ucs_name, &h.paperspace_ortho_ucs_reference] {
        if !n.is_empty() {
            out.push((Kind::Ucs, n.clone()));
        }
    }
    out
}

type Lists = Vec<Vec<Value>>;
fn pos(k: Kind) -> usize {
    ITEM_KINDS.iter().position(|x| *x == k).unwrap()
}
fn lists(d: &Drawing) -> Lists {
    let l: Lists = ITEM_KINDS.iter().map(|k| get(*k, d).iter().map(bare).collect()).collect();
    l
}
/// `now` is `old` followed by entries with exactly the given names (in any order); for tables.
fn appended(k: Kind, old: &[Value], now: &[Value], names: &[String]) -> Result<(), String> {
    if now.len() != old.len() + names.len() || now[..old.len()] != *old {
        let f = |l: &[Value]| l.iter().map(|v| name_of(k, v)).collect::<Vec<_>>();
        return Err(format!("{:?}: {:?} became {:?}, expected {:?} to be added at the end", k, f(old), f(now), names));
    }
    let mut a: Vec<String> = now[old.len()..].iter().map(|v| name_of(k, v)).collect();
    let mut b = names.to_vec();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("{:?}: added {:?} instead of {:?}", k, a, b));
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    Add(Kind, usize),
    RemoveFirst(Kind),
    RemoveLast(Kind),
    RemoveNone(Kind),
    Edit(Kind),
    Clear,
    Normalize,
    Trip(bool),
}
fn name(o: &Op) -> String {
    match o {
        Op::Add(k, i) => format!("add {:?} {}", k, i),
        Op::RemoveFirst(k) => format!("remove first {:?}", k),
        Op::RemoveLast(k) => format!("remove last {:?}", k),
        Op::RemoveNone(k) => format!("remove {:?} out of range", k),
        Op::Edit(k) => format!("edit {:?}", k),
        Op::Clear => "clear".into(),
        Op::Normalize => "normalize".into(),
        Op::Trip(b) => format!("save and load {}", enc(*b)),
    }
}
fn tv<T: serde::Serialize>(x: T) -> Value {
    serde_json::to_value(x).unwrap()
}
fn ent(e: EntityType, layer: &str, lt: &str) -> Entity {
    let mut e = Entity::new(e);
    e.common.layer = layer.into();
    e.common.line_type_name = lt.into();
    e
}
fn samples(k: Kind) -> Vec<Value> {
    let named = |n: &str| -> Value {
        let mut v = types_of(k)[0].1.clone();
        v["name"] = json!(n);
        v
    };
    match k {
        Kind::Entity => vec![
            tv(ent(EntityType::Line(Line { thickness: 2.5, ..Default::default() }), "0", "BYLAYER")),
            tv(ent(EntityType::Text(Text { value: "t".into(), text_style_name: "S1".into(), ..Default::default() }), "L1", "T1")),
            tv(ent(EntityType::MLine(MLine { style_name: "ML".into(), ..Default::default() }), "0", "BYLAYER")),
            tv(ent(
                EntityType::RadialDimension(RadialDimension {
                    dimension_base: DimensionBase { dimension_style_name: "D1".into(), ..Default::default() },
                    ..Default::default()
                }),
                "L2",
                "BYLAYER",
            )),
        ],
        Kind::Object => vec![
            tv(Object::new(ObjectType::DictionaryVariable(DictionaryVariable { value: "v".into(), ..Default::default() }))),
            tv(Object::new(ObjectType::PlotSettings(PlotSettings { plot_view_name: "V1".into(), ..Default::default() }))),
            tv(Object::new(ObjectType::LayerFilter(LayerFilter { layer_names: vec!["L1".into(), "L2".into(), "L1".into()] }))),
            tv(Object::new(ObjectType::MLineStyle(MLineStyle { style_name: "ML".into(), ..Default::default() }))),
        ],
        Kind::Layer => {
            let a = named("A");
            let mut b = named("L1");
            b["line_type_name"] = json!("T1");
            vec![a, b]
        }
        Kind::LineType => vec![named("A"), named("T1")],
        Kind::Style => vec![named("A"), named("S1")],
        Kind::DimStyle => vec![named("A"), named("D1")],
        Kind::View => vec![named("A"), named("V1")],
        Kind::Block => {
            let a = tv(Block { name: "A".into(), ..Default::default() });
            let mut b = Block { name: "B1".into(), layer: "L1".into(), ..Default::default() };
            b.entities.push(ent(EntityType::Line(Default::default()), "L2", "T2"));
            b.entities.push(ent(EntityType::Circle(Default::default()), "L1", "T1"));
            vec![a, tv(b)]
        }
        _ => vec![named("A"), named("B1")],
    }
}
fn edited(k: Kind, v: &Value) -> Value {
    let mut v = v.clone();
    match k {
        Kind::Entity => v["common"]["color"]["raw_value"] = json!(5),
        Kind::Object => v["common"]["x_data"] = tv(vec![XData { application_name: "A".into(), items: vec![XDataItem::Long(5)] }]),
        _ => v["name"] = json!("M"),
    }
    v
}

/// Applies the operation to the drawing and checks the outcome against the list model.
fn apply(d: &mut Drawing, m: &mut Lists, samp: &BTreeMap<usize, Vec<Value>>, op: &Op) -> Result<(), String> {
    let old = m.clone();
    let mut target = None;
    let mut extra: Vec<(Kind, String)> = vec![];
    match op {
        Op::Add(k, i) => {
            let v = &samp[&pos(*k)][*i];
            extra = closure(m, needs(*k, v));
            let r = add(d, *k, v);
            let all = get(*k, d);
            if all.last() != Some(&r) {
                return Err("the item returned is not the last one of its collection".into());
            }
            if bare(&r) != bare(v) {
                let mut o = vec![];
                gen::diff(&bare(v), &bare(&r), 0.0, "", &mut o);
                return Err(format!("the item changed by being added: {}", o.join("; ")));
            }
            // resources of the same kind come before the item itself
            let mut w: Vec<Value> = all.iter().map(bare).collect();
            w.pop();
            let names: Vec<String> = extra.iter().filter(|x| x.0 == *k).map(|x| x.1.clone()).collect();
            appended(*k, &old[pos(*k)], &w, &names)?;
            target = Some(*k);
        }
        Op::RemoveFirst(k) | Op::RemoveLast(k) | Op::RemoveNone(k) => {
            let n = old[pos(*k)].len();
            let i = match op {
                Op::RemoveFirst(_) => 0,
                Op::RemoveLast(_) => n.saturating_sub(1),
                _ => n,
            };
            let r = remove(d, *k, i);
            let mut want = old[pos(*k)].clone();
            let w = if i < n { Some(want.remove(i)) } else { None };
            if r.as_ref().map(bare) != w {
                return Err(format!("removing {} of {} returned {:?}", i, n, r.map(|v| name_of(*k, &v))));
            }
            if get(*k, d).iter().map(bare).collect::<Vec<_>>() != want {
                return Err("what is left is not the list without the removed item".into());
            }
            target = Some(*k);
        }
        Op::Edit(k) => {
            let n = old[pos(*k)].len();
            if count_through_mut(d, *k) != n {
                return Err("mutable iteration does not visit every item".into());
            }
            if n > 0 {
                let i = n - 1;
                let v = edited(*k, &get(*k, d)[i]);
                set_through_mut(d, *k, i, &v);
                let mut want = old[pos(*k)].clone();
                want[i] = bare(&v);
                if get(*k, d).iter().map(bare).collect::<Vec<_>>() != want {
                    return Err("the edit is not what the collection holds".into());
                }
            }
            target = Some(*k);
        }
        Op::Clear => {
            d.clear();
            let now = lists(d);
            if now.iter().any(|l| !l.is_empty()) || !d.classes.is_empty() || d.thumbnail.is_some() {
                return Err("something is left after clearing".into());
            }
            *m = now;
            return Ok(());
        }
        Op::Normalize => {
            let extra = closure(m, standard(d));
            d.normalize();
            let now = lists(d);
            for (i, k) in ITEM_KINDS.iter().enumerate() {
                normalized(*k, &old[i], &now[i], &extra)?;
            }
            *m = now;
            return Ok(());
        }
        Op::Trip(bin) => {
            let b = save(d, *bin)?;
            *d = load(&b)?;
            // loading adds what the items name, as adding them does
            let want = ITEM_KINDS.iter().enumerate().flat_map(|(i, k)| m[i].iter().flat_map(|v| needs(*k, v)).collect::<Vec<_>>()).collect();
            extra = closure(m, want);
        }
    }
    let now = lists(d);
    for (i, k) in ITEM_KINDS.iter().enumerate() {
        if Some(*k) == target {
            continue;
        }
        if let Op::Trip(_) = op {
            let names: Vec<String> = extra.iter().filter(|x| x.0 == *k).map(|x| x.1.clone()).collect();
            let n = old[i].len().min(now[i].len());
            appended(*k, &now[i][..n], &now[i], &names)?;
            if old[i][..] != now[i][..n] {
                let mut o = vec![];
                gen::diff(&json!(old[i]), &json!(now[i][..n]), 1e-9, "", &mut o);
                if !o.is_empty() {
                    return Err(format!("{:?} changed by save and load: {}", k, o.join("; ")));
                }
            }
            continue;
        }
        let names: Vec<String> = extra.iter().filter(|x| x.0 == *k).map(|x| x.1.clone()).collect();
        appended(*k, &old[i], &now[i], &names)?;
    }
    *m = now;
    Ok(())
}
fn normalized(k: Kind, old: &[Value], now: &[Value], extra: &[(Kind, String)]) -> Result<(), String> {
    if matches!(k, Kind::Entity | Kind::Object | Kind::Block) {
        if old != now {
            return Err(format!("normalizing changed {:?}", k));
        }
        return Ok(());
    }
    let mut names: Vec<String> = extra.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
    let all: Vec<String> = now.iter().map(|v| name_of(k, v)).collect();
    if all.windows(2).any(|w| w[0] > w[1]) {
        return Err(format!("{:?} is not sorted by name: {:?}", k, all));
    }
    // without the added names, what is left is the old list in stable order
    let mut want = old.to_vec();
    want.sort_by_key(|v| name_of(k, v));
    let rest: Vec<Value> = now
        .iter()
        .filter(|v| {
            let n = name_of(k, v);
            match names.iter().position(|x| *x == n) {
                Some(i) => {
                    names.remove(i);
                    false
                }
                None => true,
            }
        })
        .cloned()
        .collect();
    if !names.is_empty() {
        return Err(format!("{:?}: {:?} missing after normalizing", k, names));
    }
    if rest != want {
        return Err(format!("{:?}: normalizing changed, lost or duplicated entries: {:?}", k, all));
    }
    Ok(())
}

fn walk(c: &Ctx, d: &Drawing, m: &Lists, samp: &BTreeMap<usize, Vec<Value>>, ops: &[Op], depth: usize, path: &mut Vec<usize>, start: &str) {
    for (i, o) in ops.iter().enumerate() {
        path.push(i);
        step(c, d, m, samp, ops, o, depth, path, start);
        path.pop();
        if c.failing() {
            return;
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn step(c: &Ctx, d: &Drawing, m: &Lists, samp: &BTreeMap<usize, Vec<Value>>, ops: &[Op], o: &Op, depth: usize, path: &mut Vec<usize>, start: &str) {
    let mut d = d.clone();
    let mut m = m.clone();
    if path.len() == 3 {
        c.begin(&format!("{} {:?}", start, path.iter().map(|i| name(&ops[*i])).collect::<Vec<_>>()));
    }
    c.transitions.fetch_add(1, SeqCst);
    let key = || format!("{}: {}", start, path.iter().map(|i| name(&ops[*i])).collect::<Vec<_>>().join(", "));
    match guard(|| apply(&mut d, &mut m, samp, o)) {
        Ok(Ok(())) => (),
        Ok(Err(e)) | Err(e) => {
            let k = key();
            if !c.skip(&k) {
                c.fail(&k, &e, || json!({"history": path.iter().map(|i| name(&ops[*i])).collect::<Vec<_>>(), "start": start}));
            }
            return;
        }
    }
    c.distinct(&serde_json::to_vec(&m).unwrap());
    if depth > 1 {
        walk(c, &d, &m, samp, ops, depth - 1, path, start);
    } else {
        c.traces.fetch_add(1, SeqCst);
    }
}
fn starts() -> Vec<(&'static str, Drawing)> {
    let mut a = empty_drawing(AcadVersion::R2018);
    a.header.next_available_handle = Handle(1);
    let mut b = Drawing::new();
    b.header.version = AcadVersion::R2018;
    vec![("empty", a), ("new", b)]
}
fn all_ops(kinds: &[Kind], samp: &BTreeMap<usize, Vec<Value>>) -> Vec<Op> {
    let mut ops = vec![];
    for k in kinds {
        for i in 0..samp[&pos(*k)].len() {
            ops.push(Op::Add(*k, i));
        }
        ops.push(Op::RemoveFirst(*k));
        ops.push(Op::RemoveLast(*k));
        ops.push(Op::RemoveNone(*k));
        ops.push(Op::Edit(*k));
    }
    ops.extend([Op::Clear, Op::Normalize, Op::Trip(false), Op::Trip(true)]);
    ops
}
pub fn c20(c: &Ctx) -> i32 {
    let samp: BTreeMap<usize, Vec<Value>> = ITEM_KINDS.iter().map(|k| (pos(*k), samples(*k))).collect();
    let st = starts();
    // (start, kinds, depth)
    let mut jobs: Vec<(usize, Vec<Op>, usize, usize)> = vec![];
    let plan = |kinds: &[Kind], depth: usize, from: &[usize], jobs: &mut Vec<(usize, Vec<Op>, usize, usize)>| {
        let ops = all_ops(kinds, &samp);
        for s in from {
            for i in 0..ops.len() {
                jobs.push((*s, ops.clone(), i, depth));
            }
        }
    };
    // everything together
    plan(&ITEM_KINDS, if c.thorough { 3 } else { 2 }, &[0, 1], &mut jobs);
    // deeper within one kind, and within pairs of kinds that depend on each other
    for k in ITEM_KINDS {
        plan(&[k], if c.thorough { 5 } else { 4 }, &[0], &mut jobs);
        plan(&[k], 3, &[1], &mut jobs);
    }
    let pairs: &[(Kind, Kind)] =
        &[(Kind::Entity, Kind::Layer), (Kind::Entity, Kind::Object), (Kind::Layer, Kind::LineType), (Kind::Block, Kind::BlockRecord), (Kind::Entity, Kind::Style), (Kind::Block, Kind::Layer), (Kind::Object, Kind::View), (Kind::Block, Kind::Entity)];
    for (a, b) in pairs {
        plan(&[*a, *b], if c.thorough { 4 } else { 3 }, &[0], &mut jobs);
    }
    c.par(jobs.len(), |n| {
        let (s, ops, i, depth) = &jobs[n];
        c.begin(&format!("{} {}", st[*s].0, name(&ops[*i])));
        let m = lists(&st[*s].1);
        step(c, &st[*s].1, &m, &samp, ops, &ops[*i], *depth, &mut vec![*i], st[*s].0);
        c.end();
    });
    c.sample(|| json!({"operations": all_ops(&ITEM_KINDS, &samp).iter().map(name).collect::<Vec<_>>()}));
    c.states.store(c.count_distinct(), SeqCst);
    c.finish(
        "model_checking",
        "every sequence of operations (add plain or with new named resources, remove first/last/out of range, edit through mutable iteration, clear, normalize, save and load) up to the depth, from an empty and from a new drawing; the list model is stepped with the implementation and all twelve collections are compared after every step; states are distinct list contents",
        &["names are compared exactly", "the order in which several named resources are added for one item is not prescribed"],
        true,
    )
}

// ---------------------------------------------------------------- C11
/// The places of an item that name resources.
fn name_paths(k: Kind, v: &Value) -> Vec<String> {
    let mut out = vec![];
    match k {
        Kind::Entity => {
            out.push("/common/layer".into());
            out.push("/common/line_type_name".into());
            let ty = v["specific"].as_object().and_then(|m| m.keys().next().cloned()).unwrap_or_default();
            for f in ["text_style_name", "dimension_style_name", "style_name"] {
                for p in [format!("/specific/{}/{}", ty, f), format!("/specific/{}/dimension_base/{}", ty, f)] {
                    if v.pointer(&p).is_some() && (f != "style_name" || ty == "MLine") {
                        out.push(p);
                    }
                }
            }
        }
        Kind::Object => {
            let ty = v["specific"].as_object().and_then(|m| m.keys().next().cloned()).unwrap_or_default();
            match ty.as_str() {
                "PlotSettings" => out.push("/specific/PlotSettings/plot_view_name".into()),
                "MLineStyle" => out.push("/specific/MLineStyle/style_name".into()),
                _ => (),
            }
            if ty == "LayerFilter" || ty == "LayerIndex" {
                for i in 0..v["specific"][&ty]["layer_names"].as_array().map(|a| a.len()).unwrap_or(0) {
                    out.push(format!("/specific/{}/layer_names/{}", ty, i));
                }
            }
        }
        Kind::Layer => out.push("/line_type_name".into()),
        Kind::Block => {
            out.push("/layer".into());
            out.push("/name".into());
            for i in 0..v["entities"].as_array().map(|a| a.len()).unwrap_or(0) {
                out.push(format!("/entities/{}/common/layer", i));
                out.push(format!("/entities/{}/common/line_type_name", i));
            }
        }
        _ => (),
    }
    out
}
/// Every kind of item that names resources, by type.
fn naming() -> Vec<(Kind, String, Value)> {
    let mut out = vec![];
    for k in [Kind::Entity, Kind::Object, Kind::Layer, Kind::Block] {
        for (t, mut v) in types_of(k) {
            if t == "LayerFilter" || t == "LayerIndex" {
                v["specific"][&t]["layer_names"] = json!(["a", "b"]);
            }
            if k == Kind::Block {
                v["entities"] = json!([ent(EntityType::Line(Default::default()), "0", "BYLAYER"), ent(EntityType::Circle(Default::default()), "0", "BYLAYER")]);
            }
            out.push((k, t, v));
        }
    }
    out
}
const NAMES: [&str; 5] = ["New", "new", "STANDARD", "0", "BYLAYER"];
/// Different names that a sloppy comparison takes for the same.
const ALIKE: [&str; 6] = ["New", "Ne", "New1", "ew", " New", "New "];
fn c11_start(i: usize) -> (&'static str, Drawing) {
    let mut all = starts();
    match i {
        0 | 1 => all.swap_remove(i),
        _ => {
            // holds the new name in every table already
            let mut d = all.swap_remove(0).1;
            for k in TABLE_KINDS {
                let mut v = types_of(k)[0].1.clone();
                v["name"] = json!("New");
                put(k, &mut d, &v).unwrap();
            }
            ("has New", d)
        }
    }
}
fn history(c: &Ctx, key: &str, start: usize, samp: &BTreeMap<usize, Vec<Value>>, ops: &[Op]) {
    if c.skip(key) {
        return;
    }
    c.begin(key);
    c.transitions.fetch_add(ops.len() as u64, SeqCst);
    let (_, mut d) = c11_start(start);
    let mut m = lists(&d);
    for (i, o) in ops.iter().enumerate() {
        match guard(|| apply(&mut d, &mut m, samp, o)) {
            Ok(Ok(())) => c.distinct(&serde_json::to_vec(&m).unwrap()),
            Ok(Err(e)) | Err(e) => {
                c.fail(key, &format!("step {} ({}): {}", i + 1, name(o), e), || json!({"start": c11_start(start).0, "history": ops.iter().map(name).collect::<Vec<_>>(), "samples": format!("{:?}", samp.values().map(|v| v.len()).collect::<Vec<_>>())}));
                return;
            }
        }
    }
    c.traces.fetch_add(1, SeqCst);
}
pub fn c11(c: &Ctx) -> i32 {
    let its = naming();
    // every type with every combination of names, added twice, then again after the named entries are removed
    c.par(its.len(), |n| {
        let (k, t, base) = &its[n];
        let paths = name_paths(*k, base);
        let names: &[&str] = if paths.len() <= 3 { &NAMES } else { &NAMES[..3] };
        let total = names.len().pow(paths.len() as u32);
        for x in 0..total {
            let mut v = base.clone();
            let mut y = x;
            let mut tag = vec![];
            for p in &paths {
                *v.pointer_mut(p).unwrap() = json!(names[y % names.len()]);
                tag.push(names[y % names.len()]);
                y /= names.len();
            }
            let samp = BTreeMap::from([(pos(*k), vec![v.clone()])]);
            let kinds: Vec<Kind> = {
                let mut ks: Vec<Kind> = vec![];
                for q in needs(*k, &v) {
                    if !ks.contains(&q.0) {
                        ks.push(q.0);
                    }
                }
                ks
            };
            for s in 0..3 {
                let key = format!("{} names {:?} in {}", t, tag, ["empty", "new", "has New"][s]);
                let mut ops = vec![Op::Add(*k, 0), Op::Add(*k, 0)];
                for r in &kinds {
                    ops.extend([Op::RemoveFirst(*r), Op::Add(*k, 0), Op::RemoveLast(*r), Op::Add(*k, 0)]);
                }
                ops.extend([Op::Normalize, Op::Normalize, Op::Add(*k, 0)]);
                history(c, &key, s, &samp, &ops);
            }
        }
        c.end();
    });
    // names that are much alike, one after the other
    c.par(its.len(), |n| {
        let (k, t, base) = &its[n];
        let paths = name_paths(*k, base);
        for p in &paths {
            let with = |x: &str| {
                let mut v = base.clone();
                for q in &paths {
                    *v.pointer_mut(q).unwrap() = json!(if q == p { x } else { "New" });
                }
                v
            };
            for a in ALIKE {
                for b in ALIKE {
                    if a == b {
                        continue;
                    }
                    let samp = BTreeMap::from([(pos(*k), vec![with(a), with(b)])]);
                    for s in [0, 2] {
                        history(c, &format!("{} {} {:?} then {:?} in {}", t, p, a, b, s), s, &samp, &[Op::Add(*k, 0), Op::Add(*k, 1), Op::Add(*k, 0), Op::Normalize, Op::Normalize]);
                    }
                }
            }
        }
        c.end();
    });
    // pairs of types naming the same new things
    let users: Vec<(Kind, String, Value)> = its
        .iter()
        .filter(|(k, t, v)| name_paths(*k, v).len() > if *k == Kind::Entity { 2 } else { 0 } || t == "Line")
        .map(|(k, t, v)| {
            let mut v = v.clone();
            for p in name_paths(*k, &v) {
                *v.pointer_mut(&p).unwrap() = json!("New");
            }
            (*k, t.clone(), v)
        })
        .collect();
    c.extra("types_naming_resources", json!(users.len()));
    c.par(users.len() * users.len(), |n| {
        let (a, b) = (&users[n / users.len()], &users[n % users.len()]);
        let mut samp: BTreeMap<usize, Vec<Value>> = BTreeMap::from([(pos(a.0), vec![a.2.clone()])]);
        let l = samp.entry(pos(b.0)).or_default();
        l.push(b.2.clone());
        let j = l.len() - 1;
        for s in 0..3 {
            history(c, &format!("{} then {} in {}", a.1, b.1, s), s, &samp, &[Op::Add(a.0, 0), Op::Add(b.0, j), Op::Add(a.0, 0), Op::Normalize, Op::Normalize]);
        }
        c.end();
    });
    // normalizing with any subset of the standard entries, and others, in each table
    let mut st = vec![];
    {
        let d = starts().swap_remove(0).1;
        for k in TABLE_KINDS {
            let names: Vec<String> = standard(&d).into_iter().filter(|x| x.0 == k).map(|x| x.1).chain(["Zebra".into(), "!first".into(), "acad".into()]).collect();
            for mask in 0..1u32 << names.len() {
                for rev in [false, true] {
                    let mut l: Vec<String> = names.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1.clone()).collect();
                    if rev {
                        if l.len() < 2 {
                            continue;
                        }
                        l.reverse();
                    }
                    st.push((k, l));
                }
            }
        }
    }
    c.par(st.len(), |n| {
        let (k, l) = &st[n];
        let samp = BTreeMap::from([(
            pos(*k),
            l.iter()
                .map(|x| {
                    let mut v = types_of(*k)[0].1.clone();
                    v["name"] = json!(x);
                    if *k == Kind::Layer {
                        v["line_type_name"] = json!("CONTINUOUS");
                    }
                    if *k == Kind::ViewPort || *k == Kind::View {
                        let f: Value = if *k == Kind::View {
                            let mut y: View = serde_json::from_value(v).unwrap();
                            y.normalize();
                            tv(y)
                        } else {
                            let mut y: ViewPort = serde_json::from_value(v).unwrap();
                            y.normalize();
                            tv(y)
                        };
                        v = f;
                    }
                    v
                })
                .collect::<Vec<_>>(),
        )]);
        let mut ops: Vec<Op> = (0..l.len()).map(|i| Op::Add(*k, i)).collect();
        ops.extend([Op::Normalize, Op::Normalize, Op::Normalize]);
        history(c, &format!("normalize with {:?} {:?}", k, l), 0, &samp, &ops);
        c.end();
    });
    // the header's coordinate systems, and unusual values everywhere: twice is the same as once and nothing is lost
    let ucs = ["ucs_definition_name", "ucs_name", "ortho_ucs_reference", "paperspace_ucs_definition_name", "paperspace_ucs_name", "paperspace_ortho_ucs_reference"];
    c.par(729, |n| {
        let mut h = tv(fixed_header());
        let mut y = n;
        for f in ucs {
            h[f] = json!(["", "U1", "U2"][y % 3]);
            y /= 3;
        }
        twice(c, &format!("coordinate systems {}", n), |d| put(Kind::Header, d, &h), Some(ucs.iter().map(|f| h[*f].as_str().unwrap().to_string()).filter(|x| !x.is_empty()).collect()));
        c.end();
    });
    let mut odd = vec![];
    for k in TABLE_KINDS.into_iter().chain([Kind::Block, Kind::Header]) {
        let sh = shape_of(k);
        let v = types_of(k)[0].1.clone();
        for (a, w) in gen::alternatives(&sh, "", &v) {
            odd.push((k, format!("{:?} {}", k, a), w));
        }
    }
    c.par(odd.len(), |n| {
        let (k, t, v) = &odd[n];
        twice(c, t, |d| put(*k, d, v), None);
        c.end();
    });
    c.states.store(c.count_distinct(), SeqCst);
    c.sample(|| json!({"types": its.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "names": NAMES}));
    c.finish(
        "model_checking",
        "every type with every combination of names over the name set, added, re-added and added again after removing entries, from three starting drawings; all ordered pairs of types naming the same new things; normalizing every subset of standard and other entries of each table; every field of table entries, blocks and header over its value domain normalized twice; each step compared with the reference model; states are distinct contents of all collections",
        &["the contents of blocks name layers and line types only", "names are compared exactly, including case"],
        true,
    )
}
fn twice(c: &Ctx, key: &str, f: impl Fn(&mut Drawing) -> Result<(), String>, ucs: Option<BTreeSet<String>>) {
    if c.skip(key) {
        return;
    }
    c.begin(key);
    c.eval(1);
    let r = guard(|| -> Result<(), String> {
        let (_, mut d) = c11_start(0);
        if f(&mut d).is_err() {
            return Ok(()); // not a value of the type
        }
        let names = |d: &Drawing| -> Vec<Vec<String>> {
            ITEM_KINDS
                .iter()
                .map(|k| {
                    let mut l: Vec<String> = get(*k, d).iter().map(|v| name_of(*k, v)).collect();
                    l.sort();
                    l
                })
                .collect()
        };
        let before = names(&d);
        d.normalize();
        let once = serde_json::to_value(&d).unwrap();
        let after = names(&d);
        for (a, b) in before.iter().zip(&after) {
            let mut b = b.clone();
            for x in a {
                match b.iter().position(|y| y == x) {
                    Some(i) => {
                        b.remove(i);
                    }
                    None => return Err(format!("{:?} is gone or renamed after normalizing", x)),
                }
            }
        }
        for (k, n) in standard(&d) {
            if after[pos(k)].iter().filter(|x| **x == n).count() != 1 {
                return Err(format!("{:?} {:?} is there {} times after normalizing", k, n, after[pos(k)].iter().filter(|x| **x == n).count()));
            }
        }
        if let Some(u) = &ucs {
            if after[pos(Kind::Ucs)].iter().cloned().collect::<BTreeSet<_>>() != *u {
                return Err(format!("coordinate systems {:?} instead of {:?}", after[pos(Kind::Ucs)], u));
            }
        }
        d.normalize();
        let again = serde_json::to_value(&d).unwrap();
        let mut o = vec![];
        gen::diff(&once, &again, 0.0, "", &mut o);
        if !o.is_empty() {
            return Err(format!("normalizing again changed {}", o.join("; ")));
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => c.distinct(key.as_bytes()),
        Ok(Err(e)) | Err(e) => c.fail(key, &e, || json!({"case": key})),
    }
}
