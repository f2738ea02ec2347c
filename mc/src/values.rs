//! C07, C24, C26: scalar values, value types, extended data.
use crate::catalog::*;
use crate::core::*;
use crate::corpus;
use crate::gen;
use crate::util::*;
use crate::wire::{self, T};
use dxf::entities::*;
use dxf::enums::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Value};

// ------------------------------------------------------------------ C07
fn same(a: &CodePairValue, b: &CodePairValue, bin: bool) -> bool {
    match (a, b) {
        (CodePairValue::Double(x), CodePairValue::Double(y)) => {
            if bin {
                x.to_bits() == y.to_bits()
            } else {
                (x - y).abs() <= 0.501e-12 + x.abs() * 4.5e-16
            }
        }
        _ => a == b,
    }
}
fn doubles() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 0.1, 1.0 / 3.0, 123456789.123456789, 0.1234567890123456, 5e-324];
    for e in 0..2047u64 {
        for m in [0u64, 1, (1 << 52) - 1, 0x5555555555555] {
            v.push(f64::from_bits(e << 52 | m));
        }
    }
    for e in -30..=30 {
        for d in 1..=99 {
            v.push(format!("{}e{}", d, e).parse().unwrap());
        }
        for t in ["1.23456789012", "9.99999999999", "1.00000000001", "4.99999999999949"] {
            v.push(format!("{}e{}", t, e).parse().unwrap());
        }
    }
    for k in -2000..=2000 {
        v.push(k as f64 / 8.0);
        v.push(k as f64 * 1e-12);
        v.push(k as f64 + 0.5e-12);
    }
    let n = v.len();
    for i in 0..n {
        v.push(-v[i]);
    }
    v
}
fn ints() -> Vec<i128> {
    let mut v: Vec<i128> = (-300..=300).collect();
    for p in 0..=64 {
        for d in -2..=2 {
            v.push((1i128 << p) + d);
            v.push(-(1i128 << p) + d);
        }
    }
    for e in 0..=19 {
        for d in -1..=1 {
            v.push(10i128.pow(e) + d);
            v.push(-(10i128.pow(e)) + d);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn values_for(code: i32, whole: bool) -> Vec<CodePairValue> {
    let is = ints();
    match wire::type_of(code) {
        Some(T::I16) if whole => (i16::MIN..=i16::MAX).map(CodePairValue::Short).collect(),
        Some(T::I16) => is.iter().filter_map(|x| i16::try_from(*x).ok()).map(CodePairValue::Short).collect(),
        Some(T::I32) => is.iter().filter_map(|x| i32::try_from(*x).ok()).map(CodePairValue::Integer).collect(),
        Some(T::I64) => is.iter().filter_map(|x| i64::try_from(*x).ok()).map(CodePairValue::Long).collect(),
        Some(T::Bool) => vec![CodePairValue::Boolean(0), CodePairValue::Boolean(1)],
        Some(T::F64) if whole => doubles().into_iter().map(CodePairValue::Double).collect(),
        Some(T::F64) => doubles().into_iter().step_by(17).map(CodePairValue::Double).collect(),
        Some(T::Bin) => {
            let mut v = vec![];
            for n in (1..=130).chain([200, 253, 254, 255]) {
                v.push(CodePairValue::Binary((0..n).map(|i| (i * 7 + n) as u8).collect()));
            }
            for b in 0..=255u8 {
                v.push(CodePairValue::Binary(vec![b]));
                v.push(CodePairValue::Binary(vec![b, 0, b]));
            }
            v
        }
        Some(T::Str) => ["", "a", "A1", "0", "FFFFFFFF", " x ", "1.5", "ABC def"].iter().map(|s| CodePairValue::Str(s.to_string())).collect(),
        None => vec![],
    }
}
/// A place that holds arbitrary code pairs.
fn pairs_trip(place: usize, ps: &[CodePair], ver: usize, bin: bool) -> Result<Vec<CodePair>, String> {
    guard(|| {
        let mut d = empty_drawing(VERSIONS[ver]);
        if place == 0 {
            d.add_object(Object::new(ObjectType::XRecordObject(XRecordObject { data_pairs: ps.to_vec(), ..Default::default() })));
        } else {
            let mut l = Entity::new(EntityType::Line(Line::default()));
            l.common.extension_data_groups.push(ExtensionGroup { application_name: "G".into(), items: ps.iter().cloned().map(ExtensionGroupItem::CodePair).collect() });
            d.add_entity(l);
        }
        let d = load(&save(&d, bin)?)?;
        if place == 0 {
            let o = d.objects().next().ok_or("object is gone")?;
            match &o.specific {
                ObjectType::XRecordObject(x) => Ok(x.data_pairs.clone()),
                _ => Err("not an XRECORD".to_string()),
            }
        } else {
            let e = d.entities().next().ok_or("entity is gone")?;
            let gr = e.common.extension_data_groups.first().ok_or("group is gone")?;
            Ok(gr
                .items
                .iter()
                .filter_map(|i| match i {
                    ExtensionGroupItem::CodePair(p) => Some(p.clone()),
                    _ => None,
                })
                .collect())
        }
    })
    .unwrap_or_else(Err)
}
fn eq_pairs(a: &[CodePair], b: &[CodePair], bin: bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.code == y.code && same(&x.value, &y.value, bin))
}
pub fn c07(c: &Ctx) -> i32 {
    let vers: Vec<usize> = if c.thorough { (14..21).collect() } else { vec![14, 15, 20] };
    let mut jobs = vec![];
    for place in 0..2 {
        for code in 1..=481 {
            if wire::type_of(code).is_none() {
                continue;
            }
            // an XRECORD's own handle, owner, groups, subclass marker and duplicate record flag
            if place == 0 && matches!(code, 5 | 100 | 102 | 105 | 280 | 330 | 360) || place == 1 && code == 102 {
                continue;
            }
            for &v in &vers {
                for bin in [false, true] {
                    jobs.push((place, code, v, bin));
                }
            }
        }
    }
    let first = [60, 62, 70, 71, 170, 270, 370, 400, 10, 40, 50, 110, 140, 210, 460, 41, 48];
    c.par(jobs.len(), |n| {
        let (place, code, v, bin) = jobs[n];
        let vals = values_for(code, c.thorough || first.contains(&code));
        let ps: Vec<CodePair> = vals.iter().map(|x| CodePair::new(code, x.clone(), 0)).collect();
        for (q, ch) in ps.chunks(4096).enumerate() {
            let label = format!("{}/{}@{:?}/{}#{}", if place == 0 { "xrecord" } else { "group" }, code, VERSIONS[v], enc(bin), q);
            c.begin(&label);
            c.eval(ch.len() as u64);
            c.distinct_many(ch.iter().map(|p| hash64(format!("{:?}", p).as_bytes())));
            let r = pairs_trip(place, ch, v, bin);
            if matches!(&r, Ok(x) if eq_pairs(ch, x, bin)) {
                continue;
            }
            let mut any = false;
            for p in ch {
                let one = [p.clone()];
                let r = pairs_trip(place, &one, v, bin);
                if !matches!(&r, Ok(x) if eq_pairs(&one, x, bin)) {
                    any = true;
                    let key = format!("{}/{}@{:?}/{} {:?}", if place == 0 { "xrecord" } else { "group" }, code, VERSIONS[v], enc(bin), p.value);
                    if c.skip(&key) {
                        continue;
                    }
                    c.fail(&key, &format!("came back as {:?}", r), || json!({"code": code, "value": format!("{:?}", p.value)}));
                    if c.failing() {
                        return;
                    }
                }
            }
            if !any {
                c.fail(&label, "the values survive alone but not together", || json!({}));
            }
        }
        c.end();
    });
    // ---- typed places: extended data numbers, handles, binary; item handles
    let dbl = doubles();
    let hs: Vec<u64> = ints().iter().filter_map(|x| u64::try_from(*x).ok()).filter(|x| *x != 0).collect();
    let mut items: Vec<XDataItem> = vec![];
    items.extend((i16::MIN..=i16::MAX).map(XDataItem::Integer));
    items.extend(ints().iter().filter_map(|x| i32::try_from(*x).ok()).map(XDataItem::Long));
    items.extend(dbl.iter().map(|x| XDataItem::Real(*x)));
    items.extend(dbl.iter().step_by(5).map(|x| XDataItem::Distance(*x)));
    items.extend(dbl.iter().step_by(5).map(|x| XDataItem::ScaleFactor(*x)));
    items.extend(dbl.iter().step_by(5).map(|x| XDataItem::ThreeReals(*x, 1.0, -x)));
    items.extend(dbl.iter().step_by(5).map(|x| XDataItem::WorldSpacePosition(Point::new(1.0, *x, 2.0))));
    items.extend(dbl.iter().step_by(5).map(|x| XDataItem::WorldDirection(Vector::new(1.0, 2.0, *x))));
    items.extend(hs.iter().map(|x| XDataItem::Handle(Handle(*x))));
    for n in 0..=127 {
        items.push(XDataItem::BinaryData((0..n).map(|i| (i * 13 + n) as u8).collect()));
    }
    items.extend((0..=255u8).map(|b| XDataItem::BinaryData(vec![b])));
    let chunks: Vec<&[XDataItem]> = items.chunks(2048).collect();
    let vers2: Vec<usize> = if c.thorough { (15..21).collect() } else { vec![15, 20] };
    let jobs: Vec<(usize, usize, bool)> = (0..chunks.len()).flat_map(|i| vers2.iter().flat_map(move |v| [(i, *v, false), (i, *v, true)])).collect();
    let xd = |its: &[XDataItem], ver: usize, bin: bool| -> Result<Value, String> {
        guard(|| {
            let mut d = empty_drawing(VERSIONS[ver]);
            let mut e = Entity::new(EntityType::Line(Line::default()));
            e.common.x_data.push(XData { application_name: "A".into(), items: its.to_vec() });
            d.add_entity(e);
            let d = load(&save(&d, bin)?)?;
            let e = d.entities().next().ok_or("entity is gone")?;
            Ok(serde_json::to_value(&e.common.x_data.first().ok_or("xdata is gone")?.items).unwrap())
        })
        .unwrap_or_else(Err)
    };
    let eqx = |a: &[XDataItem], b: &Result<Value, String>, bin: bool| -> bool {
        let Ok(b) = b else { return false };
        let mut out = vec![];
        gen::diff(&serde_json::to_value(a).unwrap(), b, if bin { 0.0 } else { 1e-12 }, "", &mut out);
        out.is_empty()
    };
    c.par(jobs.len(), |n| {
        let (i, v, bin) = jobs[n];
        let ch = chunks[i];
        let label = format!("xdata@{:?}/{}#{}", VERSIONS[v], enc(bin), i);
        c.begin(&label);
        c.eval(ch.len() as u64);
        c.distinct_many(ch.iter().map(|p| hash64(format!("{:?}", p).as_bytes())));
        if eqx(ch, &xd(ch, v, bin), bin) {
            return;
        }
        for x in ch {
            let r = xd(std::slice::from_ref(x), v, bin);
            if !eqx(std::slice::from_ref(x), &r, bin) {
                c.fail(&format!("xdata@{:?}/{} {:?}", VERSIONS[v], enc(bin), x), &format!("came back as {:?}", r), || json!({"item": format!("{:?}", x)}));
                if c.failing() {
                    return;
                }
            }
        }
    });
    // ---- fields of items: 32-bit and 64-bit numbers, handles, byte strings
    let hjobs: Vec<(usize, bool)> = (14..21).flat_map(|v| [(v, false), (v, true)]).collect();
    c.par(hjobs.len(), |n| {
        let (v, bin) = hjobs[n];
        let key = format!("handles@{:?}/{}", VERSIONS[v], enc(bin));
        c.begin(&key);
        c.eval(hs.len() as u64);
        let r = guard(|| -> Result<(), String> {
            let mut d = empty_drawing(VERSIONS[v]);
            let g: Value = json!(hs);
            let mut o = serde_json::to_value(Object::new(ObjectType::IdBuffer(IdBuffer::default()))).unwrap();
            let f = o.pointer_mut("/specific/IdBuffer").unwrap().as_object_mut().unwrap();
            let k = f.keys().find(|k| k.contains("handle")).unwrap().clone();
            f.insert(k.clone(), g.clone());
            put(Kind::Object, &mut d, &o)?;
            let d = load(&save(&d, bin)?)?;
            let o = &get(Kind::Object, &d)[0];
            if o["specific"]["IdBuffer"][&k] != g {
                return Err(format!("came back as {}", o["specific"]["IdBuffer"][&k]));
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => (),
            x => c.fail(&key, &format!("{:?}", x), || json!({"handles": hs})),
        }
        for (k, h) in hs.iter().enumerate().filter(|(_, h)| **h < 1 << 63) {
            // an item's own handle, at load
            let t = format!("  0\nSECTION\n  2\nENTITIES\n  0\nLINE\n  5\n{:X}\n  0\nENDSEC\n  0\nEOF\n", h);
            if k % 3 == 0 || c.thorough {
                c.eval(1);
                let key = format!("own handle {:X}", h);
                match guard(|| load(t.as_bytes())) {
                    Ok(Ok(d)) if d.entities().next().map(|e| e.common.handle.0) == Some(*h) => (),
                    x => c.fail(&key, &format!("{:?}", x.map(|d| d.map(|d| d.entities().next().map(|e| e.common.handle)))), || json!({"file": t})),
                }
            }
        }
    });
    c.finish(
        "exploration",
        "every group code x value domain (whole 16-bit range on representative codes of each range, boundary sets of 32- and 64-bit integers, every binary exponent x 4 mantissas and decimal grids of doubles, byte strings of every length up to 130 and every byte) x place x version x encoding; distinct by code and value",
        &["text files hold 12 decimal places"],
        true,
    )
}

// ------------------------------------------------------------------ C24
pub fn c24(c: &Ctx) -> i32 {
    let check = |key: String, ok: bool, detail: String| {
        if c.skip(&key) {
            return;
        }
        c.eval(1);
        c.distinct(key.as_bytes());
        if !ok {
            c.fail(&key, &detail, || json!({"case": key, "detail": detail}));
        }
    };
    // colours: all raw values have the documented meaning
    c.begin("colours");
    for n in i16::MIN..=i16::MAX {
        let col: Color = serde_json::from_value(json!({ "raw_value": n })).unwrap();
        let m = (col.is_by_layer(), col.is_by_block(), col.is_by_entity(), col.is_turned_off(), col.is_index(), col.index());
        let e = (n == 256, n == 0, n == 257, n < 0, (1..=255).contains(&n), if (1..=255).contains(&n) { Some(n as u8) } else { None });
        check(format!("color {}", n), m == e, format!("{:?}, expected {:?}", m, e));
        let mut x = col.clone();
        x.set_by_layer();
        let a = x.is_by_layer() && x == Color::by_layer();
        x = col.clone();
        x.set_by_block();
        let b = x.is_by_block() && x == Color::by_block();
        x = col.clone();
        x.set_by_entity();
        let d = x.is_by_entity() && x == Color::by_entity();
        x = col.clone();
        x.turn_off();
        let o = x.is_turned_off();
        check(format!("color setters from {}", n), a && b && d && o, format!("{} {} {} {}", a, b, d, o));
        let lw: LineWeight = serde_json::from_value(json!({ "raw_value": n })).unwrap();
        let m = (lw.raw_value(), lw.is_by_block(), lw.is_by_layer());
        let e = (n, lw == LineWeight::by_block(), lw == LineWeight::by_layer());
        check(format!("line weight {}", n), m == e && !(m.1 && m.2), format!("{:?} {:?}", m, e));
        let vm = ViewMode::from_i16(n);
        let raw = n as i32;
        let m = (
            vm.raw(),
            vm.is_perspective_view_active(),
            vm.is_front_clipping_on(),
            vm.is_back_clipping_on(),
            vm.is_ucs_follow_mode_on(),
            vm.is_front_clipping_at_eye(),
        );
        let e = (raw, raw & 1 != 0, raw & 2 != 0, raw & 4 != 0, raw & 8 != 0, raw & 16 != 0);
        check(format!("view mode {}", n), m == e, format!("{:?} {:?}", m, e));
        for on in [false, true] {
            let fs: [fn(&mut ViewMode, bool); 5] = [
                ViewMode::set_is_perspective_view_active,
                ViewMode::set_is_front_clipping_on,
                ViewMode::set_is_back_clipping_on,
                ViewMode::set_is_ucs_follow_mode_on,
                ViewMode::set_is_front_clipping_at_eye,
            ];
            for (k, f) in fs.iter().enumerate() {
                let mut v = vm;
                f(&mut v, on);
                let e = if on { raw | 1 << k } else { raw & !(1 << k) };
                if v.raw() != e {
                    check(format!("view mode {} set {} {}", n, k, on), false, format!("{} expected {}", v.raw(), e));
                }
            }
        }
    }
    for i in 0..=255u8 {
        let col = Color::from_index(i);
        check(format!("color index {}", i), if i == 0 { col.is_by_block() } else { col.index() == Some(i) }, format!("{:?}", col));
    }
    // version names
    let names: [(&str, AcadVersion); 41] = [
        ("MC0.0", AcadVersion::Version_1_0),
        ("AC1.2", AcadVersion::Version_1_2),
        ("AC1.40", AcadVersion::Version_1_40),
        ("AC1.50", AcadVersion::Version_2_05),
        ("AC2.10", AcadVersion::Version_2_10),
        ("AC2.21", AcadVersion::Version_2_21),
        ("AC2.22", AcadVersion::Version_2_22),
        ("AC1001", AcadVersion::Version_2_22),
        ("AC1002", AcadVersion::Version_2_5),
        ("AC1003", AcadVersion::Version_2_6),
        ("AC1004", AcadVersion::R9),
        ("AC1006", AcadVersion::R10),
        ("AC1009", AcadVersion::R12),
        ("AC1011", AcadVersion::R13),
        ("AC1012", AcadVersion::R13),
        ("AC1014", AcadVersion::R14),
        ("14", AcadVersion::R14),
        ("14.01", AcadVersion::R14),
        ("AC1015", AcadVersion::R2000),
        ("15.0", AcadVersion::R2000),
        ("15.05", AcadVersion::R2000),
        ("15.06", AcadVersion::R2000),
        ("AC1018", AcadVersion::R2004),
        ("16.0", AcadVersion::R2004),
        ("16.1", AcadVersion::R2004),
        ("16.2", AcadVersion::R2004),
        ("AC1021", AcadVersion::R2007),
        ("17.0", AcadVersion::R2007),
        ("17.1", AcadVersion::R2007),
        ("17.2", AcadVersion::R2007),
        ("AC1024", AcadVersion::R2010),
        ("18.0", AcadVersion::R2010),
        ("18.1", AcadVersion::R2010),
        ("18.2", AcadVersion::R2010),
        ("AC1027", AcadVersion::R2013),
        ("19.0", AcadVersion::R2013),
        ("19.1", AcadVersion::R2013),
        ("19.2", AcadVersion::R2013),
        ("19.3", AcadVersion::R2013),
        ("AC1032", AcadVersion::R2018),
        ("AC1032", AcadVersion::R2018),
    ];
    for (n, v) in names {
        let r = AcadVersion::from(n.to_string());
        check(format!("version name {}", n), matches!(&r, Ok(x) if *x == v), format!("{:?} expected {:?}", r.ok(), v));
        let t = format!("  0\nSECTION\n  2\nHEADER\n  9\n$ACADVER\n  1\n{}\n  0\nENDSEC\n  0\nEOF\n", n);
        let r = guard(|| load(t.as_bytes()));
        check(format!("file of version {}", n), matches!(&r, Ok(Ok(d)) if d.header.version == v), format!("expected {:?}", v));
    }
    for (i, v) in VERSIONS.iter().enumerate() {
        let back = AcadVersion::from(v.to_string());
        let e = if *v == AcadVersion::R11 { AcadVersion::R12 } else { *v };
        check(format!("version {:?}", v), matches!(&back, Ok(x) if *x == e), format!("{:?}", back.ok()));
        for w in &VERSIONS[i + 1..] {
            check(format!("version order {:?} {:?}", v, w), v < w, "not ordered".into());
        }
        for bin in [false, true] {
            let r = guard(|| load(&save(&empty_drawing(*v), bin)?));
            check(format!("file saved as {:?}/{}", v, enc(bin)), matches!(&r, Ok(Ok(d)) if d.header.version == e), "another version".into());
        }
    }
    for a in ["", "AC1000", "ac1015", "AC10150", "R12", "AC1013", "20.0"] {
        check(format!("no version {}", a), AcadVersion::from(a.to_string()).is_err(), "accepted".into());
    }
    // points
    for x in [0.0, -0.0, 1.5, -2.0, 1e300] {
        for y in [0.0, 3.25] {
            for z in [0.0, -1.0, 7.0] {
                check(format!("point {} {} {}", x, y, z), Point::new(x, y, z).tuple() == (x, y, z), "tuple differs".into());
            }
        }
    }
    c.end();
    // colours, line weights and view modes through files
    let all: Vec<i16> = (i16::MIN..=i16::MAX).collect();
    let chunks: Vec<&[i16]> = all.chunks(2048).collect();
    let vers: Vec<usize> = if c.thorough { (9..21).collect() } else { vec![12, 15, 20] };
    let jobs: Vec<(usize, usize, bool, usize)> = (0..chunks.len()).flat_map(|i| vers.iter().flat_map(move |v| (0..3).flat_map(move |k| [(i, *v, false, k), (i, *v, true, k)]))).collect();
    c.par(jobs.len(), |n| {
        let (i, v, bin, what) = jobs[n];
        let key = format!("{} {}..@{:?}/{}", ["entity colours", "line weights", "view modes"][what], chunks[i][0], VERSIONS[v], enc(bin));
        if c.skip(&key) || (what == 1 && v < 15) {
            return;
        }
        c.begin(&key);
        c.eval(chunks[i].len() as u64);
        let r = guard(|| -> Result<(), String> {
            let mut d = empty_drawing(VERSIONS[v]);
            for n in chunks[i] {
                match what {
                    0 => {
                        let mut e = Entity::new(EntityType::Line(Line::default()));
                        e.common.color = serde_json::from_value(json!({ "raw_value": n })).unwrap();
                        d.add_entity(e);
                    }
                    1 => {
                        d.add_layer(Layer { name: format!("{}", n), line_weight: serde_json::from_value(json!({ "raw_value": n })).unwrap(), ..Default::default() });
                    }
                    _ => {
                        d.add_view(View { name: format!("{}", n), view_mode: *n, ..Default::default() });
                    }
                }
            }
            let d = load(&save(&d, bin)?)?;
            let got: Vec<i64> = match what {
                0 => d.entities().map(|e| serde_json::to_value(&e.common.color).unwrap()["raw_value"].as_i64().unwrap()).collect(),
                1 => d.layers().map(|e| e.line_weight.raw_value() as i64).collect(),
                _ => d.views().map(|e| e.view_mode as i64).collect(),
            };
            let exp: Vec<i64> = chunks[i].iter().map(|x| *x as i64).collect();
            if got != exp {
                let k = got.iter().zip(&exp).position(|(a, b)| a != b);
                return Err(format!("{} of {}; first different: {:?}", got.len(), exp.len(), k.map(|k| (exp[k], got[k]))));
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => (),
            x => c.fail(&key, &format!("{:?}", x), || json!({"values": chunks[i]})),
        }
        c.end();
    });
    // layer colours with the layer on and off
    for bin in [false, true] {
        for &v in &vers {
            for on in [false, true] {
                let key = format!("layer colours {}@{:?}/{}", if on { "on" } else { "off" }, VERSIONS[v], enc(bin));
                let r = guard(|| -> Result<bool, String> {
                    let mut d = empty_drawing(VERSIONS[v]);
                    for i in 1..=255u8 {
                        d.add_layer(Layer { name: format!("{}", i), color: Color::from_index(i), is_layer_on: on, ..Default::default() });
                    }
                    let d = load(&save(&d, bin)?)?;
                    Ok(d.layers().enumerate().all(|(k, l)| l.color.index() == Some(k as u8 + 1) && l.is_layer_on == on) && d.layers().count() == 255)
                });
                check(key, matches!(r, Ok(Ok(true))), format!("{:?}", r));
            }
        }
    }
    // ---- dates: every day, every second of a day
    use chrono::{Duration, Local, TimeZone, Timelike, Utc};
    let base = Utc.with_ymd_and_hms(1900, 1, 2, 0, 0, 0).unwrap();
    let days = if c.thorough { 365 * 400 } else { 365 * 200 };
    let mut offs: Vec<i64> = vec![];
    for d in 0..days {
        offs.push(d * 86400 + (d * 7919) % 86400);
    }
    let d0 = 36500 * 86400;
    let secs_days: &[i64] = if c.thorough { &[0, 36524, 45000, 73049] } else { &[0, 45000] };
    for dd in secs_days {
        for s in 0..86400 {
            offs.push(dd * 86400 + s);
        }
    }
    offs.push(d0);
    // every month of far years, then some of the years that can be represented at all
    for y in 2099..if c.thorough { 100000 } else { 10000 } {
        for m in 1..=12 {
            offs.push((Utc.with_ymd_and_hms(y, m, 1 + (y as u32 * 7 + m) % 28, (y as u32 + m) % 24, m * 5 - 1, (y as u32) % 60).unwrap() - base).num_seconds());
        }
    }
    for y in (10000..262000).step_by(if c.thorough { 1 } else { 97 }) {
        offs.push((Utc.with_ymd_and_hms(y, 1 + y as u32 % 12, 1 + y as u32 % 28, 23, 59, y as u32 % 60).unwrap() - base).num_seconds());
    }
    let chunks: Vec<&[i64]> = offs.chunks(4096).collect();
    let jobs: Vec<(usize, bool)> = (0..chunks.len()).flat_map(|i| [(i, false), (i, true)]).collect();
    c.par(jobs.len(), |n| {
        let (i, bin) = jobs[n];
        let key = format!("dates {}../{}", base + Duration::seconds(chunks[i][0]), enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(chunks[i].len() as u64);
        c.distinct_many(chunks[i].iter().map(|x| *x as u64 ^ 0xDA7E << 48));
        let r = guard(|| -> Result<(), String> {
            let mut d = empty_drawing(AcadVersion::R2018);
            for o in chunks[i] {
                let t = (base + Duration::seconds(*o)).with_timezone(&Local);
                d.add_object(Object::new(ObjectType::LayerIndex(LayerIndex { time_stamp: t, ..Default::default() })));
            }
            let b = save(&d, bin)?;
            let gs = corpus::decode(&b, bin, 20)?;
            let from = gs.iter().position(|x| x.is(2, "OBJECTS")).unwrap();
            let nums: Vec<f64> = gs[from..].iter().filter(|x| x.code == 40).map(|x| if let wire::V::F64(f) = x.v { f } else { f64::NAN }).collect();
            let d = load(&b)?;
            let mut k = 0;
            for (o, w) in d.objects().zip(chunks[i]) {
                let ObjectType::LayerIndex(l) = &o.specific else { return Err("another object".into()) };
                let e = (base + Duration::seconds(*w)).with_timezone(&Local);
                if l.time_stamp.with_nanosecond(0) != Some(e) {
                    return Err(format!("{} came back as {}", e, l.time_stamp));
                }
                // the Julian date of the reference: noon-less day number plus fraction
                let jd = 2415022.0 + *w as f64 / 86400.0;
                if nums.len() != chunks[i].len() || (nums[k] - jd).abs() > 0.4 / 86400.0 {
                    return Err(format!("{} stored as {:?}, expected {}", e, nums.get(k), jd));
                }
                k += 1;
            }
            if k != chunks[i].len() {
                return Err(format!("{} objects", k));
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => (),
            x => c.fail(&key, &format!("{:?}", x), || json!({})),
        }
        c.end();
    });
    // header dates and durations
    let mut hd: Vec<(i64, u64)> = vec![];
    for k in 0..if c.thorough { 40000 } else { 4000 } {
        hd.push((k * 86400 * 17 / 10 + (k * 12347) % 86400, k as u64 * k as u64 * 3 + k as u64 % 7));
    }
    c.par(hd.len(), |n| {
        let (o, dur) = hd[n];
        let bin = n % 2 == 1;
        let key = format!("header dates {} {}/{}", base + Duration::seconds(o), dur, enc(bin));
        if c.skip(&key) {
            return;
        }
        c.begin(&key);
        c.eval(6);
        let r = guard(|| -> Result<(), String> {
            let mut d = empty_drawing(AcadVersion::R2018);
            let at = |k: i64| base + Duration::seconds(o + k * 86413);
            d.header.creation_date = at(0).with_timezone(&Local);
            d.header.creation_date_universal = at(1);
            d.header.update_date = at(2).with_timezone(&Local);
            d.header.update_date_universal = at(3);
            d.header.time_in_drawing = std::time::Duration::from_secs(dur);
            d.header.user_elapsed_timer = std::time::Duration::from_secs(dur * 2 + 1);
            let l = load(&save(&d, bin)?)?;
            let a = (l.header.creation_date, l.header.creation_date_universal, l.header.update_date, l.header.update_date_universal, l.header.time_in_drawing, l.header.user_elapsed_timer);
            let e = (d.header.creation_date, d.header.creation_date_universal, d.header.update_date, d.header.update_date_universal, d.header.time_in_drawing, d.header.user_elapsed_timer);
            if a != e {
                return Err(format!("{:?} expected {:?}", a, e));
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => (),
            x => c.fail(&key, &format!("{:?}", x), || json!({})),
        }
        c.end();
    });
    c.finish(
        "exploration",
        "all 65536 raw values of colours, line weights and view modes (meaning, setters, through files), all version names and version pairs, every day of 200 (thorough: 400) years, every month of far years, years up to 262000, and every second of selected days through files with the stored number compared to the Julian date; distinct by value",
        &["run in time zone UTC"],
        true,
    )
}

// ------------------------------------------------------------------ C26
fn leaf(k: usize, n: i64) -> Value {
    match k {
        0 => json!({ "Str": format!("s{}", n) }),
        1 => json!({ "LayerName": format!("L{}", n) }),
        2 => json!({ "BinaryData": [n, 0, 255] }),
        3 => json!({ "Handle": n + 0x20 }),
        4 => json!({ "ThreeReals": [n as f64, 1.5, -2.0] }),
        5 => json!({ "WorldSpacePosition": {"x": n as f64, "y": 1.5, "z": -2.0} }),
        6 => json!({ "WorldSpaceDisplacement": {"x": n as f64, "y": 2.5, "z": -2.0} }),
        7 => json!({ "WorldDirection": {"x": n as f64, "y": 3.5, "z": -2.0} }),
        8 => json!({ "Real": n as f64 + 0.5 }),
        9 => json!({ "Distance": n as f64 + 0.25 }),
        10 => json!({ "ScaleFactor": n as f64 + 0.125 }),
        11 => json!({ "Integer": n }),
        _ => json!({ "Long": n + 70000 }),
    }
}
/// all forests of exactly n nodes; a node is a leaf of one of `leaves` kinds or a group
fn forests(n: usize, leaves: usize, mk_leaf: &dyn Fn(usize, i64) -> Value, mk_group: &dyn Fn(Vec<Value>) -> Value) -> Vec<Vec<Value>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    // the first tree has k nodes
    for k in 1..=n {
        let mut firsts: Vec<Value> = vec![];
        if k == 1 {
            for l in 0..leaves {
                firsts.push(mk_leaf(l, n as i64));
            }
        }
        for f in forests(k - 1, leaves, mk_leaf, mk_group) {
            firsts.push(mk_group(f));
        }
        let rests = forests(n - k, leaves, mk_leaf, mk_group);
        for f in &firsts {
            for r in &rests {
                let mut v = vec![f.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}
fn x_forests(n: usize, leaves: usize) -> Vec<Vec<Value>> {
    forests(n, leaves, &leaf, &|v| json!({ "ControlGroup": v }))
}
fn e_leaf(k: usize, n: i64) -> Value {
    let codes = [1, 70, 90, 40, 290, 310, 330, 160, 360, 5];
    json!({"CodePair": gen::pair(codes[k], n).unwrap()})
}
fn e_forests(n: usize, leaves: usize) -> Vec<Vec<Value>> {
    forests(n, leaves, &e_leaf, &|v| json!({"Group": {"application_name": "SUB", "items": v}}))
        .into_iter()
        // a group without anything in it is not written
        .filter(|f| !has_empty(&json!(f)))
        .collect()
}
fn has_empty(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(has_empty),
        Value::Object(m) => m.get("items").and_then(|i| i.as_array()).map(|a| a.is_empty()).unwrap_or(false) || m.values().any(has_empty),
        _ => false,
    }
}
fn slot<'a>(v: &'a mut Value, name: &str) -> Option<&'a mut Value> {
    if v.get(name).is_some() {
        return v.get_mut(name);
    }
    v.get_mut("common").and_then(|c| c.get_mut(name))
}
pub fn c26(c: &Ctx) -> i32 {
    // ---- all trees, on a line (several trees per drawing)
    let depth = if c.thorough { 5 } else { 4 };
    let mut xs: Vec<Value> = vec![];
    for n in 0..=depth {
        for f in x_forests(n, [1, 13, 13, 13, 6, 3][n]) {
            xs.push(json!([{"application_name": "A", "items": f}]));
        }
    }
    for a in 0..=2 {
        for f in x_forests(a, 6) {
            for b in 0..=1 {
                for g in x_forests(b, 6) {
                    xs.push(json!([{"application_name": "A", "items": f}, {"application_name": "B", "items": g}]));
                    xs.push(json!([{"application_name": "A", "items": f}, {"application_name": "A", "items": g}]));
                    xs.push(json!([{"application_name": "A", "items": f}, {"application_name": "B", "items": g}, {"application_name": "C", "items": f}]));
                }
            }
        }
    }
    let mut es: Vec<Value> = vec![json!([])];
    for n in 1..=depth {
        for f in e_forests(n, [1, 10, 10, 10, 6, 3][n]) {
            es.push(json!([{"application_name": "A", "items": f}]));
        }
    }
    for f in e_forests(1, 10).into_iter().chain(e_forests(2, 10)) {
        for g in e_forests(1, 10) {
            es.push(json!([{"application_name": "A", "items": f}, {"application_name": "B", "items": g}]));
        }
    }
    // every kind of item with values at the edges of what it can hold, alone, in a group and between others
    let strings = ["}", "{", "{A", "{}", "", " ", " a", "a ", "0", "EOF", "ENDSEC", "SECTION", "SEQEND", "1001", "102", "^", "% x", "\u{e9}", "\u{6f22}\u{5b57}", "\u{1f600}", "A,B", "a|b", "\"q\""];
    let reals = [0.0, -0.0, 1.0, -1.5, 0.1, 1e15, -1e-15, 1e300, 1e-300, 123456789.987654321];
    let mut leaves: Vec<Value> = vec![];
    for t in strings.iter().map(|t| t.to_string()).chain([255, 256, 257, 2049, 70000].map(|n| "x".repeat(n))) {
        leaves.extend([json!({ "Str": t }), json!({ "LayerName": t })]);
    }
    for n in [0usize, 1, 2, 15, 16, 17, 126, 127, 128, 254, 255, 256, 1000] {
        leaves.push(json!({ "BinaryData": (0..n).map(|i| (i * 37 + 200) as u8).collect::<Vec<_>>() }));
    }
    for h in [0u64, 1, 9, 10, 0xF, 0x10, 0xFFFF, 0x10000, u32::MAX as u64, u64::MAX] {
        leaves.push(json!({ "Handle": h }));
    }
    for r in reals {
        leaves.extend(["Real", "Distance", "ScaleFactor"].map(|k| json!({ k: r })));
        for k in ["WorldSpacePosition", "WorldSpaceDisplacement", "WorldDirection"] {
            leaves.extend([json!({ k: {"x": r, "y": 1.5, "z": 2.5} }), json!({ k: {"x": 0.5, "y": r, "z": 2.5} }), json!({ k: {"x": 0.5, "y": 1.5, "z": r} })]);
        }
        leaves.extend([json!({"ThreeReals": [r, 1.5, 2.5]}), json!({"ThreeReals": [0.5, r, 2.5]}), json!({"ThreeReals": [0.5, 1.5, r]})]);
    }
    leaves.extend([i16::MIN, -1, 0, 255, 256, i16::MAX].map(|i| json!({ "Integer": i })));
    leaves.extend([i32::MIN, -1, 0, 65535, 65536, i32::MAX].map(|i| json!({ "Long": i })));
    for l in &leaves {
        let after = json!({"Integer": 3});
        xs.push(json!([{"application_name": "A", "items": [l]}, {"application_name": "B", "items": [after]}]));
        xs.push(json!([{"application_name": "A", "items": [after, l, after]}]));
        xs.push(json!([{"application_name": "A", "items": [{"ControlGroup": [l, after]}, after]}]));
        xs.push(json!([{"application_name": "A", "items": [{"ControlGroup": [after, {"ControlGroup": [after, l]}, l]}, l]}]));
    }
    for t in strings.iter().filter(|t| !t.is_empty()) {
        xs.push(json!([{"application_name": t, "items": [{"Integer": 3}]}, {"application_name": "B", "items": [{"Integer": 4}]}]));
        xs.push(json!([{"application_name": t, "items": []}]));
        xs.push(json!([{"application_name": "B", "items": [{"Integer": 4}]}, {"application_name": t, "items": [{"Str": t}]}]));
    }
    for t in strings {
        let v = json!({"CodePair": {"code": 1, "value": {"Str": "v"}, "offset": 0}});
        es.push(json!([{"application_name": t, "items": [v]}, {"application_name": "B", "items": [v]}]));
        es.push(json!([{"application_name": "A", "items": [v, {"Group": {"application_name": t, "items": [v]}}, v]}]));
        for code in [1, 2, 3, 5, 9, 100, 105, 300, 309, 320, 330, 340, 350, 360, 390, 410, 430, 470, 480, 1000, 1001, 1003] {
            let t = json!({"CodePair": {"code": code, "value": {"Str": t}, "offset": 0}});
            es.push(json!([{"application_name": "A", "items": [t, v]}]));
            es.push(json!([{"application_name": "A", "items": [v, {"Group": {"application_name": "S", "items": [v, t]}}, t]}]));
        }
    }
    for code in 1..=481 {
        for k in [0, 1, 2] {
            if let Some(p) = gen::pair(code, k).filter(|_| code != 102) {
                es.push(json!([{"application_name": "A", "items": [{"CodePair": p}, {"Group": {"application_name": "S", "items": [{"CodePair": p}]}}]}]));
            }
        }
    }
    for r in reals {
        es.push(json!([{"application_name": "A", "items": [{"CodePair": {"code": 40, "value": {"Double": r}, "offset": 0}}]}]));
    }
    // long lists
    for n in [255usize, 256, 257, 40_000] {
        xs.push(json!([{"application_name": "A", "items": (0..n).map(|i| json!({"Long": i})).collect::<Vec<_>>()}]));
        xs.push(json!([{"application_name": "A", "items": [{"ControlGroup": (0..n).map(|i| json!({"Long": i})).collect::<Vec<_>>()}, {"Integer": 1}]}]));
        xs.push(json!((0..n.min(300)).map(|i| json!({"application_name": format!("A{}", i), "items": [{"Long": i}]})).collect::<Vec<_>>()));
        es.push(json!([{"application_name": "A", "items": (0..n).map(|i| json!({"CodePair": {"code": 90, "value": {"Integer": i}, "offset": 0}})).collect::<Vec<_>>()}]));
        es.push(json!((0..n.min(300)).map(|i| json!({"application_name": format!("A{}", i), "items": [{"CodePair": {"code": 90, "value": {"Integer": i}, "offset": 0}}]})).collect::<Vec<_>>()));
    }
    // deep nesting
    for depth in [10, 50, 100, 200] {
        let mut x = json!({"Str": "deep"});
        let mut e = json!({"CodePair": gen::pair(1, 1)});
        for _ in 0..depth {
            x = json!({"ControlGroup": [x, {"Integer": 1}]});
            e = json!({"Group": {"application_name": "D", "items": [e]}});
        }
        xs.push(json!([{"application_name": "A", "items": [x]}]));
        es.push(json!([{"application_name": "A", "items": [e]}]));
    }
    let line = types_of(Kind::Entity).into_iter().find(|(n, _)| n == "Line").unwrap().1;
    let layer = types_of(Kind::Layer).remove(0).1;
    let dict = types_of(Kind::Object).into_iter().find(|(n, _)| n == "Dictionary").unwrap().1;
    let hosts = [(Kind::Entity, &line), (Kind::Layer, &layer), (Kind::Object, &dict)];
    let vers: Vec<usize> = if c.thorough { (13..21).collect() } else { vec![14, 15, 20] };
    let mut jobs = vec![];
    for (h, _) in hosts.iter().enumerate() {
        for &v in &vers {
            for bin in [false, true] {
                for field in ["x_data", "extension_data_groups"] {
                    let set = if field == "x_data" { &xs } else { &es };
                    for (i, ch) in set.chunks(256).enumerate() {
                        jobs.push((h, v, bin, field, i, ch));
                    }
                }
            }
        }
    }
    let run_batch = |kind: Kind, vals: &[Value], field: &str, ver: usize, bin: bool| -> Result<Vec<usize>, String> {
        guard(|| {
            let mut d = empty_drawing(VERSIONS[ver]);
            for v in vals {
                put(kind, &mut d, v)?;
            }
            let mut before = get(kind, &d);
            let d2 = load(&save(&d, bin)?)?;
            let mut after = get(kind, &d2);
            if before.len() != after.len() {
                return Err(format!("{} items became {}", before.len(), after.len()));
            }
            let has = if field == "x_data" { ver >= 15 } else { ver >= 14 };
            let mut bad = vec![];
            for (i, (a, b)) in before.iter_mut().zip(after.iter_mut()).enumerate() {
                if !has {
                    *slot(a, field).unwrap() = json!([]);
                }
                for x in [&mut *a, &mut *b] {
                    gen::strip(x);
                    if let Some(o) = x.get_mut("common").and_then(|c| c.as_object_mut()) {
                        o.remove("__owner_handle");
                    }
                    if let Some(o) = x.as_object_mut() {
                        o.remove("__owner_handle");
                    }
                }
                let mut out = vec![];
                gen::diff(a, b, if bin { 0.0 } else { 1e-12 }, "", &mut out);
                if !out.is_empty() {
                    bad.push(i);
                }
            }
            Ok(bad)
        })
        .unwrap_or_else(Err)
    };
    c.par(jobs.len(), |n| {
        let (h, v, bin, field, i, ch) = jobs[n];
        let (kind, host) = hosts[h];
        let vals: Vec<Value> = ch
            .iter()
            .enumerate()
            .map(|(k, t)| {
                let mut x = host.clone();
                *slot(&mut x, field).unwrap() = t.clone();
                if let Some(nm) = x.get_mut("name") {
                    *nm = json!(format!("N{}", k));
                }
                x
            })
            .collect();
        let label = format!("{}/{:?}@{:?}/{}#{}", field, kind, VERSIONS[v], enc(bin), i);
        if c.skip(&label) {
            return;
        }
        c.begin(&label);
        c.eval(ch.len() as u64);
        c.distinct_many(ch.iter().map(|t| hash64(t.to_string().as_bytes())));
        let r = run_batch(kind, &vals, field, v, bin);
        if matches!(&r, Ok(b) if b.is_empty()) {
            c.end();
            return;
        }
        for (x, t) in vals.iter().zip(ch) {
            let r1 = run_batch(kind, std::slice::from_ref(x), field, v, bin);
            if !matches!(&r1, Ok(b) if b.is_empty()) {
                c.fail(&format!("{}/{:?}@{:?}/{} {}", field, kind, VERSIONS[v], enc(bin), t), &format!("{:?}", r1), || json!({"item": x}));
                if c.failing() {
                    return;
                }
            }
        }
        if !c.failing() {
            c.fail(&label, &format!("together: {:?}", r), || json!({"items": vals}));
        }
        c.end();
    });
    // ---- on every item type: small trees, xdata and groups together, default and full items
    let its = corpus::items(&corpus::ALL_KINDS);
    let gates = corpus::gates(&its);
    let mut small: Vec<(Value, Value)> = vec![];
    let x1 = json!([{"application_name": "A", "items": x_forests(1, 13).concat()}]);
    let e1 = json!([{"application_name": "A", "items": e_forests(1, 10).concat()}]);
    let x2 = json!([{"application_name": "A", "items": []}, {"application_name": "B", "items": [{"ControlGroup": [{"ControlGroup": [{"Integer": 5}]}, {"Str": "x"}]}]}]);
    let e2 = json!([{"application_name": "A", "items": [{"Group": {"application_name": "S", "items": [e_leaf(0, 1)]}}, e_leaf(1, 2)]}, {"application_name": "B", "items": [e_leaf(2, 3)]}]);
    for x in [json!([]), x1, x2] {
        for e in [json!([]), e1.clone(), e2.clone()] {
            if x != json!([]) || e != json!([]) {
                small.push((x.clone(), e.clone()));
            }
        }
    }
    if c.thorough {
        for l in 0..13 {
            small.push((json!([{"application_name": "A", "items": [leaf(l, 3)]}]), json!([])));
        }
        for l in 0..10 {
            small.push((json!([]), json!([{"application_name": "A", "items": [e_leaf(l, 3)]}])));
        }
    }
    let tvers: Vec<usize> = (12..21).collect();
    c.par(its.len(), |n| {
        let it = &its[n];
        let mut probe = it.default.clone();
        if it.kind == Kind::Class || it.name.contains('.') || slot(&mut probe, "x_data").is_none() || slot(&mut probe, "extension_data_groups").is_none() {
            return;
        }
        for &v in &tvers {
            if gates[&it.name] >> (2 * v) & 1 != 0 {
                continue;
            }
            for bin in [false, true] {
                for full in [false, true] {
                    for (q, (x, e)) in small.iter().enumerate() {
                        let mut val = if full { it.full.clone() } else { it.default.clone() };
                        *slot(&mut val, "x_data").unwrap() = x.clone();
                        *slot(&mut val, "extension_data_groups").unwrap() = e.clone();
                        let key = format!("{}{}#{}@{:?}/{}", it.name, if full { "+" } else { "" }, q, VERSIONS[v], enc(bin));
                        if c.skip(&key) {
                            continue;
                        }
                        c.begin(&key);
                        c.eval(1);
                        c.distinct(format!("{}{}{}", it.name, full, q).as_bytes());
                        let r = guard(|| -> Result<(), String> {
                            // two of them, so that data ending up on a neighbour is seen, and one without
                            let mut d = empty_drawing(VERSIONS[v]);
                            let mut v2 = val.clone();
                            for s in ["x_data", "extension_data_groups"] {
                                *slot(&mut v2, s).unwrap() = json!([]);
                            }
                            for (k, w) in [&val, &v2, &val].iter().enumerate() {
                                let mut w = (*w).clone();
                                if let Some(nm) = w.get_mut("name") {
                                    *nm = json!(format!("N{}", k));
                                }
                                put(it.kind, &mut d, &w)?;
                            }
                            let d = load(&save(&d, bin)?)?;
                            let mut g = get(it.kind, &d);
                            if g.len() != 3 {
                                return Err(format!("3 items became {}", g.len()));
                            }
                            for (k, y) in g.iter_mut().enumerate() {
                                for (f, want, from) in [("x_data", x, 15), ("extension_data_groups", e, 14)] {
                                    let want = if v >= from && k != 1 { want.clone() } else { json!([]) };
                                    let mut out = vec![];
                                    let mut got = slot(y, f).unwrap().clone();
                                    let mut want = want;
                                    gen::strip(&mut got);
                                    gen::strip(&mut want);
                                    gen::diff(&want, &got, if bin { 0.0 } else { 1e-12 }, f, &mut out);
                                    if !out.is_empty() {
                                        return Err(format!("item {}: {}", k, out.join("; ")));
                                    }
                                }
                            }
                            Ok(())
                        });
                        match r {
                            Ok(Ok(())) => (),
                            z => c.fail(&key, &format!("{:?}", z), || json!({"item": val})),
                        }
                    }
                }
            }
        }
        c.end();
    });
    c.extra("xdata_trees", json!(xs.len()));
    c.extra("group_trees", json!(es.len()));
    c.finish(
        "exploration",
        "every extended-data forest and extension-group forest up to the depth over all item kinds, on an entity, a table entry and an object; a covering set on every item type, default and full, between neighbours; x version x encoding; distinct by tree or item",
        &["extended data from R2000 and extension groups from R14 on; a group without contents is not written"],
        true,
    )
}
