//! C12: loading (and then saving) anything never panics, hangs, overflows the stack or exhausts memory.
use crate::catalog::*;
use crate::core::*;
use crate::corpus::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;

fn limit(n: usize) -> usize {
    (16 << 20) + 1500 * n
}
/// One load (then save) of hostile bytes.
pub fn attempt(c: &Ctx, key: &str, b: &[u8]) {
    if c.skip(key) {
        return;
    }
    c.begin(key);
    c.eval(1);
    let (r, _) = with_alloc_limit(limit(b.len()), || guard(|| load(b)));
    match r {
        Err(p) => c.fail(key, &p, || json!({"bytes": show(b)})),
        Ok(Err(_)) => (),
        Ok(Ok(mut d)) => {
            c.distinct(b);
            for bin in [false, true] {
                let (r, _) = with_alloc_limit(limit(b.len()), || guard(|| save(&d, bin).map(|_| ())));
                if let Err(p) = r {
                    c.fail(key, &format!("saving what was loaded: {}", p), || json!({"bytes": show(b)}));
                }
            }
            if let Err(p) = guard(|| {
                d.normalize();
                let mut x = vec![];
                let _ = d.save_dxb(&mut x);
            }) {
                c.fail(key, &format!("normalizing or saving as DXB what was loaded: {}", p), || json!({"bytes": show(b)}));
            }
        }
    }
}
pub fn show(b: &[u8]) -> String {
    if b.len() > 200_000 {
        return format!("{} bytes", b.len());
    }
    match std::str::from_utf8(b) {
        Ok(t) if !t.contains('\0') => t.to_string(),
        _ => b.iter().map(|x| format!("{:02x}", x)).collect(),
    }
}
const HOSTILE: [&str; 26] = [
    "", " ", "abc", "-1", "0", "1", "2", "7", "255", "256", "-32768", "32767", "65536", "2147483647", "-2147483648", "9223372036854775807",
    "99999999999999999999", "1e308", "-1e308", "nan", "inf", "0.5", "\u{e9}", "^", "\\U+D83D", "FFFFFFFFFFFFFFFFFF",
];
const NAMES: [&str; 27] = [
    "ENDSEC", "EOF", "SECTION", "TABLE", "ENDTAB", "BLOCK", "ENDBLK", "SEQEND", "VERTEX", "ATTRIB", "ATTDEF", "MTEXT", "POLYLINE", "INSERT", "LINE",
    "DIMENSION", "DICTIONARY", "XRECORD", "TABLESTYLE", "SECTIONSETTINGS", "DATATABLE", "LAYER", "VPORT", "CLASS", "}", "{X", "{",
];
const CODES: [i32; 33] = [
    0, 1, 2, 3, 5, 6, 9, 10, 11, 20, 30, 39, 40, 48, 62, 66, 70, 71, 75, 90, 100, 102, 105, 160, 210, 290, 310, 330, 999, 1001, 1002, 1004, 1071,
];
fn inserts() -> Vec<G> {
    let mut v = vec![];
    for n in NAMES {
        v.push(s(0, n));
    }
    for t in ["{X", "}", "x"] {
        v.push(s(102, t));
    }
    for t in ["{", "}", "x"] {
        v.push(s(1002, t));
    }
    v.push(s(1001, "A"));
    v.push(s(1000, "A"));
    v.push(s(1004, "0G"));
    v.push(s(100, "AcDbX"));
    v.push(s(2, "X"));
    v.push(s(3, "X"));
    v.push(s(5, "0"));
    v.push(s(5, "FFFFFFFFFFFFFFFF"));
    v.push(s(330, "zz"));
    for c in [70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 66, 62, 170, 270, 280] {
        v.push(g(c, V::I16(32767)));
        v.push(g(c, V::I16(-32768)));
    }
    for c in [90, 91, 92, 93, 94, 95, 96, 97, 98, 99] {
        v.push(g(c, V::I32(2147483647)));
        v.push(g(c, V::I32(-2147483648)));
    }
    for c in [10, 20, 30, 11, 40, 41, 42, 50, 210] {
        v.push(g(c, V::F64(f64::NAN)));
        v.push(g(c, V::F64(1e308)));
    }
    v.push(g(310, V::Bin(vec![])));
    v.push(g(310, V::Bin(vec![0xFF; 127])));
    v
}
pub struct Base {
    pub key: String,
    pub gs: Vec<G>,
    pub ver: usize,
}
/// Small files covering every item type. `depth` 0: the fullest form in the newest version; 1: also defaults and the oldest version.
pub fn bases(depth: usize) -> Vec<Base> {
    let its = items(&ALL_KINDS);
    let gt = gates(&its);
    let mut out = vec![];
    for it in &its {
        let hs = home(it, &gt);
        for (k, &ver) in hs.iter().rev().enumerate() {
            if depth == 0 && k > 0 {
                continue;
            }
            for full in [true, false] {
                if !full && depth == 0 {
                    continue;
                }
                let v = if full { &it.full } else { &it.default };
                if let Ok(gs) = guard(|| small_file(it.kind, v, ver)) {
                    out.push(Base { key: format!("{}{}@{:?}", it.name, if full { "+" } else { "" }, VERSIONS[ver]), gs, ver });
                }
            }
        }
    }
    out.push(Base { key: "structured".into(), gs: structured(15), ver: 15 });
    out.push(Base { key: "thumbnail".into(), gs: thumb(15), ver: 15 });
    out.push(Base { key: "header".into(), gs: header_file(20), ver: 20 });
    out
}
/// Polyline with vertices, insert with attributes, block with contents, extended data, extension groups.
pub fn structured(ver: usize) -> Vec<G> {
    use dxf::entities::*;
    use dxf::*;
    let mut d = empty_drawing(VERSIONS[ver]);
    let mk = |d: &mut Drawing| {
        let mut p = Polyline::default();
        p.add_vertex(d, Vertex::new(Point::new(1.0, 2.0, 0.0)));
        p.add_vertex(d, Vertex::new(Point::new(3.0, 4.0, 0.0)));
        let mut i = Insert { name: "B".into(), ..Default::default() };
        i.add_attribute(d, Attribute { attribute_tag: "T".into(), ..Default::default() });
        (Entity::new(EntityType::Polyline(p)), Entity::new(EntityType::Insert(i)))
    };
    let (p, i) = mk(&mut d);
    let mut l = Entity::new(EntityType::Line(Default::default()));
    let mut lv = serde_json::to_value(&l).unwrap();
    lv["common"]["x_data"] = crate::gen::x_data_samples()[1].1.clone();
    lv["common"]["extension_data_groups"] = crate::gen::extension_samples()[1].1.clone();
    l = serde_json::from_value(lv).unwrap();
    let b = Block { name: "B".into(), entities: vec![p.clone(), l.clone(), i.clone()], ..Default::default() };
    d.add_block(b);
    d.add_entity(p);
    d.add_entity(l);
    d.add_entity(i);
    trim_empty(&trim_header(&decode_text(&save(&d, false).unwrap()).unwrap()))
}
pub fn thumb(ver: usize) -> Vec<G> {
    let mut d = empty_drawing(VERSIONS[ver]);
    d.thumbnail = Some(image::DynamicImage::ImageRgb8(image::RgbImage::from_fn(3, 2, |x, y| image::Rgb([x as u8 * 60, y as u8 * 60, 7]))));
    trim_empty(&trim_header(&decode_text(&save(&d, false).unwrap()).unwrap()))
}
pub fn header_file(ver: usize) -> Vec<G> {
    let d = empty_drawing(VERSIONS[ver]);
    trim_empty(&decode_text(&save(&d, false).unwrap()).unwrap())
}
pub fn dxb_file() -> Vec<u8> {
    use dxf::entities::*;
    use dxf::*;
    let mut d = empty_drawing(VERSIONS[12]);
    let mut a = Entity::new(EntityType::Line(Line::new(Point::new(1.0, 2.0, 0.0), Point::new(3.0, 4.0, 0.0))));
    a.common.layer = "L".into();
    a.common.color = Color::from_index(3);
    d.add_entity(a);
    d.add_entity(Entity::new(EntityType::Circle(Circle::new(Point::new(1.0, 2.0, 0.0), 3.0))));
    d.add_entity(Entity::new(EntityType::Arc(Default::default())));
    d.add_entity(Entity::new(EntityType::Trace(Default::default())));
    let mut p = Polyline::default();
    p.add_vertex(&mut d, Vertex::new(Point::new(1.0, 2.0, 0.0)));
    p.add_vertex(&mut d, Vertex::new(Point::new(1.0, 2.0, 0.0)));
    d.add_entity(Entity::new(EntityType::Polyline(p)));
    let mut out = vec![];
    d.save_dxb(&mut out).unwrap();
    out
}
pub fn run(c: &Ctx) -> i32 {
    let bs = bases(c.thorough as usize);
    let ins = inserts();
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (i, b) in bs.iter().enumerate() {
        for k in 0..b.gs.len() {
            jobs.push((i, k));
        }
    }
    let encs: &[bool] = &[false, true];
    c.par(jobs.len(), |n| {
        let (bi, k) = jobs[n];
        let base = &bs[bi];
        let w = wide(base.ver);
        let gs = &base.gs;
        for &bin in encs {
            let go = |tag: String, m: &[G]| attempt(c, &format!("{}#{}/{}/{}", base.key, k, tag, enc(bin)), &encode(m, bin, w));
            let mut m = gs.clone();
            m.remove(k);
            go("delete".into(), &m);
            let mut m = gs.clone();
            m.insert(k, gs[k].clone());
            go("duplicate".into(), &m);
            if k + 1 < gs.len() {
                let mut m = gs.clone();
                m.swap(k, k + 1);
                go("swap".into(), &m);
            }
            go("cut".into(), &gs[..k]);
            let mut m = gs[..k].to_vec();
            m.push(s(0, "EOF"));
            go("cut+EOF".into(), &m);
            for x in &ins {
                let mut m = gs.clone();
                m.insert(k, x.clone());
                go(format!("insert {}/{}", x.code, &x.text().chars().take(12).collect::<String>()), &m);
            }
            for code in CODES {
                let mut m = gs.clone();
                m[k].code = code;
                if bin {
                    // keep the value bytes meaningful for the new code
                    m[k].v = match type_of(code).unwrap() {
                        T::Str => V::Str(b"1".to_vec()),
                        T::I16 => V::I16(1),
                        T::I32 => V::I32(1),
                        T::I64 => V::I64(1),
                        T::F64 => V::F64(1.0),
                        T::Bool => V::Bool(1),
                        T::Bin => V::Bin(vec![1]),
                    };
                }
                go(format!("code {}", code), &m);
            }
            let strs: Vec<&str> = HOSTILE.iter().chain(NAMES.iter()).copied().collect();
            if !bin || matches!(gs[k].v, V::Str(_)) {
                let nums = !matches!(gs[k].v, V::Str(_));
                for t in strs {
                    if nums && NAMES.contains(&t) {
                        continue;
                    }
                    let mut m = gs.clone();
                    m[k].v = V::Str(t.as_bytes().to_vec());
                    go(format!("value {}", t), &m);
                }
            } else {
                let vals: Vec<V> = match gs[k].v {
                    V::I16(_) => [i16::MIN, -1, 0, 1, 2, 7, 255, i16::MAX].iter().map(|x| V::I16(*x)).collect(),
                    V::I32(_) => [i32::MIN, -1, 0, 1, 7, 1 << 20, i32::MAX].iter().map(|x| V::I32(*x)).collect(),
                    V::I64(_) => [i64::MIN, -1, 0, 1, i64::MAX].iter().map(|x| V::I64(*x)).collect(),
                    V::F64(_) => [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308, 5e-324, 0.0, -1.0, 1e10].iter().map(|x| V::F64(*x)).collect(),
                    V::Bool(_) => [0, 1, 255].iter().map(|x| V::Bool(*x)).collect(),
                    V::Bin(_) => vec![V::Bin(vec![]), V::Bin(vec![0; 255]), V::Bin(vec![0xFF; 40])],
                    V::Str(_) => vec![],
                };
                for (q, x) in vals.into_iter().enumerate() {
                    let mut m = gs.clone();
                    m[k].v = x;
                    go(format!("value #{}", q), &m);
                }
            }
        }
        c.end();
    });
    // every pair of group-level mutations of the structured file (thorough)
    if c.thorough {
        let gs = structured(15);
        let n = gs.len();
        c.par(n * n, |q| {
            let (a, b) = (q / n, q % n);
            if a >= b {
                return;
            }
            for bin in [false, true] {
                let mut m = gs.clone();
                m.remove(b);
                m.remove(a);
                attempt(c, &format!("structured#del{},{}/{}", a, b, enc(bin)), &encode(&m, bin, true));
                for x in [s(0, "SEQEND"), s(0, "MTEXT"), s(102, "}"), s(1002, "{"), s(0, "ENDBLK")] {
                    let mut m = gs.clone();
                    m[a] = x.clone();
                    m.remove(b);
                    attempt(c, &format!("structured#set{} {}/{},del{}/{}", a, x.code, x.text(), b, enc(bin)), &encode(&m, bin, true));
                }
            }
            c.end();
        });
    }
    // bytes: each byte value at each byte of small files, and each byte removed / doubled
    let hdr_txt = encode_text(&trim_header(&header_file(15)));
    let small_txt = encode_text(&small_file(Kind::Entity, &types_of(Kind::Entity)[20].1, 15));
    let small_bin = encode_binary(&small_file(Kind::Entity, &types_of(Kind::Entity)[20].1, 15), true);
    let small_old = encode_binary(&small_file(Kind::Entity, &types_of(Kind::Entity)[20].1, 12), false);
    let th = encode_binary(&thumb(15), true);
    let pl = encode_binary(&structured(12), false);
    let files: Vec<(&str, Vec<u8>)> = vec![
        ("header-text", hdr_txt),
        ("line-text", small_txt),
        ("line-binary", small_bin),
        ("line-binary-R12", small_old),
        ("thumbnail-binary", th),
        ("structured-binary-R12", pl),
        ("dxb", dxb_file()),
    ];
    let mut jobs = vec![];
    for (i, f) in files.iter().enumerate() {
        for k in 0..f.1.len() {
            jobs.push((i, k));
        }
    }
    c.par(jobs.len(), |n| {
        let (i, k) = jobs[n];
        let (name, f) = &files[i];
        for x in 0..=255u8 {
            if x != f[k] {
                let mut m = f.clone();
                m[k] = x;
                attempt(c, &format!("{}@{}={:02x}", name, k, x), &m);
            }
        }
        let mut m = f.clone();
        m.remove(k);
        attempt(c, &format!("{}@{} removed", name, k), &m);
        let mut m = f.clone();
        m.insert(k, f[k]);
        attempt(c, &format!("{}@{} doubled", name, k), &m);
        attempt(c, &format!("{}@{} cut", name, k), &f[..k]);
        // four byte windows overwritten (sizes and dimensions)
        if k + 4 <= f.len() {
            for v in [0u32, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x0001_0000, 0xFFFF] {
                let mut m = f.clone();
                m[k..k + 4].copy_from_slice(&v.to_le_bytes());
                attempt(c, &format!("{}@{}={:08x}", name, k, v), &m);
            }
        }
        c.end();
    });
    // all short byte strings, bare and behind each file signature
    let heads: [&[u8]; 4] = [b"", SENTINEL, b"AutoCAD DXB 1.0\r\n\x1a\0", b"\xEF\xBB\xBF"];
    c.par(65536 * heads.len(), |n| {
        let h = heads[n / 65536];
        let q = n % 65536;
        let (a, b) = ((q >> 8) as u8, q as u8);
        let mut f = h.to_vec();
        f.push(a);
        if b == 0 {
            attempt(c, &format!("bytes{}:{:02x}", n / 65536, a), &f);
        }
        f.push(b);
        attempt(c, &format!("bytes{}:{:02x}{:02x}", n / 65536, a, b), &f);
        if c.thorough {
            for x in 0..=255u8 {
                f.truncate(h.len() + 2);
                f.push(x);
                attempt(c, &format!("bytes{}:{:02x}{:02x}{:02x}", n / 65536, a, b, x), &f);
            }
        }
        c.end();
    });
    // all sequences of structural groups up to a depth
    let alpha: Vec<G> = vec![
        s(0, "SECTION"), s(2, "HEADER"), s(2, "TABLES"), s(2, "BLOCKS"), s(2, "ENTITIES"), s(2, "OBJECTS"), s(2, "CLASSES"), s(2, "THUMBNAILIMAGE"), s(0, "TABLE"), s(2, "LAYER"),
        s(0, "LAYER"), s(0, "ENDTAB"), s(0, "BLOCK"), s(0, "ENDBLK"), s(0, "POLYLINE"), s(0, "SEQEND"), s(9, "$X"), s(0, "ENDSEC"), s(0, "EOF"),
    ];
    let depth = if c.thorough { 5 } else { 4 };
    let n = alpha.len();
    let total: usize = n.pow(depth as u32);
    c.par(total, |q| {
        let mut m = vec![s(0, "SECTION")];
        let mut r = q;
        for _ in 0..depth {
            m.push(alpha[r % n].clone());
            r /= n;
        }
        attempt(c, &format!("seq:{}", q), &encode_text(&m));
        c.end();
    });
    // nesting
    let deep: Vec<usize> = if c.thorough { vec![1, 10, 100, 1000, 10_000, 100_000, 1_000_000] } else { vec![1, 10, 100, 1000, 10_000, 100_000] };
    let opens = [s(1002, "{"), s(102, "{X"), s(0, "POLYLINE"), s(0, "INSERT"), s(0, "BLOCK"), s(0, "SECTION"), s(0, "TABLE"), s(999, "x"), s(1001, "A")];
    c.par(deep.len() * opens.len() * 2, |q| {
        let bin = q % 2 == 1;
        let o = &opens[(q / 2) % opens.len()];
        let dd = deep[q / 2 / opens.len()];
        for (host, closed) in [("LINE", false), ("LINE", true), ("ATTRIB", false)] {
            let mut m = vec![s(0, "SECTION"), s(2, "ENTITIES"), s(0, host), s(1001, "APP")];
            if o.code != 1002 {
                m.pop();
            }
            for _ in 0..dd {
                m.push(o.clone());
            }
            if closed && (o.code == 1002 || o.code == 102) {
                for _ in 0..dd {
                    m.push(s(o.code, "}"));
                }
            }
            m.push(s(0, "ENDSEC"));
            m.push(s(0, "EOF"));
            attempt(c, &format!("deep:{}/{} x{} in {}{}/{}", o.code, o.text(), dd, host, if closed { " closed" } else { "" }, enc(bin)), &encode(&m, bin, true));
        }
        c.end();
    });
    c.extra("base_files", json!(bs.len()));
    c.extra("base_groups", json!(bs.iter().map(|b| b.gs.len()).sum::<usize>()));
    c.finish(
        "exploration",
        "every listed group-level mutation at every group of every base file (text and binary), every byte value at every byte of 7 small files, all byte strings up to the bound bare and behind each signature, all structural group sequences up to the bound, nesting depths; non-trivial if the mutated file still loaded (and was then saved, normalized and written as DXB); distinct by content",
        &["a case counts as a hang after 60 s; memory is bounded by 16 MB + 1500 bytes per input byte"],
        true,
    )
}
