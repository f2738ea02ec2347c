//! C06: text comes back exactly as it was stored.
use crate::catalog::*;
use crate::core::*;
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::json;

struct Carrier {
    name: &'static str,
    /// names cannot be empty
    empty: bool,
    from: usize,
    put: fn(&mut Drawing, &[String]),
    get: fn(&Drawing) -> Vec<String>,
}
fn text_of(e: &Entity) -> Option<String> {
    match &e.specific {
        EntityType::Text(t) => Some(t.value.clone()),
        _ => None,
    }
}
fn mtext_of(e: &Entity) -> Option<String> {
    match &e.specific {
        EntityType::MText(t) => Some(format!("{}{}", t.extended_text.concat(), t.text)),
        _ => None,
    }
}
fn carriers() -> Vec<Carrier> {
    vec![
        Carrier {
            name: "Text.value",
            empty: true,
            from: 0,
            put: |d, ss| {
                for s in ss {
                    d.add_entity(Entity::new(EntityType::Text(Text { value: s.clone(), ..Default::default() })));
                }
            },
            get: |d| d.entities().filter_map(text_of).collect(),
        },
        Carrier {
            name: "MText.text",
            empty: true,
            from: 13,
            put: |d, ss| {
                for s in ss {
                    d.add_entity(Entity::new(EntityType::MText(MText { text: s.clone(), ..Default::default() })));
                }
            },
            get: |d| d.entities().filter_map(mtext_of).collect(),
        },
        Carrier {
            name: "Layer.name",
            empty: false,
            from: 0,
            put: |d, ss| {
                for s in ss {
                    d.add_layer(Layer { name: s.clone(), ..Default::default() });
                }
            },
            get: |d| d.layers().map(|l| l.name.clone()).collect(),
        },
        Carrier {
            name: "header.project_name",
            empty: true,
            from: 15,
            put: |d, ss| d.header.project_name = ss[0].clone(),
            get: |d| vec![d.header.project_name.clone()],
        },
        Carrier {
            name: "block.entity.text",
            empty: true,
            from: 0,
            put: |d, ss| {
                let mut b = Block { name: "B".into(), ..Default::default() };
                for s in ss {
                    b.entities.push(Entity::new(EntityType::Text(Text { value: s.clone(), ..Default::default() })));
                }
                d.add_block(b);
            },
            get: |d| d.blocks().flat_map(|b| b.entities.iter()).filter_map(text_of).collect(),
        },
        Carrier {
            name: "block.name/description",
            empty: false,
            from: 13,
            put: |d, ss| {
                for s in ss {
                    d.add_block(Block { name: s.clone(), description: s.clone(), ..Default::default() });
                }
            },
            get: |d| d.blocks().map(|b| if b.description == b.name { b.name.clone() } else { format!("{} / {}", b.name, b.description) }).collect(),
        },
        Carrier {
            name: "class.application_name",
            empty: true,
            from: 14,
            put: |d, ss| {
                for s in ss {
                    d.classes.push(Class { record_name: "N".into(), application_name: s.clone(), ..Default::default() });
                }
            },
            get: |d| d.classes.iter().map(|c| c.application_name.clone()).collect(),
        },
        Carrier {
            name: "XRecord pair",
            empty: true,
            from: 14,
            put: |d, ss| {
                let data_pairs = ss.iter().map(|s| CodePair::new_str(1, s)).collect();
                d.add_object(Object::new(ObjectType::XRecordObject(XRecordObject { data_pairs, ..Default::default() })));
            },
            get: |d| {
                d.objects()
                    .flat_map(|o| match &o.specific {
                        ObjectType::XRecordObject(x) => x.data_pairs.iter().map(|p| p.assert_string().unwrap_or_default()).collect(),
                        _ => vec![],
                    })
                    .collect()
            },
        },
        Carrier {
            name: "xdata string",
            empty: true,
            from: 15,
            put: |d, ss| {
                let mut e = Entity::new(EntityType::Line(Line::default()));
                e.common.x_data.push(XData { application_name: "A".into(), items: ss.iter().map(|s| XDataItem::Str(s.clone())).collect() });
                d.add_entity(e);
            },
            get: |d| {
                d.entities()
                    .flat_map(|e| e.common.x_data.iter())
                    .flat_map(|x| x.items.iter())
                    .map(|i| match i {
                        XDataItem::Str(s) => s.clone(),
                        x => format!("{:?}", x),
                    })
                    .collect()
            },
        },
        Carrier {
            name: "extension group string",
            empty: true,
            from: 14,
            put: |d, ss| {
                let mut e = Entity::new(EntityType::Line(Line::default()));
                e.common.extension_data_groups.push(ExtensionGroup {
                    application_name: "A".into(),
                    items: ss.iter().map(|s| ExtensionGroupItem::CodePair(CodePair::new_str(1, s))).collect(),
                });
                d.add_entity(e);
            },
            get: |d| {
                d.entities()
                    .flat_map(|e| e.common.extension_data_groups.iter())
                    .flat_map(|x| x.items.iter())
                    .map(|i| match i {
                        ExtensionGroupItem::CodePair(p) => p.assert_string().unwrap_or_default(),
                        x => format!("{:?}", x),
                    })
                    .collect()
            },
        },
    ]
}
fn trip(car: &Carrier, ss: &[String], ver: usize, bin: bool) -> Result<Vec<String>, String> {
    guard(|| {
        let mut d = empty_drawing(VERSIONS[ver]);
        (car.put)(&mut d, ss);
        let d = load(&save(&d, bin)?)?;
        Ok((car.get)(&d))
    })
    .unwrap_or_else(Err)
}
fn esc(s: &str) -> String {
    let e: String = s.escape_default().collect();
    if e.len() > 120 {
        format!("{}..[{} chars, hash {:x}]", &e[..100], s.chars().count(), hash64(s.as_bytes()))
    } else {
        e
    }
}
/// All strings of the batch in one drawing; if anything differs, each on its own.
fn batch(c: &Ctx, car: &Carrier, ss: &[String], ver: usize, bin: bool) {
    let ss: Vec<String> = ss.iter().filter(|s| car.empty || !s.is_empty()).cloned().collect();
    let single = car.name.starts_with("header");
    let step = if single { 1 } else { ss.len().max(1) };
    for ch in ss.chunks(step) {
        let label = format!("{}@{:?}/{} {}..", car.name, VERSIONS[ver], enc(bin), esc(&ch[0]));
        c.begin(&label);
        c.eval(ch.len() as u64);
        c.distinct_many(ch.iter().map(|s| hash64(s.as_bytes())));
        if c.only.is_none() {
            if let Ok(r) = trip(car, ch, ver, bin) {
                if r == ch {
                    continue;
                }
            }
        }
        let mut found = false;
        for s in ch {
            let key = format!("{}@{:?}/{} {}", car.name, VERSIONS[ver], enc(bin), esc(s));
            if c.skip(&key) {
                continue;
            }
            let one = [s.clone()];
            let r = trip(car, &one, ver, bin);
            if r.as_deref() != Ok(&one) {
                found = true;
                c.fail(&key, &format!("{:?} came back as {:?}", s, r), || json!({"text": s, "carrier": car.name, "version": format!("{:?}", VERSIONS[ver]), "encoding": enc(bin)}));
            }
            if c.failing() {
                return;
            }
        }
        if !found && c.only.is_none() {
            let r = trip(car, ch, ver, bin);
            c.fail(&label, "the texts survive alone but not together", || json!({"texts": ch, "got": r.ok()}));
        }
    }
    c.end();
}
/// every sequence of up to n tokens
fn words(tokens: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut next = Vec::with_capacity(last.len() * tokens.len());
        for w in &last {
            for t in tokens {
                next.push(format!("{}{}", w, t));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
pub fn run(c: &Ctx) -> i32 {
    let cars = carriers();
    let vers: Vec<usize> = if c.thorough { (9..21).collect() } else { vec![12, 14, 16, 17, 20] };
    // ---- every code point, alone and between letters
    let top = if c.thorough { 0x110000 } else { 0x10020 };
    let mut points: Vec<u32> = (0..top).collect();
    if !c.thorough {
        for p in 1..=16u32 {
            points.extend(p * 0x10000..p * 0x10000 + 8);
            points.extend(p * 0x10000 + 0xFFF8..p * 0x10000 + 0x10000);
        }
        points.extend(0x1F600..0x1F650);
    }
    let chars: Vec<char> = points.into_iter().filter_map(char::from_u32).collect();
    let strs: Vec<String> = chars.iter().flat_map(|ch| [ch.to_string(), format!("a{}b", ch)]).collect();
    // ---- all token sequences
    let alpha = ["^", " ", "J", "M", "\\", "U", "+", "0", "A", "\u{e9}", "\n", "\r", "\t", "\0", "\u{20ac}", "\u{1f600}", "{", "}", "%", "\u{1b}", "\u{7f}", "I", "@", "\u{1c}", "\u{1e}", "\u{1f}"];
    let toks = ["\\U+", "\\M+1", "\\", "00E9", "D83D", "DE00", "^", " ", "\u{1f600}", "\u{e9}", "x", "\n", "U+", "^^", "^ ", "\\P", "%%c", "\u{1c}", "\u{1e}", "\u{1a}"];
    let chr = words(&alpha, if c.thorough { 4 } else { 3 });
    let tok = words(&toks, if c.thorough { 5 } else { 3 });
    // ---- long texts: lengths around the sizes at which texts are cut in pieces, one odd piece at each place
    let mut long = vec![];
    for n in (0..=8).chain(120..=132).chain(240..=262).chain(490..=520).chain([749, 750, 751, 1000, 2048, 2049, 5000]) {
        long.push("a".repeat(n));
        for odd in ["\u{e9}", "\u{1f600}", "^", "\\", "\n", " ", "\\U+00E9"] {
            long.push(odd.repeat(n));
            if n > 100 {
                for at in (n.saturating_sub(16)..=n).chain(240..=256).chain([0, 1, 127, 128]) {
                    if at <= n {
                        long.push(format!("{}{}{}", "a".repeat(at), odd, "a".repeat(n - at)));
                    }
                }
            }
        }
    }
    long.sort();
    long.dedup();
    let mut jobs: Vec<(usize, &[String], usize, bool)> = vec![];
    for (i, car) in cars.iter().enumerate() {
        for &v in &vers {
            if v < car.from {
                continue;
            }
            for bin in [false, true] {
                let hdr = car.name.starts_with("header");
                let main = car.name == "XRecord pair" || car.name == "Text.value" || c.thorough;
                let sets: Vec<&[String]> = if hdr {
                    vec![&strs[..if c.thorough { 0x4000 } else { 0x200 }], &chr[..if c.thorough { 12720 } else { 703 }], &tok[..421]]
                } else if main {
                    vec![&strs, &chr, &tok, &long]
                } else {
                    vec![&strs[..0x1000], &chr, &tok[..421], &long]
                };
                for s in sets {
                    for ch in s.chunks(if car.name.contains("Text") || car.name.contains("text") { 500 } else { 2000 }) {
                        jobs.push((i, ch, v, bin));
                    }
                }
            }
        }
    }
    c.par(jobs.len(), |n| {
        let (i, ss, v, bin) = jobs[n];
        batch(c, &cars[i], ss, v, bin);
        if n % 5003 == 0 {
            c.sample(|| json!({"carrier": cars[i].name, "first": ss[0], "version": format!("{:?}", VERSIONS[v])}));
        }
    });
    c.extra("carriers", json!(cars.iter().map(|c| c.name).collect::<Vec<_>>()));
    c.extra("code_points", json!(chars.len()));
    c.extra("token_sequences", json!(chr.len() + tok.len()));
    c.extra("long_texts", json!(long.len()));
    c.finish(
        "exploration",
        "every code point of the range alone and between letters, every sequence of hostile characters and of escape-like tokens up to the depth, long texts around piece sizes; in each carrier x version x encoding; distinct by text",
        &["text files before R2007 are loaded with the default encoding"],
        true,
    )
}
