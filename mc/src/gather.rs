//! C21: all sequences of entity tokens against a reference gatherer.
use crate::core::*;
use crate::util::*;
use crate::wire::{encode, encode_text, s, G};
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::*;
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;

const TOKENS: [char; 9] = ['P', 'V', 'I', 'J', 'A', 'D', 'M', 'S', 'L'];

/// What a reader should make of the sequence, and what is found in a drawing.
#[derive(Clone, PartialEq, Debug)]
enum N {
    Poly(usize, Vec<usize>),
    Ins(usize, Vec<(usize, Option<usize>)>),
    Attr(usize, Option<usize>),
    Def(usize, Option<usize>),
    Text(usize),
    Vert(usize),
    End,
    Line(usize),
    Other,
}
fn reference(t: &[char]) -> Vec<N> {
    let mut out = vec![];
    let mut i = 0;
    let join = |i: &mut usize| {
        if t.get(*i) == Some(&'M') {
            *i += 1;
            Some(*i - 1)
        } else {
            None
        }
    };
    while i < t.len() {
        let at = i;
        i += 1;
        out.push(match t[at] {
            'P' => {
                let from = i;
                while t.get(i) == Some(&'V') {
                    i += 1;
                }
                let l = (from..i).collect();
                if t.get(i) == Some(&'S') {
                    i += 1;
                }
                N::Poly(at, l)
            }
            'I' => {
                let mut l = vec![];
                while t.get(i) == Some(&'A') {
                    let a = i;
                    i += 1;
                    l.push((a, join(&mut i)));
                }
                if t.get(i) == Some(&'S') {
                    i += 1;
                }
                N::Ins(at, l)
            }
            'J' => N::Ins(at, vec![]),
            'A' => N::Attr(at, join(&mut i)),
            'D' => N::Def(at, join(&mut i)),
            'M' => N::Text(at),
            'V' => N::Vert(at),
            'S' => N::End,
            _ => N::Line(at),
        });
    }
    out
}
fn groups(t: &[char], handles: bool, g: &mut Vec<G>) {
    for (i, c) in t.iter().enumerate() {
        let name = match c {
            'P' => "POLYLINE",
            'V' => "VERTEX",
            'I' | 'J' => "INSERT",
            'A' => "ATTRIB",
            'D' => "ATTDEF",
            'M' => "MTEXT",
            'S' => "SEQEND",
            _ => "LINE",
        };
        g.push(s(0, name));
        if handles {
            g.push(s(5, &format!("{:X}", 0x100 + i)));
        }
        g.push(s(8, &format!("layer{}", i)));
        match c {
            'P' => g.extend([s(66, "1"), s(39, &format!("{}.5", i))]),
            'V' => g.push(s(10, &format!("{}.5", i))),
            'I' => g.extend([s(66, "1"), s(2, &format!("{}", i))]),
            'J' => g.push(s(2, &format!("{}", i))),
            'A' | 'D' => g.extend([s(1, &format!("{}", i)), s(2, "tag")]),
            'M' => g.push(s(1, &format!("{}", i))),
            'L' => g.push(s(39, &format!("{}.5", i))),
            _ => (),
        }
    }
}
fn num(t: &str) -> usize {
    t.parse().unwrap_or(usize::MAX)
}
fn half(f: f64) -> usize {
    if f.fract() == 0.5 {
        f as usize
    } else {
        usize::MAX
    }
}
fn found(es: &[Entity]) -> Vec<N> {
    let mt = |m: &MText| if m.text.is_empty() { None } else { Some(num(&m.text)) };
    es.iter()
        .map(|e| match &e.specific {
            EntityType::Polyline(p) => N::Poly(half(p.thickness), p.vertices().map(|v| half(v.location.x)).collect()),
            EntityType::Insert(i) => N::Ins(num(&i.name), i.attributes().map(|a| (num(&a.value), mt(&a.m_text))).collect()),
            EntityType::Attribute(a) => N::Attr(num(&a.value), mt(&a.m_text)),
            EntityType::AttributeDefinition(a) => N::Def(num(&a.value), mt(&a.m_text)),
            EntityType::MText(m) => N::Text(num(&m.text)),
            EntityType::Vertex(v) => N::Vert(half(v.location.x)),
            EntityType::Seqend(_) => N::End,
            EntityType::Line(l) => N::Line(half(l.thickness)),
            _ => N::Other,
        })
        .collect()
}
/// Handles and layers of the entities themselves, and handles of their children, where the file gives them.
fn identities(es: &[Entity], want: &[N], handles: bool) -> Result<(), String> {
    let h = |i: usize| Handle(0x100 + i as u64);
    for (e, n) in es.iter().zip(want) {
        let at = match n {
            N::Poly(i, _) | N::Ins(i, _) | N::Attr(i, _) | N::Def(i, _) | N::Text(i) | N::Vert(i) | N::Line(i) => *i,
            _ => continue,
        };
        if e.common.layer != format!("layer{}", at) {
            return Err(format!("entity {} is on {:?}", at, e.common.layer));
        }
        if handles {
            if e.common.handle != h(at) {
                return Err(format!("entity {} has handle {:?}", at, e.common.handle));
            }
            let v = serde_json::to_value(e).unwrap();
            let kids: Vec<usize> = match n {
                N::Poly(_, l) => l.clone(),
                N::Ins(_, l) => l.iter().map(|x| x.0).collect(),
                _ => vec![],
            };
            for f in ["/specific/Polyline/__vertices_and_handles", "/specific/Insert/__attributes_and_handles"] {
                if let Some(a) = v.pointer(f).and_then(|x| x.as_array()) {
                    for (k, p) in kids.iter().zip(a) {
                        if p[1] != json!(h(*k).0) {
                            return Err(format!("child {} has handle {}", k, p[1]));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn case(c: &Ctx, t: &[char], in_block: bool, handles: bool, bin: bool, again: bool) {
    let key = format!("{}{}{}{}", t.iter().collect::<String>(), if in_block { " in a block" } else { "" }, if handles { " with handles" } else { "" }, if bin { " binary" } else { "" });
    if c.skip(&key) {
        return;
    }
    c.transitions.fetch_add(t.len() as u64, SeqCst);
    c.traces.fetch_add(1, SeqCst);
    let mut g = vec![s(0, "SECTION"), s(2, "HEADER"), s(9, "$ACADVER"), s(1, "AC1032"), s(0, "ENDSEC")];
    if in_block {
        g.extend([s(0, "SECTION"), s(2, "BLOCKS"), s(0, "BLOCK"), s(8, "0"), s(2, "B")]);
        groups(t, handles, &mut g);
        g.extend([s(0, "ENDBLK"), s(8, "0"), s(0, "BLOCK"), s(8, "0"), s(2, "C"), s(0, "ENDBLK"), s(0, "ENDSEC")]);
    } else {
        g.extend([s(0, "SECTION"), s(2, "ENTITIES")]);
        groups(t, handles, &mut g);
        g.push(s(0, "ENDSEC"));
    }
    g.push(s(0, "EOF"));
    let want = reference(t);
    let b = if bin {
        // typed values for the binary form
        match crate::wire::decode_text(&encode_text(&g)) {
            Ok(x) => encode(&x, true, true),
            Err(e) => return c.fail(&key, &e, || json!({})),
        }
    } else {
        encode_text(&g)
    };
    let ents = |d: &Drawing| -> Result<Vec<Entity>, String> {
        if in_block {
            let bl: Vec<&Block> = d.blocks().collect();
            if bl.len() != 2 || bl[0].name != "B" || bl[1].name != "C" || !bl[1].entities.is_empty() || d.entities().count() != 0 {
                return Err(format!("blocks {:?}, {} entities outside", bl.iter().map(|b| (&b.name, b.entities.len())).collect::<Vec<_>>(), d.entities().count()));
            }
            Ok(bl[0].entities.clone())
        } else {
            Ok(d.entities().cloned().collect())
        }
    };
    let r = guard(|| -> Result<(), String> {
        let mut d = load(&b)?;
        let es = ents(&d)?;
        let got = found(&es);
        if got != want {
            return Err(format!("expected {:?}, got {:?}", want, got));
        }
        identities(&es, &want, handles)?;
        if again {
            d.header.version = AcadVersion::R2018;
            let d2 = load(&save(&d, bin)?)?;
            let got = found(&ents(&d2)?);
            if got != want {
                return Err(format!("after saving and loading again: expected {:?}, got {:?}", want, got));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) | Err(e) => c.fail(&key, &e, || json!({"file": String::from_utf8_lossy(&b)})),
    }
    c.distinct(format!("{:?}", want).as_bytes());
}
pub fn run(c: &Ctx) -> i32 {
    let n = TOKENS.len();
    let depth = if c.thorough { 6 } else { 5 };
    for len in 0..=depth {
        let total = n.pow(len as u32);
        let chunk = total.min(729);
        c.par(total / chunk, |j| {
            for k in 0..chunk {
                let mut x = j * chunk + k;
                let mut t = vec![];
                for _ in 0..len {
                    t.push(TOKENS[x % n]);
                    x /= n;
                }
                if k % 81 == 0 {
                    c.begin(&t.iter().collect::<String>());
                }
                let deep = len == depth;
                let again = len <= 4 || c.thorough;
                case(c, &t, false, true, false, again && !deep);
                case(c, &t, true, false, false, again && !deep);
                if !deep || c.thorough {
                    case(c, &t, false, false, len <= 3, again && !deep);
                    case(c, &t, true, true, len <= 3, again && !deep);
                }
            }
            c.end();
        });
    }
    c.states.store(c.count_distinct(), SeqCst);
    c.sample(|| json!({"tokens": "P polyline, V vertex, I insert with attributes flag, J insert without, A attribute, D attribute definition, M multi-line text, S end marker, L line", "depth": depth}));
    c.finish(
        "model_checking",
        "every sequence of the nine entity tokens up to the depth, in the entities section and in a block, with and without handles; what is loaded is compared with a reference automaton, entity by entity and child by child; shorter sequences are also saved and loaded again; states are distinct outcomes",
        &[],
        true,
    )
}
