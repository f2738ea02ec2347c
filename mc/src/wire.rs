//! An independent decoder and encoder of DXF group streams (written from the DXF reference, not from the code under test).
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Str(Vec<u8>),
    I16(i16),
    I32(i32),
    I64(i64),
    F64(f64),
    Bool(u8),
    Bin(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct G {
    pub code: i32,
    pub v: V,
    /// text: index of the code line (0-based); binary: byte offset of the code
    pub at: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Str,
    I16,
    I32,
    I64,
    F64,
    Bool,
    Bin,
}
pub fn type_of(code: i32) -> Option<T> {
    Some(match code {
        0..=9 | 100..=102 | 105 | 300..=309 | 320..=369 | 390..=399 | 410..=419 | 430..=439 | 470..=481 | 999..=1003 | 1005..=1009 => T::Str,
        1004 => T::Str, // binary data of extended entity data; hexadecimal text in text files
        10..=59 | 110..=149 | 210..=239 | 460..=469 | 1010..=1059 => T::F64,
        60..=79 | 170..=179 | 270..=289 | 370..=389 | 400..=409 | 1060..=1070 => T::I16,
        90..=99 | 420..=429 | 440..=459 | 1071 => T::I32,
        160..=169 => T::I64,
        290..=299 => T::Bool,
        310..=319 => T::Bin,
        _ => return None,
    })
}
pub fn s(code: i32, t: &str) -> G {
    G { code, v: V::Str(t.as_bytes().to_vec()), at: 0 }
}
pub fn g(code: i32, v: V) -> G {
    G { code, v, at: 0 }
}
impl G {
    pub fn is(&self, code: i32, t: &str) -> bool {
        self.code == code && matches!(&self.v, V::Str(x) if x == t.as_bytes())
    }
    pub fn text(&self) -> String {
        match &self.v {
            V::Str(x) => String::from_utf8_lossy(x).into_owned(),
            V::I16(x) => x.to_string(),
            V::I32(x) => x.to_string(),
            V::I64(x) => x.to_string(),
            V::F64(x) => fmt_f(*x),
            V::Bool(x) => x.to_string(),
            V::Bin(x) => x.iter().map(|b| format!("{:02X}", b)).collect(),
        }
    }
}
fn fmt_f(x: f64) -> String {
    if x == x.trunc() && x.abs() < 1e15 {
        format!("{:.1}", x)
    } else {
        format!("{:.12}", x)
    }
}
/// The lines of a text file (line ends removed) with the byte offset of each.
pub fn lines(b: &[u8]) -> Result<Vec<(usize, Vec<u8>)>, String> {
    let mut out = vec![];
    let mut at = 0;
    while at < b.len() {
        let n = b[at..].iter().position(|c| *c == b'\n').ok_or("last line is not ended")?;
        let mut l = &b[at..at + n];
        if l.last() == Some(&b'\r') {
            l = &l[..l.len() - 1];
        }
        out.push((at, l.to_vec()));
        at += n + 1;
    }
    Ok(out)
}
pub fn decode_text(b: &[u8]) -> Result<Vec<G>, String> {
    let ls = lines(b)?;
    if ls.len() % 2 != 0 {
        return Err("odd number of lines".into());
    }
    let mut out = vec![];
    for (i, p) in ls.chunks(2).enumerate() {
        let c = std::str::from_utf8(&p[0].1).map_err(|e| e.to_string())?;
        let code: i32 = c.trim_start_matches(' ').parse().map_err(|_| format!("line {}: bad group code {:?}", 2 * i, c))?;
        let t = type_of(code).ok_or(format!("line {}: undefined group code {}", 2 * i, code))?;
        let raw = &p[1].1;
        let txt = || String::from_utf8_lossy(raw).trim_start_matches(' ').to_string();
        let bad = |e: String| format!("line {}: group {} has bad value {:?}: {}", 2 * i + 1, code, txt(), e);
        let v = match t {
            T::Str => V::Str(raw.clone()),
            T::I16 => V::I16(txt().parse().map_err(|e: std::num::ParseIntError| bad(e.to_string()))?),
            T::I32 => V::I32(txt().parse().map_err(|e: std::num::ParseIntError| bad(e.to_string()))?),
            T::I64 => V::I64(txt().parse().map_err(|e: std::num::ParseIntError| bad(e.to_string()))?),
            T::F64 => {
                let t = txt();
                if !t.contains('.') && !t.contains('E') && !t.contains('e') && !t.chars().all(|c| c.is_ascii_digit() || c == '-') {
                    return Err(bad("not a number".into()));
                }
                V::F64(t.parse().map_err(|e: std::num::ParseFloatError| bad(e.to_string()))?)
            }
            T::Bool => V::Bool(txt().parse::<i16>().map_err(|e| bad(e.to_string()))? as u8),
            T::Bin => {
                let t = txt();
                if t.len() % 2 != 0 {
                    return Err(bad("odd number of hexadecimal digits".into()));
                }
                let mut o = vec![];
                for q in t.as_bytes().chunks(2) {
                    o.push(u8::from_str_radix(std::str::from_utf8(q).unwrap_or("?"), 16).map_err(|e| bad(e.to_string()))?);
                }
                V::Bin(o)
            }
        };
        out.push(G { code, v, at: 2 * i });
    }
    Ok(out)
}
pub const SENTINEL: &[u8] = b"AutoCAD Binary DXF\r\n\x1a\0";
/// `wide`: two byte codes and one byte booleans (R13 and later).
pub fn decode_binary(b: &[u8], wide: bool) -> Result<Vec<G>, String> {
    if !b.starts_with(SENTINEL) {
        return Err("no binary sentinel".into());
    }
    let mut p = SENTINEL.len();
    let mut out = vec![];
    fn take<'a>(b: &'a [u8], p: &mut usize, n: usize) -> Result<&'a [u8], String> {
        if *p + n > b.len() {
            return Err(format!("file ends inside a group at {}", *p));
        }
        *p += n;
        Ok(&b[*p - n..*p])
    }
    while p < b.len() {
        let at = p;
        let code = if wide {
            i16::from_le_bytes(take(b, &mut p, 2)?.try_into().unwrap()) as i32
        } else {
            match take(b, &mut p, 1)?[0] {
                255 => i16::from_le_bytes(take(b, &mut p, 2)?.try_into().unwrap()) as i32,
                c => c as i32,
            }
        };
        let t = type_of(code).ok_or(format!("byte {}: undefined group code {}", at, code))?;
        let v = match t {
            T::Str => {
                let n = b[p..].iter().position(|c| *c == 0).ok_or(format!("byte {}: unterminated text", p))?;
                V::Str(take(b, &mut p, n + 1)?[..n].to_vec())
            }
            T::I16 => V::I16(i16::from_le_bytes(take(b, &mut p, 2)?.try_into().unwrap())),
            T::I32 => V::I32(i32::from_le_bytes(take(b, &mut p, 4)?.try_into().unwrap())),
            T::I64 => V::I64(i64::from_le_bytes(take(b, &mut p, 8)?.try_into().unwrap())),
            T::F64 => V::F64(f64::from_le_bytes(take(b, &mut p, 8)?.try_into().unwrap())),
            T::Bool => V::Bool(if wide { take(b, &mut p, 1)?[0] } else { i16::from_le_bytes(take(b, &mut p, 2)?.try_into().unwrap()) as u8 }),
            T::Bin => {
                let n = take(b, &mut p, 1)?[0] as usize;
                V::Bin(take(b, &mut p, n)?.to_vec())
            }
        };
        out.push(G { code, v, at });
    }
    Ok(out)
}
pub fn encode_text(gs: &[G]) -> Vec<u8> {
    let mut out = vec![];
    for x in gs {
        out.extend_from_slice(format!("{:>3}\r\n", x.code).as_bytes());
        match &x.v {
            V::Str(t) => out.extend_from_slice(t),
            _ => out.extend_from_slice(x.text().as_bytes()),
        }
        out.extend_from_slice(b"\r\n");
    }
    out
}
pub fn encode_binary_group(x: &G, wide: bool, out: &mut Vec<u8>) {
    if wide {
        out.extend_from_slice(&(x.code as i16).to_le_bytes());
    } else if x.code >= 255 {
        out.push(255);
        out.extend_from_slice(&(x.code as i16).to_le_bytes());
    } else {
        out.push(x.code as u8);
    }
    match &x.v {
        V::Str(t) => {
            out.extend_from_slice(t);
            out.push(0)
        }
        V::I16(v) => out.extend_from_slice(&v.to_le_bytes()),
        V::I32(v) => out.extend_from_slice(&v.to_le_bytes()),
        V::I64(v) => out.extend_from_slice(&v.to_le_bytes()),
        V::F64(v) => out.extend_from_slice(&v.to_le_bytes()),
        V::Bool(v) => {
            out.push(*v);
            if !wide {
                out.push(0)
            }
        }
        V::Bin(v) => {
            out.push(v.len() as u8);
            out.extend_from_slice(v)
        }
    }
}
pub fn encode_binary(gs: &[G], wide: bool) -> Vec<u8> {
    let mut out = SENTINEL.to_vec();
    for x in gs {
        encode_binary_group(x, wide, &mut out);
    }
    out
}
pub fn encode(gs: &[G], bin: bool, wide: bool) -> Vec<u8> {
    if bin {
        encode_binary(gs, wide)
    } else {
        encode_text(gs)
    }
}
/// Text stored in a file as it was before escaping (the ^ escapes and, for text files before R2007, the \U+ escapes).
pub fn unescape(raw: &[u8], unicode_escapes: bool) -> String {
    let t = String::from_utf8_lossy(raw).into_owned();
    let t = if unicode_escapes { un_u(&t) } else { t };
    let mut out = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '^' {
            match it.next() {
                Some(' ') => out.push('^'),
                Some(d) if ('@'..='_').contains(&d) => out.push((d as u8 - 0x40) as char),
                Some(d) => out.push(d),
                None => (),
            }
        } else {
            out.push(c)
        }
    }
    out
}
fn un_u(t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut units: Vec<u16> = vec![];
    let mut i = 0;
    let flush = |units: &mut Vec<u16>, out: &mut String| {
        out.push_str(&String::from_utf16_lossy(units));
        units.clear();
    };
    while i < cs.len() {
        if i + 6 < cs.len() && cs[i] == '\\' && cs[i + 1] == 'U' && cs[i + 2] == '+' {
            let h: String = cs[i + 3..i + 7].iter().collect();
            if let Ok(u) = u16::from_str_radix(&h, 16) {
                units.push(u);
                i += 7;
                continue;
            }
        }
        flush(&mut units, &mut out);
        out.push(cs[i]);
        i += 1;
    }
    flush(&mut units, &mut out);
    out
}
/// Checks the framing of a whole file: sections, tables, blocks, sequences, end marker. Returns what is wrong.
pub fn grammar(gs: &[G]) -> Result<(), String> {
    let mut i = 0;
    let name = |i: usize| gs.get(i).map(|x| x.text()).unwrap_or_default();
    let mut seen: Vec<String> = vec![];
    loop {
        let Some(x) = gs.get(i) else { return Err("no EOF".into()) };
        if x.is(0, "EOF") {
            if i + 1 != gs.len() {
                return Err("groups after EOF".into());
            }
            return Ok(());
        }
        if !x.is(0, "SECTION") {
            return Err(format!("expected a section at group {}, got {}/{}", i, x.code, x.text()));
        }
        if gs.get(i + 1).map(|x| x.code) != Some(2) {
            return Err("section without a name".into());
        }
        let sec = name(i + 1);
        if seen.contains(&sec) {
            return Err(format!("section {} twice", sec));
        }
        seen.push(sec.clone());
        i += 2;
        let start = i;
        while !gs.get(i).ok_or(format!("section {} is not ended", sec))?.is(0, "ENDSEC") {
            // there is also an entity of that name
            if gs[i].is(0, "SECTION") && gs.get(i + 1).map(|x| x.code) == Some(2) || gs[i].is(0, "EOF") {
                return Err(format!("section {} is not ended", sec));
            }
            i += 1;
        }
        let body = &gs[start..i];
        i += 1;
        match sec.as_str() {
            "HEADER" => {
                let mut names = vec![];
                let mut k = 0;
                while k < body.len() {
                    if body[k].code != 9 {
                        return Err(format!("header: expected a variable, got {}/{}", body[k].code, body[k].text()));
                    }
                    let n = body[k].text();
                    if !n.starts_with('$') || names.contains(&n) {
                        return Err(format!("header: bad or repeated variable {}", n));
                    }
                    names.push(n.clone());
                    k += 1;
                    let a = k;
                    while k < body.len() && body[k].code != 9 {
                        k += 1;
                    }
                    if k == a || k - a > 3 {
                        return Err(format!("header: {} has {} values", n, k - a));
                    }
                }
            }
            "TABLES" => {
                let mut k = 0;
                let mut tabs = vec![];
                while k < body.len() {
                    if !body[k].is(0, "TABLE") || body.get(k + 1).map(|x| x.code) != Some(2) {
                        return Err(format!("tables: expected a table, got {}/{}", body[k].code, body[k].text()));
                    }
                    let tn = body[k + 1].text();
                    if tabs.contains(&tn) {
                        return Err(format!("table {} twice", tn));
                    }
                    tabs.push(tn.clone());
                    k += 2;
                    let mut n = 0;
                    let mut declared = None;
                    loop {
                        let x = body.get(k).ok_or(format!("table {} is not ended", tn))?;
                        if x.is(0, "ENDTAB") {
                            break;
                        }
                        if x.code == 0 {
                            if x.text() != tn {
                                return Err(format!("table {} holds a {}", tn, x.text()));
                            }
                            n += 1;
                        }
                        if x.code == 70 && n == 0 {
                            declared = Some(x.text());
                        }
                        k += 1;
                    }
                    let _ = declared;
                    k += 1;
                }
            }
            "BLOCKS" => {
                let mut open = false;
                for x in body.iter().filter(|x| x.code == 0) {
                    match (x.text().as_str(), open) {
                        ("BLOCK", false) => open = true,
                        ("ENDBLK", true) => open = false,
                        ("BLOCK", true) | ("ENDBLK", false) => return Err("blocks: unbalanced".into()),
                        (_, true) => (),
                        (t, false) => return Err(format!("blocks: {} outside a block", t)),
                    }
                }
                if open {
                    return Err("blocks: not ended".into());
                }
                sequences(body)?;
            }
            "ENTITIES" => {
                if body.first().map(|x| x.code != 0).unwrap_or(false) {
                    return Err("entities: does not start with an entity".into());
                }
                sequences(body)?;
            }
            "OBJECTS" | "CLASSES" => {
                if body.first().map(|x| x.code != 0).unwrap_or(false) {
                    return Err(format!("{}: does not start with an item", sec));
                }
            }
            "THUMBNAILIMAGE" => {
                let n: usize = body.iter().map(|x| if let V::Bin(b) = &x.v { b.len() } else { 0 }).sum();
                if body.first().map(|x| x.code) != Some(90) || body[0].text() != n.to_string() || body[1..].iter().any(|x| x.code != 310) {
                    return Err("thumbnail: length does not match data".into());
                }
            }
            _ => return Err(format!("unknown section {}", sec)),
        }
    }
}
/// POLYLINE followed by VERTEX* SEQEND; INSERT with 66/1 followed by ATTRIB* SEQEND; no stray members.
fn sequences(body: &[G]) -> Result<(), String> {
    let mut items: Vec<(String, bool)> = vec![];
    for x in body {
        if x.code == 0 {
            items.push((x.text(), false));
        } else if x.code == 66 && x.text() == "1" {
            if let Some(l) = items.last_mut() {
                l.1 = true;
            }
        }
    }
    let mut i = 0;
    while i < items.len() {
        let (t, f) = &items[i];
        i += 1;
        let member = match (t.as_str(), f) {
            ("POLYLINE", _) => "VERTEX",
            ("INSERT", true) => "ATTRIB",
            _ => continue,
        };
        let mut n = 0;
        while i < items.len() && (items[i].0 == member || (member == "ATTRIB" && items[i].0 == "MTEXT" && n > 0)) {
            i += 1;
            n += 1;
        }
        if items.get(i).map(|x| x.0.as_str()) != Some("SEQEND") {
            return Err(format!("{} is not closed by SEQEND", t));
        }
        i += 1;
    }
    Ok(())
}
#[allow(dead_code)]
pub fn to_json(gs: &[G]) -> Value {
    Value::Array(gs.iter().map(|x| Value::String(format!("{}/{}", x.code, x.text()))).collect())
}
