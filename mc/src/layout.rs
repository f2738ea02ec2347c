//! C22 (layout variations of text files) and C25 (malformed values).
use crate::core::*;
use crate::corpus::*;
use crate::faults::{content, diff, lay_out};
use crate::robust;
use crate::util::*;
use crate::wire::{encode_binary_group, encode_text, G, T, V};
use dxf::*;
use serde_json::{json, Value};
use std::sync::atomic::Ordering::SeqCst;

/// Is the group a handle that the item itself reads (not data of an extension record or group)?
fn handles(gs: &[G]) -> Vec<bool> {
    let mut item = String::new();
    let mut braces = 0;
    let mut table_head = false;
    gs.iter()
        .map(|x| {
            if x.code == 0 {
                item = x.text();
                braces = 0;
                table_head = item == "TABLE";
            }
            if x.code == 102 {
                braces += if x.text().starts_with('{') { 1 } else { -1 };
            }
            let known = !item.is_empty() && item != "XRECORD" && item != "SECTION" && item != "ENDBLK" && item != "ENDTAB" && braces == 0 && !table_head;
            let hex = matches!(&x.v, V::Str(v) if !v.is_empty() && v.iter().all(|c| c.is_ascii_hexdigit()));
            known && hex && (x.code == 105 || x.code == 5 && item != "DIMSTYLE")
        })
        .collect()
}
fn split(x: &G) -> (Vec<u8>, Vec<u8>) {
    let b = encode_text(std::slice::from_ref(x));
    let n = b.iter().position(|c| *c == b'\n').unwrap();
    (b[..n - 1].to_vec(), b[n + 1..b.len() - 2].to_vec())
}
fn join(ls: &[(Vec<u8>, Vec<u8>)], ends: impl Fn(usize) -> &'static [u8]) -> Vec<u8> {
    let mut o = vec![];
    for (i, (a, b)) in ls.iter().enumerate() {
        o.extend_from_slice(a);
        o.extend_from_slice(ends(2 * i));
        o.extend_from_slice(b);
        o.extend_from_slice(ends(2 * i + 1));
    }
    o
}
/// Other ways to write the group.
fn variants(x: &G, handle: bool) -> Vec<(&'static str, Vec<u8>, Vec<u8>)> {
    let (code, value) = split(x);
    let c = x.code.to_string();
    let v = String::from_utf8_lossy(&value).to_string();
    let mut o: Vec<(&'static str, Vec<u8>, Vec<u8>)> = vec![];
    let mut code_as = |n, t: String| o.push((n, t.into_bytes(), value.clone()));
    code_as("code without blanks", c.clone());
    code_as("code with many blanks", format!("        {}", c));
    code_as("blanks after the code", format!("  {}  ", c));
    code_as("tabs around the code", format!("\t{}\t", c));
    code_as("zeros before the code", format!("00{}", c));
    code_as("plus before the code", format!("+{}", c));
    let mut value_as = |n, t: String| {
        if t.as_bytes() != value.as_slice() {
            o.push((n, code.clone(), t.into_bytes()))
        }
    };
    let sign = |t: &str| t.strip_prefix('-').map(|r| ("-", r.to_string())).unwrap_or(("", t.to_string()));
    match &x.v {
        V::Str(_) => {
            if handle {
                value_as("lower case digits", v.to_lowercase());
                value_as("upper case digits", v.to_uppercase());
                value_as("zeros before the digits", format!("00{}", v));
                value_as("many zeros before the digits", format!("{:0>33}", v));
                value_as("blanks around the digits", format!("  {} ", v));
            }
        }
        V::Bin(_) => {
            value_as("lower case digits", v.to_lowercase());
            value_as("upper case digits", v.to_uppercase());
        }
        _ => {
            value_as("blanks before the number", format!("          {}", v));
            value_as("blanks after the number", format!("{}   ", v));
            value_as("tab before the number", format!("\t{}", v));
            let (s, r) = sign(&v);
            value_as("zeros before the number", format!("{}000{}", s, r));
            if s.is_empty() {
                value_as("plus before the number", format!("+{}", r));
            }
            match &x.v {
                V::I16(_) | V::Bool(_) => {
                    value_as("decimal point", format!("{}.0", v));
                    value_as("only a point", format!("{}.", v));
                    value_as("exponent", format!("{}e0", v));
                }
                V::F64(f) => {
                    value_as("zeros after the number", format!("{}000", v));
                    value_as("exponent", format!("{}E+00", v));
                    value_as("small exponent", format!("{}e0", v));
                    if f.fract() == 0.0 && f.abs() < 1e15 {
                        value_as("no decimal point", format!("{}", *f as i64));
                        value_as("only a point", format!("{}.", *f as i64));
                    }
                    if f.abs() < 1.0 && *f != 0.0 {
                        value_as("no zero before the point", format!("{}{}", s, r.trim_start_matches('0')));
                    }
                }
                _ => (),
            }
        }
    }
    o
}
pub fn c22(c: &Ctx) -> i32 {
    let bases = robust::bases(1);
    let names = std::sync::Mutex::new(std::collections::BTreeMap::<&'static str, u64>::new());
    c.par(bases.len(), |i| {
        let b = &bases[i];
        c.begin(&b.key);
        let plain_bytes = encode_text(&b.gs);
        let plain = match guard(|| load(&plain_bytes)) {
            Ok(Ok(d)) => content(&d),
            x => {
                c.fail(&b.key, &format!("does not load: {:?}", x.map(|r| r.map(|_| ()))), || Value::Null);
                return;
            }
        };
        let run = |key: &str, bytes: &[u8]| {
            if c.skip(key) {
                return;
            }
            c.begin(key);
            c.eval(1);
            let bad = match guard(|| load(bytes)) {
                Err(p) => Some(format!("panic: {}", p)),
                Ok(Err(e)) => Some(e),
                Ok(Ok(d)) => {
                    let v = content(&d);
                    if v == plain {
                        None
                    } else {
                        Some(format!("loads differently: {}", diff(&plain, &v)))
                    }
                }
            };
            if let Some(m) = bad {
                c.fail(key, &m, || json!({"file": robust::show(bytes)}));
            }
        };
        let ls: Vec<(Vec<u8>, Vec<u8>)> = b.gs.iter().map(split).collect();
        let hs = handles(&b.gs);
        let crlf = |_: usize| -> &'static [u8] { b"\r\n" };
        let n = ls.len();
        // each variation of each group
        let mut by_name: std::collections::BTreeMap<&'static str, Vec<(usize, Vec<u8>, Vec<u8>)>> = Default::default();
        for k in 0..n {
            for (name, a, v) in variants(&b.gs[k], hs[k]) {
                let mut m = ls.clone();
                m[k] = (a.clone(), v.clone());
                run(&format!("{}: {} in group {}", b.key, name, k), &join(&m, crlf));
                by_name.entry(name).or_default().push((k, a, v));
            }
            c.distinct(format!("{} {}", b.key, k).as_bytes());
        }
        // one variation everywhere, and all of them mixed
        for (name, l) in &by_name {
            let mut m = ls.clone();
            for (k, a, v) in l {
                m[*k] = (a.clone(), v.clone());
            }
            run(&format!("{}: {} everywhere", b.key, name), &join(&m, crlf));
            *names.lock().unwrap().entry(name).or_default() += l.len() as u64;
        }
        let all: Vec<Vec<(Vec<u8>, Vec<u8>)>> = (0..n)
            .map(|k| {
                let vs = variants(&b.gs[k], hs[k]);
                let codes: Vec<Vec<u8>> = vs.iter().filter(|v| v.2 == ls[k].1).map(|v| v.1.clone()).chain([ls[k].0.clone()]).collect();
                let vals: Vec<Vec<u8>> = vs.iter().filter(|v| v.1 == ls[k].0).map(|v| v.2.clone()).chain([ls[k].1.clone()]).collect();
                (0..30).map(|r| (codes[(k + r) % codes.len()].clone(), vals[(k / 2 + 2 * r) % vals.len()].clone())).collect()
            })
            .collect();
        for r in 0..30 {
            let m: Vec<_> = (0..n).map(|k| all[k][r].clone()).collect();
            run(&format!("{}: mix {} of all", b.key, r), &join(&m, |l| if (l + r) % 3 == 0 { b"\n" } else { b"\r\n" }));
        }
        // line ends
        for l in 0..2 * n {
            run(&format!("{}: LF after line {}", b.key, l), &join(&ls, |x| if x == l { b"\n" } else { b"\r\n" }));
            run(&format!("{}: CR LF only after line {}", b.key, l), &join(&ls, |x| if x == l { b"\r\n" } else { b"\n" }));
            run(&format!("{}: LF up to line {}", b.key, l), &join(&ls, |x| if x <= l { b"\n" } else { b"\r\n" }));
        }
        // start and end of the file
        let lf = join(&ls, |_| b"\n");
        for (en, body) in [("CR LF", plain_bytes.clone()), ("LF", lf)] {
            let nl: &[u8] = if en == "LF" { b"\n" } else { b"\r\n" };
            let line = nl.len();
            let eof = body.len() - (format!("  0{0}EOF{0}", String::from_utf8_lossy(nl)).len());
            let mut ends: Vec<(String, Vec<u8>)> = vec![
                ("plain".into(), body.clone()),
                ("no line end after the end marker".into(), body[..body.len() - line].to_vec()),
                ("no end marker".into(), body[..eof].to_vec()),
                ("no end marker and no line end".into(), body[..eof - line].to_vec()),
            ];
            for k in 1..4 {
                let mut x = body.clone();
                let mut y = body[..eof].to_vec();
                for _ in 0..k {
                    x.extend_from_slice(nl);
                    y.extend_from_slice(nl);
                }
                ends.push((format!("{} blank lines after the end marker", k), x));
                ends.push((format!("{} blank lines instead of the end marker", k), y));
            }
            let mut x = body.clone();
            x.push(0x1a);
            ends.push(("control-Z after the end marker".into(), x));
            for (name, e) in ends {
                run(&format!("{}: {}, {}", b.key, name, en), &e);
                let mut bom = b"\xEF\xBB\xBF".to_vec();
                bom.extend_from_slice(&e);
                run(&format!("{}: byte order mark, {}, {}", b.key, name, en), &bom);
            }
        }
        // pairs of variations of neighbouring groups
        if c.thorough {
            for k in 0..n.saturating_sub(1) {
                let (v1, v2) = (variants(&b.gs[k], hs[k]), variants(&b.gs[k + 1], hs[k + 1]));
                for (p, (n1, a1, w1)) in v1.iter().enumerate() {
                    for (q, (n2, a2, w2)) in v2.iter().enumerate() {
                        if (p + q) % 2 == 0 {
                            let mut m = ls.clone();
                            m[k] = (a1.clone(), w1.clone());
                            m[k + 1] = (a2.clone(), w2.clone());
                            run(&format!("{}: {} in group {} and {} in the next", b.key, n1, k, n2), &join(&m, crlf));
                        }
                    }
                }
            }
        }
    });
    c.extra("files", json!(bases.len()));
    c.extra("variations", json!(*names.lock().unwrap()));
    // unique ids in each of their forms: every digit at every place
    for hex in 0..16u32 {
        for place in 0..32usize {
            let d: String = (0..32).map(|i| std::char::from_digit(if i == place { hex } else { (i as u32 * 7 + 3) % 16 }, 16).unwrap()).collect();
            let id = format!("{}-{}-{}-{}-{}", &d[..8], &d[8..12], &d[12..16], &d[16..20], &d[20..]);
            let up = id.to_uppercase();
            for (form, t) in [("plain", id.clone()), ("upper case", up.clone()), ("in braces", format!("{{{}}}", id)), ("upper case in braces", format!("{{{}}}", up))] {
                let key = format!("id {} {}", id, form);
                if c.skip(&key) {
                    continue;
                }
                c.eval(1);
                let gs = [(0, "SECTION"), (2, "HEADER"), (9, "$ACADVER"), (1, "AC1032"), (9, "$FINGERPRINTGUID"), (2, &t), (9, "$VERSIONGUID"), (2, &t), (0, "ENDSEC"), (0, "EOF")];
                let b: String = gs.iter().map(|(k, v)| format!("{}\r\n{}\r\n", k, v)).collect();
                let r = guard(|| load(b.as_bytes()).map(|d| (d.header.fingerprint_guid.to_string(), d.header.version_guid.to_string())));
                if r != Ok(Ok((id.clone(), id.clone()))) {
                    c.fail(&key, &format!("read as {:?}", r), || json!({"file": b}));
                }
            }
        }
    }
    c.sample(|| json!({"file": bases[0].key, "variations_of_group_7": variants(&bases[0].gs[7], false).iter().map(|v| format!("{}: {:?} {:?}", v.0, String::from_utf8_lossy(&v.1), String::from_utf8_lossy(&v.2))).collect::<Vec<_>>()}));
    c.finish(
        "exploration",
        "each text file of a corpus covering every item type: every way of writing each group code and each value (blanks, tabs, zeros, signs, decimal points, exponents, letter case of hexadecimal digits), at each group alone, everywhere, and mixed; LF and CR LF at each line; byte order mark, end marker and trailing lines; thorough: also all pairs in neighbouring groups",
        &["integers of 32 and 64 bits are not written with a decimal point", "hexadecimal digits: handles of items (codes 5 and 105) and binary data"],
        true,
    )
}

// ---- C25

fn malformed(t: T) -> &'static [&'static str] {
    match t {
        T::I16 | T::Bool => &["", " ", "x", "1x", "--1", "1.2.3", "0x1F", "1,5", "NaN", "inf", "1 2", "+", "-", "."],
        T::I32 => &["", " ", "x", "1x", "--1", "1.5", "0x1F", "2147483648", "-2147483649", "99999999999999999999999", "1,5", "1 2", "+", "-"],
        T::I64 => &["", " ", "x", "1x", "--1", "1.5", "0x1F", "9223372036854775808", "-9223372036854775809", "1,5", "1 2", "+", "-"],
        T::F64 => &["", " ", "x", "1x", "--1", "1.2.3", "0x1F", "1,5", "1 2", "1e", "e5", "+", "-", ".", "1.5f"],
        T::Bin => &["0G", "x", "GG", "0102 3", "\u{e9}\u{e9}", "01-2"],
        T::Str => &[],
    }
}
const BAD_HANDLES: [&str; 9] = ["G", "1G", "-1", "0x1F", "1 2", "1.5", "10000000000000000", "123456789ABCDEF01", "FFFFFFFFFFFFFFFFF"];
const BAD_CODES: [&str; 17] = ["x", "1x", "--1", "1.5", "0x1", "", " ", "99999999999", "-5", "-1", "1072", "482", "998", "600", "2000", "32767", "1 0"];
/// The place an error names.
fn place(e: &DxfError) -> Option<usize> {
    let t = format!("{}", e);
    let i = t.rfind("line/offset ")?;
    t[i + 12..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
}
pub fn c25(c: &Ctx) -> i32 {
    let bases = robust::bases(1);
    let replaced = std::sync::atomic::AtomicU64::new(0);
    c.par(bases.len(), |i| {
        let b = &bases[i];
        c.begin(&b.key);
        let run = |key: &str, bytes: &[u8], from: usize, to: usize| {
            if c.skip(key) {
                return;
            }
            c.begin(key);
            c.eval(1);
            replaced.fetch_add(1, SeqCst);
            let bad = match guard(|| Drawing::load(&mut &bytes[..])) {
                Err(p) => Some(format!("panic: {}", p)),
                Ok(Ok(_)) => Some("accepted".to_string()),
                Ok(Err(e)) => match place(&e) {
                    Some(p) if p >= from && p <= to => None,
                    Some(p) => Some(format!("the error names place {}, not {} to {}: {}", p, from, to, e)),
                    None => Some(format!("the error names no place: {}", e)),
                },
            };
            if let Some(m) = bad {
                c.fail(key, &m, || json!({"file": robust::show(bytes)}));
            }
        };
        let ls: Vec<(Vec<u8>, Vec<u8>)> = b.gs.iter().map(split).collect();
        let hs = handles(&b.gs);
        let newest = b.key.contains('+') || !b.key.contains('@');
        let crlf = |_: usize| -> &'static [u8] { b"\r\n" };
        for k in 0..ls.len() {
            let g = &b.gs[k];
            let t = crate::wire::type_of(g.code).unwrap();
            let forms: &[&str] = if hs[k] { &BAD_HANDLES } else { malformed(t) };
            for (j, f) in forms.iter().enumerate() {
                if !newest && !c.thorough && (j + k) % 3 != 0 {
                    continue;
                }
                let mut m = ls.clone();
                m[k].1 = f.as_bytes().to_vec();
                // lines are counted from one
                run(&format!("{}: {:?} as value {}", b.key, f, k), &join(&m, crlf), 2 * k + 1, 2 * k + 2);
            }
            for (j, f) in BAD_CODES.iter().enumerate() {
                if (k == 0 || !newest && !c.thorough) && (j + k) % 3 != 0 {
                    continue;
                }
                let mut m = ls.clone();
                m[k].0 = f.as_bytes().to_vec();
                run(&format!("{}: {:?} as code {}", b.key, f, k), &join(&m, |x| if k % 2 == 0 { b"\n" } else { crlf(x) }), 2 * k + 1, 2 * k + 2);
            }
            c.distinct(format!("{} {}", b.key, k).as_bytes());
        }
        // binary: codes that do not exist, handles
        let w = wide(b.ver);
        let f = lay_out("", &b.gs, true, w);
        for k in 1..ls.len() {
            let start = f.ends[k - 1];
            for code in [482i32, 600, 998, 1072, 2000, 32767, -5] {
                let mut x = f.bytes[..start].to_vec();
                if w {
                    x.extend((code as i16).to_le_bytes());
                } else {
                    x.push(255);
                    x.extend((code as i16).to_le_bytes());
                }
                let end = x.len();
                x.extend_from_slice(&f.bytes[f.ends[k].min(start + if w { 2 } else { 1 })..]);
                run(&format!("{} binary: code {} at group {}", b.key, code, k), &x, start, end);
            }
            if hs[k] {
                for h in BAD_HANDLES {
                    let mut x = f.bytes[..start].to_vec();
                    encode_binary_group(&crate::wire::s(b.gs[k].code, h), w, &mut x);
                    let end = x.len();
                    x.extend_from_slice(&f.bytes[f.ends[k]..]);
                    run(&format!("{} binary: handle {} at group {}", b.key, h, k), &x, start, end);
                }
            }
        }
        // after values of every type and length, characters of several bytes included
        {
            use crate::wire::{g, s};
            let mut pre = vec![s(0, "SECTION"), s(2, "NOSUCH"), s(999, "\u{e9}\u{65e5}\u{672c} \u{1f600}"), s(1, ""), s(3, "\u{20ac}uro"), s(1000, "a^b"), s(5, "1F")];
            pre.extend([g(70, V::I16(-2)), g(90, V::I32(3)), g(160, V::I64(-4)), g(290, V::Bool(1)), g(40, V::F64(1.5)), g(1071, V::I32(9)), g(1010, V::F64(2.5))]);
            pre.extend([g(310, V::Bin(vec![])), g(310, V::Bin(vec![7; 127])), s(1004, "010203"), s(0, "ENDSEC")]);
            let n = pre.len();
            pre.extend(b.gs.iter().cloned());
            let f = lay_out("", &pre, true, w);
            for k in n..pre.len() {
                let start = f.ends[k - 1];
                let mut x = f.bytes[..start].to_vec();
                if !w {
                    x.push(255);
                }
                x.extend(600i16.to_le_bytes());
                let end = x.len();
                x.extend_from_slice(&f.bytes[f.ends[k]..]);
                run(&format!("{} binary: code 600 at group {} after values of all types", b.key, k - n), &x, start, end);
            }
        }
        // the sentinel
        for k in 18..22 {
            for v in 0..=255u8 {
                if v == f.bytes[k] || (k == 18 && v == b'\n') || i % 16 != 0 {
                    continue;
                }
                let mut x = f.bytes.clone();
                x[k] = v;
                let key = format!("{} binary: byte {} is {}", b.key, k, v);
                if c.skip(&key) {
                    continue;
                }
                c.begin(&key);
                c.eval(1);
                if matches!(guard(|| Drawing::load(&mut &x[..])), Ok(Ok(_)) | Err(_)) {
                    c.fail(&key, "accepted", || json!({"file": robust::show(&x)}));
                }
            }
        }
    });
    c.extra("files", json!(bases.len()));
    c.extra("replacements", json!(replaced.load(SeqCst)));
    c.sample(|| json!({"malformed_reals": malformed(T::F64), "malformed_codes": BAD_CODES, "malformed_handles": BAD_HANDLES}));
    c.finish(
        "exploration",
        "each file of a corpus covering every item type: every typed value (integers of each size, reals, booleans, binary data, handles of items) replaced by each malformed form of its type and every group code by each malformed or undefined code, in text; undefined codes and malformed handles at every group in binary; the load has to fail and the error has to name a line or byte offset of that group",
        &["lines are counted from one; a group has a code line and a value line", "16 bit integers out of range are read as the nearest one (some programs write them unsigned), which is not judged"],
        true,
    )
}
