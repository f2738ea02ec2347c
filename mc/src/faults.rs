//! C13 (every cut of a file) and C14 (every failing, short or interrupted transfer).
use crate::core::*;
use crate::corpus::*;
use crate::robust;
use crate::util::*;
use crate::wire::{encode_binary, encode_binary_group, encode_text, s, G};
use dxf::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::atomic::Ordering::SeqCst;

pub struct File {
    pub key: String,
    pub bytes: Vec<u8>,
    /// where each group ends
    pub ends: Vec<usize>,
    pub gs: Vec<G>,
    pub bin: bool,
    pub wide: bool,
}
pub fn lay_out(key: &str, gs: &[G], bin: bool, wide: bool) -> File {
    let mut bytes = if bin { encode_binary(&[], wide) } else { vec![] };
    let mut ends = vec![];
    for g in gs {
        if bin {
            encode_binary_group(g, wide, &mut bytes);
        } else {
            bytes.extend(encode_text(std::slice::from_ref(g)));
        }
        ends.push(bytes.len());
    }
    File { key: format!("{} {}", key, enc(bin)), bytes, ends, gs: gs.to_vec(), bin, wide }
}
/// Loaded content without what depends on the clock.
pub fn content(d: &Drawing) -> Value {
    let mut v = snapshot(d);
    if let Some(h) = v.get_mut("header").and_then(|h| h.as_object_mut()) {
        let dates: Vec<String> = h.keys().filter(|k| k.contains("date") || k.contains("guid")).cloned().collect();
        for k in dates {
            h.remove(&k);
        }
    }
    v
}
/// Unknown sections, tables, entities and objects around known ones, and comments.
fn unknowns() -> Vec<G> {
    let mut o = vec![s(0, "SECTION"), s(2, "HEADER"), s(9, "$ACADVER"), s(1, "AC1015"), s(9, "$NOSUCH"), s(1, "X"), s(0, "ENDSEC")];
    o.extend([s(0, "SECTION"), s(2, "NOSUCH"), s(0, "THING"), s(1, "ENDSEC"), s(999, "note"), s(0, "ENDSEC")]);
    o.extend([s(0, "SECTION"), s(2, "TABLES"), s(0, "TABLE"), s(2, "NOSUCH"), s(0, "NOSUCH"), s(1, "X"), s(0, "ENDTAB")]);
    o.extend([s(0, "TABLE"), s(2, "LAYER"), s(0, "LAYER"), s(2, "A"), s(0, "ENDTAB"), s(0, "ENDSEC")]);
    o.extend([s(0, "SECTION"), s(2, "ENTITIES"), s(0, "NOSUCH"), s(1, "X"), s(0, "LINE"), s(8, "A"), s(0, "NOSUCH"), s(0, "ENDSEC")]);
    o.extend([s(0, "SECTION"), s(2, "OBJECTS"), s(0, "NOSUCH"), s(1, "X"), s(0, "DICTIONARY"), s(0, "ENDSEC")]);
    o.extend([s(0, "SECTION"), s(2, "LAST"), s(0, "ENDSEC"), s(0, "EOF")]);
    o
}
fn files(depth: usize) -> Vec<File> {
    let mut out = vec![];
    for b in robust::bases(depth) {
        for bin in [false, true] {
            out.push(lay_out(&b.key, &b.gs, bin, wide(b.ver)));
        }
    }
    for bin in [false, true] {
        out.push(lay_out("unknowns", &unknowns(), bin, true));
        out.push(lay_out("minimal", &[s(0, "EOF")], bin, true));
    }
    out
}
fn big_files(c: &Ctx) -> Vec<File> {
    let vers: &[usize] = if c.thorough { &[9, 13, 15, 20] } else { &[20] };
    let mut out = vec![];
    for &ver in vers {
        let d = mixed(ver, false, |_| true);
        for bin in [false, true] {
            let b = save(&d, bin).unwrap();
            let gs = decode(&b, bin, ver).unwrap();
            out.push(lay_out(&format!("everything@{:?}", crate::catalog::VERSIONS[ver]), &gs, bin, wide(ver)));
        }
    }
    out
}

pub fn c13(c: &Ctx) -> i32 {
    let mut jobs: Vec<(File, bool)> = files(if c.thorough { 1 } else { 0 }).into_iter().map(|f| (f, true)).collect();
    if !c.thorough {
        for b in robust::bases(1) {
            // the oldest versions and default values
            for bin in [false, true] {
                let f = lay_out(&b.key, &b.gs, bin, wide(b.ver));
                if !jobs.iter().any(|(j, _)| j.key == f.key) {
                    jobs.push((f, false));
                }
            }
        }
    }
    jobs.extend(big_files(c).into_iter().map(|f| (f, false)));
    let cuts = std::sync::atomic::AtomicU64::new(0);
    // one job per (file, 512 bytes)
    let mut parts = vec![];
    for (i, (f, _)) in jobs.iter().enumerate() {
        let mut a = 0;
        while a < f.bytes.len() {
            parts.push((i, a, (a + 512).min(f.bytes.len())));
            a += 512;
        }
    }
    c.par(parts.len(), |p| {
        let (i, from, to) = parts[p];
        let (f, every) = &jobs[i];
        let mut reference: Option<(usize, Result<Value, String>)> = None;
        for k in from..to {
            let n = f.ends.partition_point(|&e| e <= k);
            let start = if n == 0 {
                if f.bin {
                    22
                } else {
                    0
                }
            } else {
                f.ends[n - 1]
            };
            if !every && k != start && k != start + 1 && k + 1 != f.ends.get(n).copied().unwrap_or(0) && k + 3 != f.ends.get(n).copied().unwrap_or(0) {
                continue;
            }
            let key = format!("cut {} at {}", f.key, k);
            if c.skip(&key) {
                continue;
            }
            c.begin(&key);
            cuts.fetch_add(1, SeqCst);
            let open = f.gs[..n].iter().rev().find_map(|g| if g.is(0, "SECTION") { Some(true) } else if g.is(0, "ENDSEC") { Some(false) } else { None }).unwrap_or(false);
            // a text line is complete without its line end
            let unfinished = k > start;
            let whole_line = !f.bin && n < f.gs.len() && k + 2 >= f.ends[n];
            let r = match guard(|| Drawing::load(&mut &f.bytes[..k])) {
                Ok(r) => r,
                Err(p) => {
                    c.fail(&key, &format!("panic: {}", p), || json!({"file": robust::show(&f.bytes[..k])}));
                    continue;
                }
            };
            c.eval(1);
            c.distinct(&f.bytes[..k]);
            let before = |n: usize| -> Result<Value, String> {
                let mut g = f.gs[..n].to_vec();
                g.push(s(0, "EOF"));
                load(&lay_out("", &g, f.bin, f.wide).bytes).map(|d| content(&d))
            };
            let bad = match (&r, open) {
                (Err(_), true) => None,
                (Err(_), false) if unfinished || k < 22 => None,
                (Err(e), false) => Some(format!("a file that ends after a complete section is not loaded: {:?}", e)),
                (Ok(d), true) if whole_line && f.gs[n].is(0, "ENDSEC") => match before(n + 1) {
                    Ok(v) if v == content(d) => None,
                    _ => Some("not what the sections of the file hold".into()),
                },
                (Ok(_), true) => Some("a file that ends inside a section is loaded as if it were complete".into()),
                (Ok(d), false) => {
                    if reference.as_ref().map(|r| r.0) != Some(n) {
                        reference = Some((n, before(n)));
                    }
                    match &reference.as_ref().unwrap().1 {
                        Ok(v) if *v == content(d) => None,
                        Ok(v) => Some(format!("not what the sections before the cut hold: {}", diff(v, &content(d)))),
                        Err(e) => Some(format!("loaded, though not with an end marker: {}", e)),
                    }
                }
            };
            if let Some(m) = bad {
                c.fail(&key, &m, || json!({"file": robust::show(&f.bytes[..k])}));
            }
        }
    });
    c.sample(|| json!({"file": robust::show(&jobs[0].0.bytes), "cuts": "every byte"}));
    c.extra("files", json!(jobs.len()));
    c.extra("files_cut_at_every_byte", json!(jobs.iter().filter(|j| j.1).count()));
    c.extra("cuts", json!(cuts.load(SeqCst)));
    c.finish(
        "exploration",
        "each file of a corpus covering every item type and section, in text and binary, cut at every byte (larger and further files: at every group boundary, one byte after it and one and three bytes before it); a cut inside a section has to be an error, any other gives the content of the sections before it",
        &["files are laid out by an independent encoder; where sections begin and end is taken from the groups"],
        true,
    )
}
pub fn diff(a: &Value, b: &Value) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return format!("{} missing", k),
                    Some(w) if v != w => return format!("{}.{}", k, diff(v, w)),
                    _ => (),
                }
            }
            "more fields".into()
        }
        (Value::Array(x), Value::Array(y)) => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                if v != w {
                    return format!("{}.{}", i, diff(v, w));
                }
            }
            format!("{} items instead of {}", y.len(), x.len())
        }
        _ => format!("{} instead of {}", b.to_string().chars().take(80).collect::<String>(), a.to_string().chars().take(80).collect::<String>()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Plan {
    /// the call that would go past this many bytes fails, once
    FailAt(usize, ErrorKind),
    /// the call that would go past this many bytes transfers nothing, once
    Zero(usize),
    /// interrupted before the byte at this offset, then goes on
    Interrupt(usize),
    /// every other call is interrupted
    AlwaysInterrupt,
    Plain,
}
struct Faulty<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    at: usize,
    chunk: usize,
    plan: Plan,
    fired: &'a Cell<bool>,
    calls: usize,
}
impl<'a> Faulty<'a> {
    fn new(data: &'a [u8], chunk: usize, plan: Plan, fired: &'a Cell<bool>) -> Self {
        Faulty { data, out: vec![], at: 0, chunk, plan, fired, calls: 0 }
    }
    /// How much the call may transfer.
    fn step(&mut self, want: usize) -> io::Result<usize> {
        self.calls += 1;
        let mut n = want.min(self.chunk);
        match self.plan {
            Plan::FailAt(k, kind) if !self.fired.get() => {
                if self.at >= k {
                    self.fired.set(true);
                    return Err(io::Error::new(kind, "injected"));
                }
                n = n.min(k - self.at);
            }
            Plan::Zero(k) if !self.fired.get() => {
                if self.at >= k {
                    self.fired.set(true);
                    return Ok(0);
                }
                n = n.min(k - self.at);
            }
            Plan::Interrupt(k) if !self.fired.get() => {
                if self.at >= k {
                    self.fired.set(true);
                    return Err(ErrorKind::Interrupted.into());
                }
                n = n.min(k - self.at);
            }
            Plan::AlwaysInterrupt if self.calls % 2 == 1 => {
                self.fired.set(true);
                return Err(ErrorKind::Interrupted.into());
            }
            _ => (),
        }
        Ok(n)
    }
}
impl Read for Faulty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let left = self.data.len() - self.at;
        let n = self.step(buf.len())?.min(left);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl Write for Faulty<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.step(buf.len())?;
        self.out.extend_from_slice(&buf[..n]);
        self.at += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Text,
    Binary,
    Dxb,
}
fn save_to(d: &Drawing, how: How, w: &mut dyn Write) -> DxfResult<()> {
    match how {
        How::Text => d.save(w),
        How::Binary => d.save_binary(w),
        How::Dxb => d.save_dxb(w),
    }
}
const KINDS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData];

pub fn c14(c: &Ctx) -> i32 {
    // (key, bytes, step between fault offsets)
    let mut loads: Vec<(String, Vec<u8>)> = files(if c.thorough { 1 } else { 0 }).into_iter().map(|f| (f.key, f.bytes)).collect();
    loads.push(("dxb".into(), robust::dxb_file()));
    loads.push(("dxb integers".into(), dxb_integers()));
    let mut parts = vec![];
    for (i, f) in loads.iter().enumerate() {
        let mut a = 0;
        while a <= f.1.len() {
            parts.push((i, a, (a + 256).min(f.1.len() + 1)));
            a += 256;
        }
    }
    let kinds = |i: usize| -> Vec<ErrorKind> {
        if c.thorough || i % 8 == 0 {
            KINDS.to_vec()
        } else {
            vec![KINDS[i % 4]]
        }
    };
    c.par(parts.len(), |p| {
        let (i, from, to) = parts[p];
        let (name, b) = &loads[i];
        let plain = match guard(|| Drawing::load(&mut &b[..])) {
            Ok(Ok(d)) => content(&d),
            x => {
                c.fail(&format!("load {}", name), &format!("does not load: {:?}", x.map(|r| r.map(|_| ()))), || Value::Null);
                return;
            }
        };
        let run = |key: &str, chunk: usize, plan: Plan| {
            if c.skip(key) {
                return;
            }
            c.begin(key);
            c.eval(1);
            let fired = Cell::new(false);
            let r = guard(|| {
                let mut f = Faulty::new(b, chunk, plan, &fired);
                Drawing::load(&mut f)
            });
            let bad = match (r, plan) {
                (Err(p), _) => Some(format!("panic: {}", p)),
                (Ok(Ok(_)), Plan::FailAt(..)) if fired.get() => Some("a read error is not reported".to_string()),
                (Ok(Err(_)), Plan::FailAt(..)) => None,
                (Ok(Ok(d)), _) => {
                    let v = content(&d);
                    if v == plain {
                        None
                    } else {
                        Some(format!("loads differently: {}", diff(&plain, &v)))
                    }
                }
                (Ok(Err(e)), _) => Some(format!("does not load: {:?}", e)),
            };
            if let Some(m) = bad {
                c.fail(key, &m, || json!({"file": robust::show(b), "plan": format!("{:?}", plan), "chunk": chunk}));
            }
        };
        for k in from..to {
            for kind in kinds(i) {
                run(&format!("load {} fail {} {:?}", name, k, kind), if k % 2 == 0 { usize::MAX } else { 1 }, Plan::FailAt(k, kind));
            }
            run(&format!("load {} interrupt {}", name, k), [usize::MAX, 1, 5][k % 3], Plan::Interrupt(k));
            c.distinct(format!("{} {}", i, k).as_bytes());
        }
        if from == 0 {
            let max = if c.thorough { 400 } else { 70 };
            for chunk in (1..max.min(b.len())).chain([b.len()]) {
                run(&format!("load {} chunks {}", name, chunk), chunk, Plan::Plain);
                if chunk < 20 {
                    run(&format!("load {} chunks {} interrupted", name, chunk), chunk, Plan::AlwaysInterrupt);
                }
            }
        }
    });
    // saving
    let its = items(&ALL_KINDS);
    let gt = gates(&its);
    let mut drawings: Vec<(String, Drawing)> = vec![];
    for it in &its {
        for ver in home(it, &gt).into_iter().rev().take(if c.thorough { 2 } else { 1 }) {
            drawings.push((format!("{}@{:?}", it.name, crate::catalog::VERSIONS[ver]), drawing_with(it.kind, &it.full, ver)));
        }
    }
    for (name, b) in [("structured", encode_text(&robust::structured(15))), ("thumbnail", encode_text(&robust::thumb(15))), ("header", encode_text(&robust::header_file(20)))] {
        drawings.push((name.into(), load(&b).unwrap()));
    }
    let dxb = load(&robust::dxb_file()).unwrap();
    let mut block = crate::catalog::empty_drawing(crate::catalog::VERSIONS[12]);
    let mut bl = Block { name: "B".into(), ..Default::default() };
    bl.entities = dxb.entities().cloned().collect();
    block.add_block(bl);
    // the header is the same in all of them, so most faults go after it
    let mut jobs: Vec<(usize, How, usize, usize)> = vec![];
    let mut all: Vec<(String, Drawing)> = drawings;
    all.push(("dxb entities".into(), dxb));
    all.push(("dxb block".into(), block));
    let full_from = all.len() - 5;
    for (i, (_, d)) in all.iter().enumerate() {
        for how in [How::Text, How::Binary, How::Dxb] {
            if how == How::Dxb && i < all.len() - 2 {
                continue;
            }
            let mut b = vec![];
            save_to(d, how, &mut b).unwrap();
            let first = if i >= full_from || how == How::Dxb { 0 } else { find(&b, b"CLASSES").or(find(&b, b"TABLES")).unwrap_or(0) };
            let mut a = first;
            while a < b.len() {
                jobs.push((i, how, a, (a + 512).min(b.len())));
                a += 512;
            }
        }
    }
    let saves = std::sync::atomic::AtomicU64::new(0);
    let stride = if c.thorough { 1 } else { 7 };
    c.par(jobs.len(), |j| {
        let (i, how, from, to) = jobs[j];
        let (name, d) = &all[i];
        let mut plain = vec![];
        save_to(d, how, &mut plain).unwrap();
        let run = |key: &str, chunk: usize, plan: Plan| {
            if c.skip(key) {
                return;
            }
            c.begin(key);
            c.eval(1);
            saves.fetch_add(1, SeqCst);
            let fired = Cell::new(false);
            let r = guard(|| {
                let mut f = Faulty::new(&[], chunk, plan, &fired);
                let r = save_to(d, how, &mut f);
                (r, f.out)
            });
            let bad = match (r, plan) {
                (Err(p), _) => Some(format!("panic: {}", p)),
                (Ok((Ok(()), _)), Plan::FailAt(..) | Plan::Zero(_)) if fired.get() => Some("a write error is not reported".to_string()),
                (Ok((Err(_), out)), Plan::FailAt(..) | Plan::Zero(_)) => {
                    if plain.starts_with(&out) || out.len() <= plain.len() {
                        None
                    } else {
                        Some("more written than there is".into())
                    }
                }
                (Ok((Ok(()), out)), _) if out == plain => None,
                (Ok((Ok(()), out)), _) => Some(format!("{} bytes written that differ from the {} expected", out.len(), plain.len())),
                (Ok((Err(e), _)), _) => Some(format!("does not save: {:?}", e)),
            };
            if let Some(m) = bad {
                c.fail(key, &m, || json!({"drawing": name, "how": format!("{:?}", how), "plan": format!("{:?}", plan), "chunk": chunk}));
            }
        };
        for k in from..to {
            // quick: every byte of the special drawings, every group or so of the others
            if i < full_from && how != How::Dxb && k % stride != 0 {
                continue;
            }
            let chunk = [usize::MAX, 1, 3][k % 3];
            match k % 5 {
                4 => run(&format!("save {} {:?} nothing {}", name, how, k), chunk, Plan::Zero(k)),
                _ => run(&format!("save {} {:?} fail {}", name, how, k), chunk, Plan::FailAt(k, KINDS[k % 4])),
            }
            run(&format!("save {} {:?} interrupt {}", name, how, k), chunk, Plan::Interrupt(k));
        }
        if to == plain.len() {
            for chunk in (1..if c.thorough { 70 } else { 12 }).chain([512, plain.len()]) {
                run(&format!("save {} {:?} chunks {}", name, how, chunk), chunk, Plan::Plain);
            }
            run(&format!("save {} {:?} interrupted", name, how), 2, Plan::AlwaysInterrupt);
        }
    });
    // files, in a process of its own because of the file size limit
    let n = save_files(c);
    c.extra("load_files", json!(loads.len()));
    c.extra("drawings_saved", json!(all.len()));
    c.extra("faulty_saves", json!(saves.load(SeqCst)));
    c.extra("file_size_limits", json!(n));
    c.sample(|| json!({"file": robust::show(&loads[0].1), "faults": "an error of each kind before each byte; an interruption before each byte; transfers of every size"}));
    c.finish(
        "exploration",
        "loading: an error before every byte of each file of a corpus covering every item type in text, binary and DXB, an interruption before every byte, every transfer size up to a bound, all calls interrupted; saving: the same for writes (quick: every 7th byte of the larger drawings), writes that transfer nothing; saving to files: every limit on the file size, full device, no such directory. Errors have to be reported, everything else must not matter",
        &["a stream is assumed to fail once and to go on afterwards, which is the worst case for noticing", "files: the operating system's size limit stands for a full disk"],
        true,
    )
}
fn find(b: &[u8], x: &[u8]) -> Option<usize> {
    b.windows(x.len()).position(|w| w == x)
}
/// Integer coordinates, strings, all state items.
pub fn dxb_integers() -> Vec<u8> {
    let mut b = b"AutoCAD DXB 1.0\r\n\x1a\0".to_vec();
    let mut item = |t: u8, v: &[i16]| {
        b.push(t);
        for x in v {
            b.extend(x.to_le_bytes());
        }
    };
    item(1, &[1, 2, 3, 4, 5, 6]);
    item(2, &[7, 8]);
    item(3, &[1, 2, 3]);
    item(11, &[1, 2, 3, 4, 5, 6, 7, 8]);
    item(136, &[7]);
    item(19, &[1]);
    item(20, &[1, 2]);
    item(20, &[3, 4]);
    item(133, &[7, 1]);
    item(134, &[7, 1]);
    item(17, &[]);
    item(8, &[1, 2, 3, 4, 5, 6, 7]);
    item(130, &[1, 2]);
    b.push(128);
    b.extend(2.5f64.to_le_bytes());
    b.push(129);
    b.extend(b"LAYER\0");
    b.push(135);
    b.extend([1, 0]);
    b.push(137);
    for x in [1.5f32, 2.5, 3.5] {
        b.extend(x.to_le_bytes());
    }
    b.push(0);
    b
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, r: *const RLimit) -> i32;
    fn getrlimit(resource: i32, r: *mut RLimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

fn save_files(c: &Ctx) -> u64 {
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["files", if c.thorough { "thorough" } else { "quick" }, c.only.as_deref().unwrap_or("")])
        .env("TZ", "UTC")
        .output()
        .expect("child");
    let t = String::from_utf8_lossy(&out.stdout).to_string();
    let mut n = 0;
    let mut complete = false;
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("count ") {
            n = x.parse().unwrap_or(0);
            complete = true;
        } else if let Some((k, d)) = l.split_once('\t') {
            c.fail(k, d, || Value::Null);
        }
    }
    c.eval(n);
    if !complete {
        c.fail("saving to files", &format!("the process that saves files ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()), || Value::Null);
    }
    n
}
/// Runs in a process of its own: saves to files under every file size limit.
pub fn child(thorough: bool, only: &str) {
    let dir = std::env::temp_dir().join(format!("dxf-mc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut count = 0u64;
    let mut report = vec![];
    let mut small = crate::catalog::empty_drawing(crate::catalog::VERSIONS[9]);
    small.add_entity(entities::Entity::new(entities::EntityType::Line(Default::default())));
    let large = mixed(20, false, |_| true);
    let dxb = load(&robust::dxb_file()).unwrap();
    let mut old = RLimit { cur: 0, max: 0 };
    unsafe {
        getrlimit(RLIMIT_FSIZE, &mut old);
        signal(SIGXFSZ, 1); // SIG_IGN
    }
    let limit = |n: u64| unsafe {
        setrlimit(RLIMIT_FSIZE, &RLimit { cur: n.min(old.max), max: old.max });
    };
    let cases: [(&str, &Drawing, How); 8] = [
        ("small", &small, How::Text),
        ("small", &small, How::Binary),
        ("dxb", &dxb, How::Dxb),
        ("dxb", &dxb, How::Text),
        ("dxb", &dxb, How::Binary),
        ("large", &large, How::Text),
        ("large", &large, How::Binary),
        ("small", &small, How::Dxb),
    ];
    for (name, d, how) in cases {
        let mut plain = vec![];
        save_to(d, how, &mut plain).unwrap();
        let to = |p: &std::path::Path| match how {
            How::Text => d.save_file(p),
            How::Binary => d.save_file_binary(p),
            How::Dxb => d.save_file_dxb(p),
        };
        let path = dir.join("f");
        let n = plain.len() as u64;
        let step = if name == "large" { 4093 } else if thorough { 1 } else { 11 };
        let mut limits: Vec<u64> = (0..n).step_by(step).collect();
        limits.extend([n - 1, n, n + 1]);
        for near in [8192u64, 16384] {
            limits.extend((near.saturating_sub(3)..near + 3).filter(|x| *x <= n));
        }
        for l in limits {
            let key = format!("save_file {} {:?} with room for {}", name, how, l);
            if !only.is_empty() && only != key {
                continue;
            }
            count += 1;
            let _ = std::fs::remove_file(&path);
            limit(l);
            let r = guard(|| to(&path));
            limit(old.cur);
            let got = std::fs::read(&path).unwrap_or_default();
            match r {
                Err(p) => report.push((key, format!("panic: {}", p))),
                Ok(Ok(())) if got != plain => report.push((key, format!("reported as saved, but the file has {} of {} bytes", got.len(), plain.len()))),
                Ok(Err(e)) if l >= n => report.push((key, format!("there is room, but {:?}", e))),
                _ => (),
            }
        }
        for (what, p) in [("full device", std::path::PathBuf::from("/dev/full")), ("no such directory", dir.join("x/y")), ("a directory", dir.clone())] {
            let key = format!("save_file {} {:?} to {}", name, how, what);
            if !only.is_empty() && only != key {
                continue;
            }
            count += 1;
            match guard(|| to(&p)) {
                Err(p) => report.push((key, format!("panic: {}", p))),
                Ok(Ok(())) => report.push((key, "reported as saved".into())),
                _ => (),
            }
        }
        // over an existing, longer file
        std::fs::write(&path, vec![b'9'; plain.len() + 1000]).unwrap();
        let key = format!("save_file {} {:?} over a longer file", name, how);
        count += 1;
        match guard(|| to(&path)) {
            Ok(Ok(())) if std::fs::read(&path).unwrap() == plain => match guard(|| Drawing::load_file(&path)) {
                Ok(Ok(l)) => {
                    let want = load(&plain).map(|d| content(&d)).unwrap_or(Value::Null);
                    if content(&l) != want {
                        report.push((key, "load_file differs from load".into()))
                    }
                }
                x => report.push((key, format!("load_file: {:?}", x.map(|r| r.map(|_| ()))))),
            },
            x => report.push((key, format!("not the bytes of save: {:?}", x))),
        }
    }
    for (what, p) in [("nothing", dir.join("none")), ("a directory", dir.clone())] {
        count += 1;
        if !matches!(guard(|| Drawing::load_file(&p)), Ok(Err(_))) {
            report.push((format!("load_file of {}", what), "not an error".into()));
        }
    }
    let _ = std::fs::remove_file(dir.join("f"));
    let _ = std::fs::remove_dir(&dir);
    for (k, d) in report.iter().take(100) {
        println!("{}\t{}", k, d);
    }
    println!("count {}", count);
}
