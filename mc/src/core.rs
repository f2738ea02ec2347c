//! Shared explorer plumbing: parallel exhaustive enumeration, panic/abort/hang/allocation capture, known findings,
//! violation reports with replay files, evidence.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

// ------------------------------------------------------------------ allocation accounting (per thread)
pub struct Alloc;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if note(l.size() as isize) {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if note(n as isize - l.size() as isize) {
            System.realloc(p, l, n)
        } else {
            std::ptr::null_mut()
        }
    }
}
fn note(d: isize) -> bool {
    LIVE.try_with(|c| {
        let v = c.get() + d;
        if d > 0 && v > LIMIT.with(|l| l.get()) {
            return false;
        }
        c.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}
/// Peak additional bytes this thread held during f. Beyond `limit` bytes the allocation fails (process abort, reported by the supervisor).
pub fn with_alloc_limit<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    LIMIT.with(|l| l.set(base + limit as isize));
    let r = f();
    LIMIT.with(|l| l.set(isize::MAX));
    (r, (PEAK.with(|p| p.get()) - base).max(0) as usize)
}

// ------------------------------------------------------------------ panics
thread_local! { static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        LIMIT.with(|l| l.set(isize::MAX));
        let m = i.to_string().replace('\n', " ");
        let _ = LAST_PANIC.try_with(|c| c.set(Some(m)));
    }));
}
/// Runs f; a panic becomes Err("PANIC <message>").
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("PANIC {}", LAST_PANIC.with(|c| c.take()).unwrap_or_default())),
    }
}

// ------------------------------------------------------------------ context
pub struct Known {
    pub property: String,
    pub pattern: String,
    pub what: String,
}
pub struct Violation {
    pub key: String,
    pub detail: String,
    pub repro: Value,
}
pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub only: Option<String>,
    pub verif: PathBuf,
    pub evaluations: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    violations: Mutex<Vec<Violation>>,
    total_violations: AtomicU64,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<usize, String>>,
    samples: Mutex<Vec<Value>>,
    extra: Mutex<BTreeMap<String, Value>>,
    slots: Option<File>,
    beats: Vec<AtomicU64>,
    start: Instant,
    pub dump: Option<Mutex<File>>,
}
pub fn hash64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..x.len()].copy_from_slice(x);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h ^ b.len() as u64
}
thread_local! { static SLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }
pub const SLOT_BYTES: usize = 2048;

fn glob(p: &str, s: &str) -> bool {
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 {
        return p == s;
    }
    let mut rest = s;
    for (i, x) in parts.iter().enumerate() {
        if i == 0 {
            match rest.strip_prefix(x) {
                Some(r) => rest = r,
                None => return false,
            }
        } else if i == parts.len() - 1 {
            return rest.ends_with(x);
        } else {
            match rest.find(x) {
                Some(j) => rest = &rest[j + x.len()..],
                None => return false,
            }
        }
    }
    true
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, only: Option<String>, verif: PathBuf, slots: Option<File>) -> Ctx {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(verif.join("known_findings.json")) {
            let v: Value = serde_json::from_str(&t).expect("known_findings.json");
            for k in v["findings"].as_array().unwrap() {
                if k["property"] == prop {
                    known.push(Known {
                        property: prop.into(),
                        pattern: k["match"].as_str().unwrap().into(),
                        what: k["what"].as_str().unwrap().into(),
                    });
                }
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            only,
            verif,
            evaluations: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            distinct: Default::default(),
            violations: Default::default(),
            total_violations: AtomicU64::new(0),
            known,
            known_hit: Default::default(),
            samples: Default::default(),
            extra: Default::default(),
            slots,
            beats: (0..256).map(|_| AtomicU64::new(0)).collect(),
            start: Instant::now(),
            dump: std::env::var("MC_DUMP").ok().map(|p| Mutex::new(File::create(p).unwrap())),
        }
    }
    pub fn eval(&self, n: u64) {
        self.evaluations.fetch_add(n, SeqCst);
    }
    /// Counts one distinct non-trivial case, by content.
    pub fn distinct(&self, b: &[u8]) {
        let h = hash64(b);
        self.distinct.lock().unwrap().insert(h);
    }
    pub fn distinct_many(&self, hs: impl IntoIterator<Item = u64>) {
        self.distinct.lock().unwrap().extend(hs);
    }
    pub fn count_distinct(&self) -> u64 {
        self.distinct.lock().unwrap().len() as u64
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            let v = v();
            s.push(v);
        }
    }
    pub fn extra(&self, k: &str, v: Value) {
        self.extra.lock().unwrap().insert(k.into(), v);
    }
    pub fn skip(&self, key: &str) -> bool {
        match &self.only {
            Some(o) => !(o == key || (o.ends_with('*') && glob(o, key))),
            None => false,
        }
    }
    pub fn dump(&self, line: &str) {
        if let Some(d) = &self.dump {
            use std::io::Write;
            writeln!(d.lock().unwrap(), "{}", line).unwrap();
        }
    }
    /// Reports a failing case. `key` identifies the case exactly; it is matched against the known findings.
    pub fn fail(&self, key: &str, detail: &str, repro: impl FnOnce() -> Value) {
        self.dump(&format!("{}\t{}", key, detail));
        for (i, k) in self.known.iter().enumerate() {
            if glob(&k.pattern, key) {
                self.known_hit.lock().unwrap().entry(i).or_insert_with(|| format!("{} [{}: {}]", k.what, key, detail.chars().take(160).collect::<String>()));
                return;
            }
        }
        self.total_violations.fetch_add(1, SeqCst);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 25 {
            v.push(Violation { key: key.into(), detail: detail.into(), repro: repro() });
        }
    }
    pub fn failing(&self) -> bool {
        self.total_violations.load(SeqCst) > 200 && self.dump.is_none()
    }
    /// Publishes what this thread is about to run, for the supervisor and the watchdog.
    pub fn begin(&self, label: &str) {
        let s = SLOT.with(|s| s.get());
        if s == usize::MAX {
            return;
        }
        self.beats[s].store(self.start.elapsed().as_millis() as u64 + 1, SeqCst);
        if let Some(f) = &self.slots {
            let mut b = [b' '; SLOT_BYTES];
            let n = label.len().min(SLOT_BYTES - 1);
            b[..n].copy_from_slice(&label.as_bytes()[..n]);
            b[n] = b'\n';
            let _ = f.write_at(&b[..n + 1], (s * SLOT_BYTES) as u64);
        }
    }
    pub fn end(&self) {
        let s = SLOT.with(|s| s.get());
        if s == usize::MAX {
            return;
        }
        self.beats[s].store(0, SeqCst);
        if let Some(f) = &self.slots {
            let _ = f.write_at(b"\n", (s * SLOT_BYTES) as u64);
        }
    }
    pub fn threads(&self) -> usize {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 16)
    }
    /// Runs f(i) for every i in 0..n, on all cores. Stops early only once many violations were found.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let t = self.threads();
        let chunk = (n / (t * 64)).clamp(1, 256);
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..t)
                .map(|k| {
                    let (next, f) = (&next, &f);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            SLOT.with(|s| s.set(k));
                            loop {
                                let a = next.fetch_add(chunk, SeqCst);
                                if a >= n || self.failing() {
                                    break;
                                }
                                for i in a..(a + chunk).min(n) {
                                    f(i);
                                }
                            }
                            self.end();
                        })
                        .unwrap()
                })
                .collect();
            let done = &done;
            // watchdog
            s.spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(50));
                if done.load(SeqCst) {
                    break;
                }
                let now = self.start.elapsed().as_millis() as u64;
                for b in &self.beats {
                    let v = b.load(SeqCst);
                    if v != 0 && now > v + 60_000 {
                        std::process::exit(99);
                    }
                }
            });
            for h in hs {
                h.join().expect("explorer thread died");
            }
            done.store(true, SeqCst);
        });
    }
    /// Prints the verdict, writes evidence and replay files; returns the exit code.
    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str], exhaustive: bool) -> i32 {
        let vs = self.violations.lock().unwrap();
        let hits = self.known_hit.lock().unwrap();
        for (_, h) in hits.iter() {
            println!("KNOWN-FINDING: property={} {}", self.prop, h);
        }
        let mut cov = serde_json::Map::new();
        let nd = self.distinct.lock().unwrap().len() as u64;
        if level == "model_checking" {
            cov.insert("states".into(), json!(self.states.load(SeqCst)));
            cov.insert("transitions".into(), json!(self.transitions.load(SeqCst)));
            cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(SeqCst)));
            if nd > 0 {
                cov.insert("distinct_nontrivial".into(), json!(nd));
            }
        } else {
            cov.insert("evaluations".into(), json!(self.evaluations.load(SeqCst)));
            cov.insert("distinct_nontrivial".into(), json!(nd));
        }
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        cov.insert("exhaustive".into(), json!(exhaustive && self.only.is_none() && !self.failing()));
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        cov.insert("known_findings_seen".into(), json!(hits.len()));
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.total_violations.load(SeqCst),
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!(
            "{}: {} evaluations, {} distinct, {} states, {} transitions, {} violations, {:.1} s",
            self.prop,
            self.evaluations.load(SeqCst),
            nd,
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.total_violations.load(SeqCst),
            self.start.elapsed().as_secs_f64()
        );
        for (i, v) in vs.iter().enumerate() {
            let p = dir.join("replay").join(format!("{}-{}.json", self.prop, i));
            let doc = json!({
                "property": self.prop, "case": v.key, "detail": v.detail, "repro": v.repro,
                "replay_cmd": format!("bash check.sh {} {} '{}'", self.prop, if self.thorough {"thorough"} else {"quick"}, v.key),
            });
            std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
            println!("  case {}: {}", v.key, v.detail.chars().take(400).collect::<String>());
            println!("VIOLATION property={} replay={}", self.prop, p.display());
        }
        if vs.is_empty() {
            0
        } else {
            1
        }
    }
}
#[allow(dead_code)]
pub fn set_of<T: Ord>(i: impl IntoIterator<Item = T>) -> BTreeSet<T> {
    i.into_iter().collect()
}
