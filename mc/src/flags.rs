//! C23: named flags.
use crate::catalog::*;
use crate::core::*;
use crate::gen;
use crate::util::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

pub type Flag<T> = (&'static str, fn(&T) -> bool, fn(&mut T, bool));
pub struct Host<T> {
    pub name: &'static str,
    pub place: &'static str,
    pub fs: Vec<Flag<T>>,
}
pub trait Flags {
    fn check(&self, c: &Ctx);
}
/// Sets of flags to start from: all of them when there are few, otherwise all small sets and their complements.
fn states(n: usize, k: usize) -> Vec<u64> {
    if n <= 11 {
        return (0..1u64 << n).collect();
    }
    let all = (1u64 << n) - 1;
    let mut out = vec![];
    fn go(n: usize, from: usize, k: usize, cur: u64, out: &mut Vec<u64>) {
        out.push(cur);
        if k == 0 {
            return;
        }
        for i in from..n {
            go(n, i + 1, k - 1, cur | 1 << i, out);
        }
    }
    go(n, 0, k, 0, &mut out);
    let m = out.len();
    for i in 0..m {
        out.push(all & !out[i]);
    }
    out.sort();
    out.dedup();
    out
}
impl<T: Default + Clone + Serialize + DeserializeOwned> Flags for Host<T> {
    fn check(&self, c: &Ctx) {
        let n = self.fs.len();
        c.extra(self.name, json!(n));
        let key0 = self.name;
        let base = T::default();
        let get = |o: &T| -> u64 { self.fs.iter().enumerate().fold(0, |a, (i, f)| a | (f.1(o) as u64) << i) };
        let fields = |o: &T| serde_json::to_value(o).unwrap();
        // raw starting points: the default and, for each whole-number field holding flags, all bits set
        let mut bases = vec![("default".to_string(), base.clone())];
        let j = fields(&base);
        let mut flag_fields: Vec<String> = vec![];
        for f in &self.fs {
            let mut x = base.clone();
            let v = f.1(&x);
            f.2(&mut x, !v);
            let jx = fields(&x);
            for (k, a) in j.as_object().unwrap() {
                if jx[k] != *a && !flag_fields.contains(k) {
                    flag_fields.push(k.clone());
                }
            }
        }
        for k in &flag_fields {
            for raw in [0i64, 0x7FFF, -1] {
                let mut jj = j.clone();
                jj[k] = json!(raw);
                if let Ok(o) = serde_json::from_value::<T>(jj) {
                    bases.push((format!("{}={}", k, raw), o));
                }
            }
        }
        for (bn, b) in &bases {
            for st in states(n, if bn == "default" { 3 } else { 1 }) {
                let mut o = b.clone();
                for (i, f) in self.fs.iter().enumerate() {
                    f.2(&mut o, st >> i & 1 != 0);
                }
                let key = format!("{}/{}/{:x}", key0, bn, st);
                if c.skip(&key) {
                    continue;
                }
                c.begin(&key);
                c.eval(2 * n as u64);
                c.distinct(key.as_bytes());
                let g = get(&o);
                if g != st {
                    let which: Vec<&str> = self.fs.iter().enumerate().filter(|(i, _)| (g ^ st) >> i & 1 != 0).map(|(_, f)| f.0).collect();
                    c.fail(&key, &format!("set {:b} but got {:b}; differ: {:?}", st, g, which), || json!({"type": self.name}));
                    continue;
                }
                let before = fields(&o);
                for (i, f) in self.fs.iter().enumerate() {
                    for val in [true, false] {
                        let mut x = o.clone();
                        f.2(&mut x, val);
                        let want = if val { st | 1 << i } else { st & !(1 << i) };
                        let got = get(&x);
                        let after = fields(&x);
                        let changed: Vec<&String> = before.as_object().unwrap().keys().filter(|k| before[*k] != after[*k]).collect();
                        let one_bit = changed.iter().all(|k| match (before[*k].as_i64(), after[*k].as_i64()) {
                            (Some(a), Some(b)) => ((a ^ b) as u64).count_ones() == 1 || ((a ^ b) as u32).count_ones() == 1,
                            _ => before[*k].is_boolean(),
                        });
                        let count_ok = changed.len() == usize::from(want != st);
                        if got != want || !one_bit || !count_ok {
                            c.fail(&format!("{} set {}={}", key, f.0, val), &format!("flags {:b} -> {:b}, expected {:b}; fields changed {:?}", st, got, want, changed), || json!({"type": self.name, "flag": f.0}));
                        }
                    }
                }
            }
        }
        // through files
        let ver_of = |name: &str| match name {
            "RText" | "ArcAlignedText" => 15,
            _ => 20,
        };
        let (kind, tag) = match self.place.split_once(':') {
            Some(("entity", t)) => (Kind::Entity, t),
            Some(("object", t)) => (Kind::Object, t),
            _ => match self.place {
                "header" => (Kind::Header, ""),
                "block" => (Kind::Block, ""),
                "class" => (Kind::Class, ""),
                _ => return,
            },
        };
        let host = types_of(kind).into_iter().find(|(t, _)| tag.is_empty() || t == tag).unwrap().1;
        let vers: Vec<usize> = if c.thorough { vec![ver_of(self.name), 14, 16, 15] } else { vec![ver_of(self.name)] };
        let vers = if self.name == "Header" { vec![20, 14] } else { vers };
        // the object snap modes are header variables up to R14 only, the sorting flags later only
        let kept = |f: &str, ver: usize| match self.name {
            "Header" => (f.ends_with("_snap") && !f.starts_with("sort_")) == (ver == 14),
            _ => ver == ver_of(self.name),
        };
        for st in states(n, if c.thorough { 2 } else { 1 }) {
            if n <= 11 && n > 8 && !c.thorough && st.count_ones() > 2 && st.count_ones() < n as u32 - 2 {
                continue;
            }
            for &ver in &vers {
                if self.name == "RText" && ver > 15 {
                    continue;
                }
                for bin in [false, true] {
                    let key = format!("{}/file/{:x}@{:?}/{}", key0, st, VERSIONS[ver], enc(bin));
                    if c.skip(&key) {
                        continue;
                    }
                    c.begin(&key);
                    c.eval(1);
                    let mut v = host.clone();
                    let r = guard(|| -> Result<u64, String> {
                        let at: &mut Value = if tag.is_empty() { &mut v } else { &mut v["specific"][tag] };
                        let mut o: T = serde_json::from_value(at.clone()).map_err(|e| e.to_string())?;
                        for (i, f) in self.fs.iter().enumerate() {
                            f.2(&mut o, st >> i & 1 != 0);
                        }
                        *at = serde_json::to_value(&o).unwrap();
                        let mut d = empty_drawing(VERSIONS[ver]);
                        put(kind, &mut d, &v)?;
                        let d = load(&save(&d, bin)?)?;
                        let mut g = super::catalog::get(kind, &d);
                        if g.is_empty() {
                            return Err("item is gone".into());
                        }
                        let mut g = g.remove(0);
                        let back = if tag.is_empty() { g.take() } else { g["specific"][tag].take() };
                        let o: T = serde_json::from_value(back).map_err(|e| e.to_string())?;
                        Ok(get(&o))
                    });
                    match r {
                        Ok(Ok(g)) if g == st => (),
                        Ok(Ok(g)) => {
                            let which: Vec<&str> = self.fs.iter().enumerate().filter(|(i, _)| (g ^ st) >> i & 1 != 0).map(|(_, f)| f.0).collect();
                            // (older versions do not have all of the fields)
                            if which.iter().any(|w| kept(w, ver)) {
                                c.fail(&key, &format!("came back as {:b} instead of {:b}; differ: {:?}", g, st, which), || json!({"item": v}));
                            }
                        }
                        x => c.fail(&key, &format!("{:?}", x), || json!({"item": v})),
                    }
                }
            }
        }
        c.end();
        let _ = gen::short;
    }
}
pub fn run(c: &Ctx) -> i32 {
    struct P(*const dyn Flags);
    unsafe impl Sync for P {}
    let n = std::sync::Mutex::new(0);
    crate::api_flags::all(&mut |_| *n.lock().unwrap() += 1);
    let n = *n.lock().unwrap();
    c.par(n, |k| {
        let mut i = 0;
        crate::api_flags::all(&mut |h| {
            if i == k {
                h.check(c);
            }
            i += 1;
        });
    });
    c.finish(
        "exploration",
        "every type with named flags: every combination of flags (all small sets and complements for types with more than 11), from default and all-bits raw values; every flag set and cleared in each; and through files; distinct by type, start and combination",
        &[],
        true,
    )
}
