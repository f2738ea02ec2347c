//! Discovers the serde shape of any `Deserialize` type by running its `Deserialize` impl against a
//! probing deserializer, again and again until every enum variant reachable in it has been entered.
//! The result is a flat map path -> node, so that every field of every type is enumerated without
//! a hand-written field list.
use serde::de::{self, Deserialize, DeserializeSeed, IntoDeserializer, Visitor};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Bool,
    Int(i128, i128),
    F64,
    Str,
    Char,
    Date,
    Uuid,
    Unit,
    Option,
    Seq,
    /// string-keyed map; value node at path + "{}"
    Map,
    Tuple(usize),
    Struct(String, Vec<String>),
    Newtype(String),
    /// variant names; payload nodes live at path + "::V"
    Enum(String, Vec<String>),
}

#[derive(Default)]
pub struct Shape {
    pub nodes: BTreeMap<String, Node>,
    explored: BTreeMap<String, Vec<bool>>,
    /// unit / newtype / tuple / struct, by path + "::V"
    pub payload: BTreeMap<String, Payload>,
    progress: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Payload {
    Unit,
    Newtype,
    Tuple(usize),
    Struct(Vec<String>),
}

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

const MAX_DEPTH: usize = 9;

pub fn trace<'de, T: Deserialize<'de>>() -> Shape {
    let shape = RefCell::new(Shape::default());
    loop {
        shape.borrow_mut().progress = false;
        let p = Probe { s: &shape, path: String::new(), depth: 0 };
        if let Err(e) = T::deserialize(p) {
            panic!("shape probe failed: {}", e);
        }
        if !shape.borrow().progress {
            break;
        }
    }
    shape.into_inner()
}

#[derive(Clone)]
struct Probe<'a> {
    s: &'a RefCell<Shape>,
    path: String,
    depth: usize,
}
impl Probe<'_> {
    fn set(&self, n: Node) {
        self.s.borrow_mut().nodes.insert(self.path.clone(), n);
    }
    fn sub(&self, suffix: &str) -> Self {
        Probe { s: self.s, path: format!("{}{}", self.path, suffix), depth: self.depth + 1 }
    }
}

struct Exp<'a, V>(&'a V);
impl<'de, V: Visitor<'de>> fmt::Display for Exp<'_, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.expecting(f)
    }
}

macro_rules! prim {
    ($($f:ident $v:ident $t:ty),*) => { $(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            self.set(Node::Int(<$t>::MIN as i128, <$t>::MAX as i128));
            v.$v(0)
        }
    )* };
}

impl<'de> de::Deserializer<'de> for Probe<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> {
        Err(Error(format!("any at {}", self.path)))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.set(Node::Bool);
        v.visit_bool(false)
    }
    prim!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
          deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.set(Node::F64);
        v.visit_f32(0.0)
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.set(Node::F64);
        v.visit_f64(0.0)
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.set(Node::Char);
        v.visit_char('c')
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let e = Exp(&v).to_string().to_lowercase();
        if e.contains("uuid") {
            self.set(Node::Uuid);
            v.visit_str("00000000-0000-0000-0000-000000000001")
        } else if e.contains("3339") || e.contains("date") {
            self.set(Node::Date);
            v.visit_str("2001-02-03T04:05:06+00:00")
        } else {
            self.set(Node::Str);
            v.visit_str("s")
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> {
        Err(Error(format!("bytes at {}", self.path)))
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.set(Node::Option);
        if self.depth > MAX_DEPTH {
            return v.visit_none();
        }
        v.visit_some(self.sub("?"))
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.set(Node::Unit);
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, Error> {
        self.set(Node::Unit);
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, Error> {
        self.set(Node::Newtype(n.to_string()));
        v.visit_newtype_struct(self.sub("!"))
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.set(Node::Seq);
        let n = if self.depth > MAX_DEPTH { 0 } else { 1 };
        v.visit_seq(SeqP { p: self, i: 0, n, tuple: false })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        self.set(Node::Tuple(n));
        v.visit_seq(SeqP { p: self, i: 0, n, tuple: true })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _s: &'static str, n: usize, v: V) -> Result<V::Value, Error> {
        self.deserialize_tuple(n, v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.set(Node::Map);
        v.visit_map(StrMapP { p: self, done: false })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.set(Node::Struct(n.to_string(), f.iter().map(|x| x.to_string()).collect()));
        v.visit_map(MapP { p: self, f, i: 0 })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, n: &'static str, vs: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.set(Node::Enum(n.to_string(), vs.iter().map(|x| x.to_string()).collect()));
        let idx = {
            let mut s = self.s.borrow_mut();
            let e = s.explored.entry(self.path.clone()).or_insert_with(|| vec![false; vs.len()]);
            match e.iter().position(|x| !x) {
                Some(i) if self.depth <= MAX_DEPTH => {
                    e[i] = true;
                    s.progress = true;
                    i
                }
                _ => {
                    // a variant with something unexplored inside
                    let inside = |i: &usize| {
                        let p = format!("{}::{}", self.path, vs[*i]);
                        s.explored.range(p.clone()..).take_while(|(k, _)| k.starts_with(&p)).any(|(k, e)| {
                            (k[p.len()..].is_empty() || k[p.len()..].starts_with(['.', ':', '[', '?', '!', '{'])) && e.iter().any(|x| !x)
                        })
                    };
                    (0..vs.len()).find(inside).unwrap_or(0)
                }
            }
        };
        v.visit_enum(EnumP { p: self, v: vs[idx] })
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> {
        Err(Error("identifier".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
}
struct SeqP<'a> {
    p: Probe<'a>,
    i: usize,
    n: usize,
    tuple: bool,
}
impl<'de> de::SeqAccess<'de> for SeqP<'_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.i >= self.n {
            return Ok(None);
        }
        let suffix = if self.tuple { format!("[{}]", self.i) } else { "[]".to_string() };
        self.i += 1;
        seed.deserialize(self.p.sub(&suffix)).map(Some)
    }
}
struct MapP<'a> {
    p: Probe<'a>,
    f: &'static [&'static str],
    i: usize,
}
impl<'de> de::MapAccess<'de> for MapP<'_> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        if self.i >= self.f.len() {
            return Ok(None);
        }
        let d: de::value::StrDeserializer<Error> = self.f[self.i].into_deserializer();
        seed.deserialize(d).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        let p = self.p.sub(&format!(".{}", self.f[self.i]));
        self.i += 1;
        seed.deserialize(p)
    }
}
struct StrMapP<'a> {
    p: Probe<'a>,
    done: bool,
}
impl<'de> de::MapAccess<'de> for StrMapP<'_> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        if self.done {
            return Ok(None);
        }
        self.done = true;
        let d: de::value::StrDeserializer<Error> = "k".into_deserializer();
        seed.deserialize(d).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        seed.deserialize(self.p.sub("{}"))
    }
}
struct EnumP<'a> {
    p: Probe<'a>,
    v: &'static str,
}
impl<'de, 'a> de::EnumAccess<'de> for EnumP<'a> {
    type Error = Error;
    type Variant = VarP<'a>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, VarP<'a>), Error> {
        let d: de::value::StrDeserializer<Error> = self.v.into_deserializer();
        let r = seed.deserialize(d)?;
        let p = self.p.sub(&format!("::{}", self.v));
        Ok((r, VarP { p }))
    }
}
struct VarP<'a> {
    p: Probe<'a>,
}
impl VarP<'_> {
    fn pay(&self, x: Payload) {
        self.p.s.borrow_mut().payload.insert(self.p.path.clone(), x);
    }
}
impl<'de> de::VariantAccess<'de> for VarP<'_> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        self.pay(Payload::Unit);
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> {
        self.pay(Payload::Newtype);
        seed.deserialize(self.p)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        self.pay(Payload::Tuple(n));
        v.visit_seq(SeqP { p: self.p, i: 0, n, tuple: true })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.pay(Payload::Struct(f.iter().map(|x| x.to_string()).collect()));
        v.visit_map(MapP { p: self.p, f, i: 0 })
    }
}
