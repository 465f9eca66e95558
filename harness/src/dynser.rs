//! Values of any type of the serde data model, driven by a schema: a stand-in for the code that
//! serde's derive macros generate. Schemas and values are nodes (see spec/Serde.tla).
use crate::node::{nd, Node};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;

thread_local! {
    static NAMES: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
    static LISTS: RefCell<HashMap<Vec<String>, &'static [&'static str]>> = RefCell::new(HashMap::new());
}
fn name(s: &str) -> &'static str {
    NAMES.with(|m| *m.borrow_mut().entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str())))
}
fn list(ss: Vec<String>) -> &'static [&'static str] {
    LISTS.with(|m| {
        *m.borrow_mut().entry(ss.clone()).or_insert_with(|| {
            let v: Vec<&'static str> = ss.iter().map(|s| name(s)).collect();
            Box::leak(v.into_boxed_slice())
        })
    })
}

fn num<T: std::str::FromStr>(s: &str) -> T {
    s.parse().ok().unwrap_or_else(|| panic!("case: number {s}"))
}
fn float(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{v}")
    }
}
fn float32(v: f32) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{v}")
    }
}

// ------------------------------------------------------------------ values

pub struct Val<'a>(pub &'a Node, pub &'a Node); // schema, value

struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

impl<'a> Serialize for Val<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let (sc, v) = (self.0, self.1);
        match sc.t.as_str() {
            "bool" => s.serialize_bool(v.s == "true"),
            "i8" => s.serialize_i8(num(&v.s)),
            "i16" => s.serialize_i16(num(&v.s)),
            "i32" => s.serialize_i32(num(&v.s)),
            "i64" => s.serialize_i64(num(&v.s)),
            "i128" => s.serialize_i128(num(&v.s)),
            "u8" => s.serialize_u8(num(&v.s)),
            "u16" => s.serialize_u16(num(&v.s)),
            "u32" => s.serialize_u32(num(&v.s)),
            "u64" => s.serialize_u64(num(&v.s)),
            "u128" => s.serialize_u128(num(&v.s)),
            "f32" => s.serialize_f32(num(&v.s)),
            "f64" => s.serialize_f64(num(&v.s)),
            "char" => s.serialize_char(v.s.chars().next().expect("case: char")),
            "str" => s.serialize_str(&v.s),
            "bytes" => Bytes(v.c.iter().map(|b| num(&b.s)).collect()).serialize(s),
            "unit" => s.serialize_unit(),
            "opt" => {
                if v.t == "none" {
                    s.serialize_none()
                } else {
                    s.serialize_some(&Val(&sc.c[0], &v.c[0]))
                }
            }
            "seq" => {
                let mut q = s.serialize_seq(Some(v.c.len()))?;
                for x in &v.c {
                    q.serialize_element(&Val(&sc.c[0], x))?;
                }
                q.end()
            }
            "tuple" => {
                let mut q = s.serialize_tuple(v.c.len())?;
                for (t, x) in sc.c.iter().zip(&v.c) {
                    q.serialize_element(&Val(t, x))?;
                }
                q.end()
            }
            "map" => {
                let mut q = s.serialize_map(Some(v.c.len()))?;
                for x in &v.c {
                    q.serialize_entry(&Val(&sc.c[0], &x.c[0]), &Val(&sc.c[1], &x.c[1]))?;
                }
                q.end()
            }
            "struct" => {
                let mut q = s.serialize_struct(name(&sc.k), v.c.len())?;
                for (f, x) in sc.c.iter().zip(&v.c) {
                    q.serialize_field(name(&f.k), &Val(&f.c[0], &x.c[0]))?;
                }
                q.end()
            }
            "ustruct" => s.serialize_unit_struct(name(&sc.k)),
            "nstruct" => s.serialize_newtype_struct(name(&sc.k), &Val(&sc.c[0], &v.c[0])),
            "tstruct" => {
                let mut q = s.serialize_tuple_struct(name(&sc.k), v.c.len())?;
                for (t, x) in sc.c.iter().zip(&v.c) {
                    q.serialize_field(&Val(t, x))?;
                }
                q.end()
            }
            "enum" => {
                let (i, var) = sc.c.iter().enumerate().find(|(_, x)| x.k == v.k).expect("case: variant");
                let (en, vn) = (name(&sc.k), name(&var.k));
                match var.t.as_str() {
                    "uv" => s.serialize_unit_variant(en, i as u32, vn),
                    "nv" => s.serialize_newtype_variant(en, i as u32, vn, &Val(&var.c[0], &v.c[0])),
                    "tv" => {
                        let mut q = s.serialize_tuple_variant(en, i as u32, vn, v.c.len())?;
                        for (t, x) in var.c.iter().zip(&v.c) {
                            q.serialize_field(&Val(t, x))?;
                        }
                        q.end()
                    }
                    _ => {
                        let mut q = s.serialize_struct_variant(en, i as u32, vn, v.c.len())?;
                        for (f, x) in var.c.iter().zip(&v.c) {
                            q.serialize_field(name(&f.k), &Val(&f.c[0], &x.c[0]))?;
                        }
                        q.end()
                    }
                }
            }
            x => Err(ser::Error::custom(format!("case: schema {x}"))),
        }
    }
}

/// The value as the specification compares it (floats in Rust's shortest notation).
pub fn canonical(sc: &Node, v: &Node) -> Node {
    let mut r = v.clone();
    match sc.t.as_str() {
        "f32" => r.s = float32(num(&v.s)),
        "f64" => r.s = float(num(&v.s)),
        "opt" => {
            if v.t == "some" {
                r.c[0] = canonical(&sc.c[0], &v.c[0])
            }
        }
        "seq" => r.c = v.c.iter().map(|x| canonical(&sc.c[0], x)).collect(),
        "map" => {
            for x in r.c.iter_mut() {
                x.c = vec![canonical(&sc.c[0], &x.c[0]), canonical(&sc.c[1], &x.c[1])]
            }
        }
        "tuple" | "tstruct" | "nstruct" => r.c = sc.c.iter().zip(&v.c).map(|(t, x)| canonical(t, x)).collect(),
        "struct" => {
            for (f, x) in sc.c.iter().zip(r.c.iter_mut()) {
                x.c[0] = canonical(&f.c[0], &x.c[0])
            }
        }
        "enum" => {
            let var = sc.c.iter().find(|x| x.k == v.k).expect("case: variant");
            for (f, x) in var.c.iter().zip(r.c.iter_mut()) {
                if var.t == "sv" {
                    x.c[0] = canonical(&f.c[0], &x.c[0])
                } else {
                    *x = canonical(f, x)
                }
            }
        }
        _ => (),
    }
    r
}

// ------------------------------------------------------------------ types

#[derive(Clone, Copy)]
pub struct Ty<'a>(pub &'a Node);

fn field(k: &str, v: Node) -> Node {
    Node { t: "el".into(), s: String::new(), k: k.into(), a: String::new(), c: vec![v] }
}
fn named(t: &str, k: &str, c: Vec<Node>) -> Node {
    Node { t: t.into(), s: String::new(), k: k.into(), a: String::new(), c }
}

struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("identifier")
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
                Ok(v.to_string())
            }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<String, E> {
                Ok(format!("#{v}"))
            }
        }
        d.deserialize_identifier(V)
    }
}

/// Elements of the given types, in order, as derived tuple code reads them.
struct TupleV<'a>(&'a [Node], &'static str, String);
impl<'a, 'de> Visitor<'de> for TupleV<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut q: A) -> Result<Node, A::Error> {
        let mut c = Vec::new();
        for (i, t) in self.0.iter().enumerate() {
            match q.next_element_seed(Ty(t))? {
                Some(v) => c.push(v),
                None => return Err(de::Error::invalid_length(i, &"more elements")),
            }
        }
        Ok(named(self.1, &self.2, c))
    }
}

/// Named fields, as derived struct code reads them.
struct StructV<'a>(&'a [Node], &'static str, String);
impl<'a, 'de> Visitor<'de> for StructV<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut q: A) -> Result<Node, A::Error> {
        let mut c = Vec::new();
        for (i, f) in self.0.iter().enumerate() {
            match q.next_element_seed(Ty(&f.c[0]))? {
                Some(v) => c.push(field(&f.k, v)),
                None => return Err(de::Error::invalid_length(i, &"more elements")),
            }
        }
        Ok(named(self.1, &self.2, c))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Node, A::Error> {
        let mut got: Vec<Option<Node>> = self.0.iter().map(|_| None).collect();
        while let Some(k) = m.next_key_seed(Ident)? {
            match self.0.iter().position(|f| f.k == k) {
                Some(i) => {
                    if got[i].is_some() {
                        return Err(de::Error::custom("duplicate field"));
                    }
                    got[i] = Some(m.next_value_seed(Ty(&self.0[i].c[0]))?);
                }
                None => {
                    m.next_value::<de::IgnoredAny>()?;
                }
            }
        }
        let mut c = Vec::new();
        for (f, g) in self.0.iter().zip(got) {
            match g {
                Some(v) => c.push(field(&f.k, v)),
                None if f.c[0].t == "opt" => c.push(field(&f.k, nd("none", "", vec![]))),
                None => return Err(de::Error::custom("missing field")),
            }
        }
        Ok(named(self.1, &self.2, c))
    }
}

macro_rules! prim {
    ($t:ty, $d:expr, $n:expr) => {
        <$t>::deserialize($d).map(|v| nd($n, &v.to_string(), vec![]))
    };
}

impl<'a, 'de> DeserializeSeed<'de> for Ty<'a> {
    type Value = Node;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        let sc = self.0;
        match sc.t.as_str() {
            "bool" => prim!(bool, d, "bool"),
            "i8" => prim!(i8, d, "i8"),
            "i16" => prim!(i16, d, "i16"),
            "i32" => prim!(i32, d, "i32"),
            "i64" => prim!(i64, d, "i64"),
            "i128" => prim!(i128, d, "i128"),
            "u8" => prim!(u8, d, "u8"),
            "u16" => prim!(u16, d, "u16"),
            "u32" => prim!(u32, d, "u32"),
            "u64" => prim!(u64, d, "u64"),
            "u128" => prim!(u128, d, "u128"),
            "f32" => f32::deserialize(d).map(|v| nd("f32", &float32(v), vec![])),
            "f64" => f64::deserialize(d).map(|v| nd("f64", &float(v), vec![])),
            "char" => prim!(char, d, "char"),
            "str" => prim!(String, d, "str"),
            "unit" => <()>::deserialize(d).map(|_| nd("unit", "", vec![])),
            "ign" => de::IgnoredAny::deserialize(d).map(|_| nd("ign", "", vec![])),
            "any" => Any.deserialize(d),
            "bytes" => {
                struct V;
                impl<'de> Visitor<'de> for V {
                    type Value = Node;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("bytes")
                    }
                    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Node, E> {
                        Ok(nd("bytes", "", v.iter().map(|b| nd("u8", &b.to_string(), vec![])).collect()))
                    }
                    fn visit_seq<A: SeqAccess<'de>>(self, mut q: A) -> Result<Node, A::Error> {
                        let mut c = Vec::new();
                        while let Some(b) = q.next_element::<u8>()? {
                            c.push(nd("u8", &b.to_string(), vec![]));
                        }
                        Ok(nd("bytes", "", c))
                    }
                }
                d.deserialize_byte_buf(V)
            }
            "opt" => {
                struct V<'a>(&'a Node);
                impl<'a, 'de> Visitor<'de> for V<'a> {
                    type Value = Node;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("option")
                    }
                    fn visit_none<E: de::Error>(self) -> Result<Node, E> {
                        Ok(nd("none", "", vec![]))
                    }
                    fn visit_unit<E: de::Error>(self) -> Result<Node, E> {
                        Ok(nd("none", "", vec![]))
                    }
                    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
                        Ok(nd("some", "", vec![Ty(self.0).deserialize(d)?]))
                    }
                }
                d.deserialize_option(V(&sc.c[0]))
            }
            "seq" => {
                struct V<'a>(&'a Node);
                impl<'a, 'de> Visitor<'de> for V<'a> {
                    type Value = Node;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("a sequence")
                    }
                    fn visit_seq<A: SeqAccess<'de>>(self, mut q: A) -> Result<Node, A::Error> {
                        let mut c = Vec::new();
                        while let Some(v) = q.next_element_seed(Ty(self.0))? {
                            c.push(v);
                        }
                        Ok(nd("seq", "", c))
                    }
                }
                d.deserialize_seq(V(&sc.c[0]))
            }
            "map" => {
                struct V<'a>(&'a Node, &'a Node);
                impl<'a, 'de> Visitor<'de> for V<'a> {
                    type Value = Node;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("a map")
                    }
                    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Node, A::Error> {
                        let mut c = Vec::new();
                        while let Some(k) = m.next_key_seed(Ty(self.0))? {
                            let v = m.next_value_seed(Ty(self.1))?;
                            c.push(nd("kv", "", vec![k, v]));
                        }
                        Ok(nd("map", "", c))
                    }
                }
                d.deserialize_map(V(&sc.c[0], &sc.c[1]))
            }
            "tuple" => d.deserialize_tuple(sc.c.len(), TupleV(&sc.c, "tuple", String::new())),
            "tstruct" => d.deserialize_tuple_struct(name(&sc.k), sc.c.len(), TupleV(&sc.c, "tstruct", sc.k.clone())),
            "struct" => d.deserialize_struct(
                name(&sc.k),
                list(sc.c.iter().map(|f| f.k.clone()).collect()),
                StructV(&sc.c, "struct", sc.k.clone()),
            ),
            "ustruct" => {
                struct V(String);
                impl<'de> Visitor<'de> for V {
                    type Value = Node;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("unit struct")
                    }
                    fn visit_unit<E: de::Error>(self) -> Result<Node, E> {
                        Ok(named("ustruct", &self.0, vec![]))
                    }
                }
                d.deserialize_unit_struct(name(&sc.k), V(sc.k.clone()))
            }
            "nstruct" => {
                struct V<'a>(&'a Node);
                impl<'a, 'de> Visitor<'de> for V<'a> {
                    type Value = Node;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("newtype struct")
                    }
                    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
                        Ok(named("nstruct", &self.0.k, vec![Ty(&self.0.c[0]).deserialize(d)?]))
                    }
                    fn visit_seq<A: SeqAccess<'de>>(self, mut q: A) -> Result<Node, A::Error> {
                        match q.next_element_seed(Ty(&self.0.c[0]))? {
                            Some(v) => Ok(named("nstruct", &self.0.k, vec![v])),
                            None => Err(de::Error::invalid_length(0, &"one element")),
                        }
                    }
                }
                d.deserialize_newtype_struct(name(&sc.k), V(sc))
            }
            "enum" => {
                struct V<'a>(&'a Node);
                impl<'a, 'de> Visitor<'de> for V<'a> {
                    type Value = Node;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("an enum")
                    }
                    fn visit_enum<A: EnumAccess<'de>>(self, e: A) -> Result<Node, A::Error> {
                        let (k, v) = e.variant_seed(Ident)?;
                        let var = self.0.c.iter().find(|x| x.k == k).ok_or_else(|| de::Error::custom("unknown variant"))?;
                        match var.t.as_str() {
                            "uv" => v.unit_variant().map(|_| named("uv", &var.k, vec![])),
                            "nv" => Ok(named("nv", &var.k, vec![v.newtype_variant_seed(Ty(&var.c[0]))?])),
                            "tv" => v.tuple_variant(var.c.len(), TupleV(&var.c, "tv", var.k.clone())),
                            _ => v.struct_variant(
                                list(var.c.iter().map(|f| f.k.clone()).collect()),
                                StructV(&var.c, "sv", var.k.clone()),
                            ),
                        }
                    }
                }
                d.deserialize_enum(name(&sc.k), list(sc.c.iter().map(|x| x.k.clone()).collect()), V(sc))
            }
            x => Err(de::Error::custom(format!("case: schema {x}"))),
        }
    }
}

/// What a reader without a schema sees.
pub struct Any;
impl<'de> DeserializeSeed<'de> for Any {
    type Value = Node;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        d.deserialize_any(Any)
    }
}
impl<'de> Visitor<'de> for Any {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Node, E> {
        Ok(nd("bool", &v.to_string(), vec![]))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Node, E> {
        Ok(nd("int", &v.to_string(), vec![]))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Node, E> {
        Ok(nd("int", &v.to_string(), vec![]))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Node, E> {
        Ok(nd("float", &float(v), vec![]))
    }
    fn visit_str<E>(self, v: &str) -> Result<Node, E> {
        Ok(nd("str", v, vec![]))
    }
    fn visit_unit<E>(self) -> Result<Node, E> {
        Ok(nd("null", "", vec![]))
    }
    fn visit_none<E>(self) -> Result<Node, E> {
        Ok(nd("null", "", vec![]))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        d.deserialize_any(Any)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut q: A) -> Result<Node, A::Error> {
        let mut c = Vec::new();
        while let Some(v) = q.next_element_seed(Any)? {
            c.push(v);
        }
        Ok(nd("seq", "", c))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Node, A::Error> {
        let mut c = Vec::new();
        while let Some(k) = m.next_key_seed(Any)? {
            let v = m.next_value_seed(Any)?;
            c.push(nd("kv", "", vec![k, v]));
        }
        Ok(nd("map", "", c))
    }
}
