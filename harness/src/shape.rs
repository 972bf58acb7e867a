//! Deserialization targets built at run time (`Shape`), the values they give (`Val`), and
//! the contract-level account (`want`) of what each must yield on a list of events.
use crate::conv::*;
use serde::de::{self, DeserializeSeed, IgnoredAny, Visitor};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Hash)]
pub enum Shape { Str, Txt(u8), Bool, Num(String), Unit, UnitStruct, Ignored, Any, Opt(Box<Shape>), New(Box<Shape>), Seq(Box<Shape>), Tuple(bool, Vec<Shape>), Map(Box<Shape>), Struct(Vec<(String, Shape)>), Enum(Vec<(String, Var)>) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Hash)]
pub enum Var { Unit, New(Shape), Tup(Vec<Shape>), Rec(Vec<(String, Shape)>) }
use Shape::*;
pub const NUMS: &[&str] = &["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"];
pub fn num(n: &str) -> Shape { Num(n.to_string()) }

#[derive(Clone, Debug, PartialEq)]
pub enum Val { Str(String), Bool(bool), Int(i128), Float(f64), Float32(f32), Unit, None, Some(Box<Val>), Seq(Vec<Val>), Map(Vec<(String, Val)>), Variant(String, Box<Val>) }

thread_local! { static NAMES: RefCell<HashMap<Vec<String>, &'static [&'static str]>> = RefCell::new(HashMap::new()); }
fn intern(v: Vec<String>) -> &'static [&'static str] {
    NAMES.with(|m| *m.borrow_mut().entry(v.clone()).or_insert_with(|| {
        let w: Vec<&'static str> = v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect();
        Box::leak(w.into_boxed_slice())
    }))
}

struct Key;
impl<'de> DeserializeSeed<'de> for Key { type Value = String; fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<String, D::Error> { d.deserialize_identifier(Key) } }
impl<'de> Visitor<'de> for Key {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a key") }
    fn visit_str<E>(self, s: &str) -> Result<String, E> { Ok(s.to_string()) }
}
impl<'a, 'de> DeserializeSeed<'de> for &'a Shape {
    type Value = Val;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self {
            Str => d.deserialize_string(self),
            Bool => d.deserialize_bool(self),
            Txt(0) => d.deserialize_str(self),
            Txt(1) => d.deserialize_char(self),
            Txt(2) => d.deserialize_bytes(self),
            Txt(3) => d.deserialize_byte_buf(self),
            Txt(_) => d.deserialize_identifier(self),
            Num(n) => match n.as_str() {
                "i8" => d.deserialize_i8(self), "i16" => d.deserialize_i16(self), "i32" => d.deserialize_i32(self), "i64" => d.deserialize_i64(self),
                "u8" => d.deserialize_u8(self), "u16" => d.deserialize_u16(self), "u32" => d.deserialize_u32(self), "u64" => d.deserialize_u64(self),
                "f32" => d.deserialize_f32(self), _ => d.deserialize_f64(self),
            },
            Unit => d.deserialize_unit(self),
            UnitStruct => d.deserialize_unit_struct("U", self),
            New(_) => d.deserialize_newtype_struct("N", self),
            Tuple(false, v) => d.deserialize_tuple(v.len(), self),
            Tuple(true, v) => d.deserialize_tuple_struct("T", v.len(), self),
            Ignored => d.deserialize_ignored_any(IgnoredAny).map(|_| Val::Unit),
            Any => d.deserialize_any(self),
            Opt(_) => d.deserialize_option(self),
            Seq(_) => d.deserialize_seq(self),
            Map(_) => d.deserialize_map(self),
            Struct(fs) => d.deserialize_struct("S", intern(fs.iter().map(|f| f.0.clone()).collect()), self),
            Enum(vs) => d.deserialize_enum("E", intern(vs.iter().map(|f| f.0.clone()).collect()), self),
        }
    }
}
impl<'a, 'de> Visitor<'de> for &'a Shape {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a value") }
    fn visit_bool<E>(self, v: bool) -> Result<Val, E> { Ok(Val::Bool(v)) }
    // the value keeps the width it was visited at
    fn visit_i8<E>(self, v: i8) -> Result<Val, E> { self.width("i8", v as i128) }
    fn visit_i16<E>(self, v: i16) -> Result<Val, E> { self.width("i16", v as i128) }
    fn visit_i32<E>(self, v: i32) -> Result<Val, E> { self.width("i32", v as i128) }
    fn visit_i64<E>(self, v: i64) -> Result<Val, E> { self.width("i64", v as i128) }
    fn visit_u8<E>(self, v: u8) -> Result<Val, E> { self.width("u8", v as i128) }
    fn visit_u16<E>(self, v: u16) -> Result<Val, E> { self.width("u16", v as i128) }
    fn visit_u32<E>(self, v: u32) -> Result<Val, E> { self.width("u32", v as i128) }
    fn visit_u64<E>(self, v: u64) -> Result<Val, E> { self.width("u64", v as i128) }
    fn visit_f32<E>(self, v: f32) -> Result<Val, E> { Ok(Val::Float32(v)) }
    fn visit_f64<E>(self, v: f64) -> Result<Val, E> { Ok(Val::Float(v)) }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { match self { New(s) => Ok(Val::Some(Box::new(s.deserialize(d)?))), _ => Err(de::Error::custom("newtype")) } }
    fn visit_str<E>(self, v: &str) -> Result<Val, E> { Ok(Val::Str(v.to_string())) }
    fn visit_unit<E>(self) -> Result<Val, E> { Ok(Val::Unit) }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { match self { Opt(s) => Ok(Val::Some(Box::new(s.deserialize(d)?))), _ => Err(de::Error::custom("some")) } }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        if let Tuple(_, ss) = self {
            for s in ss { v.push(a.next_element_seed(s)?.ok_or_else(|| de::Error::custom("missing element"))?); }
            return Ok(Val::Seq(v));
        }
        let s = match self { Seq(s) => s, _ => return Err(de::Error::custom("seq")) };
        while let Some(x) = a.next_element_seed(&**s)? { v.push(x); if v.len() > 10_000 { return Err(de::Error::custom("endless sequence")); } }
        Ok(Val::Seq(v))
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v: Vec<(String, Val)> = vec![];
        while let Some(k) = a.next_key_seed(Key)? {
            if v.len() > 10_000 { return Err(de::Error::custom("endless map")); }
            match self {
                Map(s) => { let x = a.next_value_seed(&**s)?; v.push((k, x)); }
                Any => { let x = a.next_value_seed(&Any)?; v.push((k, x)); }
                Struct(fs) => match fs.iter().find(|f| f.0 == k) {
                    Some((n, s)) => {
                        if v.iter().any(|(m, _)| m == n) { return Err(de::Error::custom("duplicate field")); }
                        let x = a.next_value_seed(s)?;
                        v.push((k, x));
                    }
                    None => { a.next_value::<IgnoredAny>()?; }
                },
                _ => return Err(de::Error::custom("map")),
            }
        }
        finish(self, v).ok_or_else(|| de::Error::custom("missing field"))
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        use de::VariantAccess;
        let vs = match self { Enum(vs) => vs, _ => return Err(de::Error::custom("enum")) };
        let (k, acc) = a.variant_seed(Key)?;
        match vs.iter().find(|v| v.0 == k) {
            None => Err(de::Error::custom("unknown variant")),
            Some((_, Var::Unit)) => { acc.unit_variant()?; Ok(Val::Variant(k, Box::new(Val::Unit))) }
            Some((_, Var::New(s))) => { let x = acc.newtype_variant_seed(s)?; Ok(Val::Variant(k, Box::new(x))) }
            Some((_, Var::Tup(v))) => { let x = acc.tuple_variant(v.len(), &Tuple(false, v.clone()))?; Ok(Val::Variant(k, Box::new(x))) }
            Some((_, Var::Rec(f))) => { let x = acc.struct_variant(intern(f.iter().map(|f| f.0.clone()).collect()), &Struct(f.clone()))?; Ok(Val::Variant(k, Box::new(x))) }
        }
    }
}
impl Shape {
    fn width<E>(&self, n: &str, v: i128) -> Result<Val, E> { Ok(if *self == num(n) { Val::Int(v) } else { Val::Str(format!("{} visited as {}", v, n)) }) }
}
/// Fields in declaration order; a missing optional one is `None`, a missing other one an error.
fn finish(s: &Shape, mut v: Vec<(String, Val)>) -> Option<Val> {
    if let Struct(fs) = s {
        let mut out = vec![];
        for (n, sh) in fs {
            match v.iter().position(|(m, _)| m == n) {
                Some(i) => out.push(v.swap_remove(i)),
                None => if let Opt(_) = sh { out.push((n.clone(), Val::None)) } else { return None },
            }
        }
        return Some(Val::Map(out));
    }
    Some(Val::Map(v))
}
pub fn got(s: &Shape, evs: &[HEv], owned: bool) -> Result<Val, String> {
    let mut d = sgmlish::de::SgmlDeserializer::from_fragment(fragment(evs, owned)).map_err(|e| e.to_string())?;
    s.deserialize(&mut d).map_err(|e| e.to_string())
}

/// `Skip`: the documented behaviour says nothing about this case.
#[derive(Debug, PartialEq)]
pub enum No { Err, Skip }
type W<T> = Result<(T, usize), No>;

fn unsupported(e: &HEv) -> bool {
    match e { Decl(..) | Pi(_) | Section(..) => true, Open(n) | End(n) => n.is_empty(), _ => false }
}
/// Events of one element, `p` just after its opening, up to its own matching end.
pub fn skip(evs: &[HEv], mut p: usize, name: &str) -> Result<usize, No> {
    loop {
        match evs.get(p).ok_or(No::Err)? {
            XmlClose => return Ok(p + 1),
            End(n) => return if n == name { Ok(p + 1) } else { Err(No::Err) },
            Open(n) => p = skip(evs, p + 1, n)?,
            _ => p += 1,
        }
    }
}
/// All character data of the element opening at `p`, in order.
pub fn text(evs: &[HEv], p: usize) -> W<String> {
    let name = match evs.get(p) { Some(Open(n)) if !n.is_empty() => n.clone(), _ => return Err(No::Err) };
    let mut stack = vec![name];
    let mut out = String::new();
    let mut q = p + 1;
    loop {
        let e = evs.get(q).ok_or(No::Err)?;
        if matches!(e, Decl(..) | Pi(_) | Section(..)) { return Err(if matches!(evs[q - 1], End(_) | XmlClose) { No::Skip } else { No::Err }); }
        match e {
            Open(n) => { if n.is_empty() { return Err(No::Err); } stack.push(n.clone()) }
            End(n) => if &stack.pop().unwrap() != n { return Err(No::Err) },
            XmlClose => { stack.pop(); }
            Chars(t) => out += t,
            _ => {}
        }
        q += 1;
        if stack.is_empty() { return Ok((out, q)); }
    }
}
/// Does the element opening at `p` have child elements / attributes / text before them?
fn content(evs: &[HEv], p: usize) -> Result<(bool, bool, bool), No> {
    let (mut at, mut tx) = (false, false);
    for e in &evs[p + 1..] {
        match e { Open(_) => return Ok((true, at, tx)), End(_) | XmlClose => return Ok((false, at, tx)), Attr(..) => at = true, Chars(t) => tx |= !t.is_empty(), _ => {} }
    }
    Err(No::Err)
}
fn scalar(s: &Shape, t: &str) -> Result<Val, No> {
    Ok(match s {
        Str | Txt(_) | Any => Val::Str(t.to_string()),
        Bool => if t == "1" || t.eq_ignore_ascii_case("true") { Val::Bool(true) } else if t == "0" || t.eq_ignore_ascii_case("false") { Val::Bool(false) } else { return Err(No::Err) },
        Num(n) => match n.as_str() {
            "i8" => Val::Int(t.parse::<i8>().map_err(|_| No::Err)? as i128), "i16" => Val::Int(t.parse::<i16>().map_err(|_| No::Err)? as i128),
            "i32" => Val::Int(t.parse::<i32>().map_err(|_| No::Err)? as i128), "i64" => Val::Int(t.parse::<i64>().map_err(|_| No::Err)? as i128),
            "u8" => Val::Int(t.parse::<u8>().map_err(|_| No::Err)? as i128), "u16" => Val::Int(t.parse::<u16>().map_err(|_| No::Err)? as i128),
            "u32" => Val::Int(t.parse::<u32>().map_err(|_| No::Err)? as i128), "u64" => Val::Int(t.parse::<u64>().map_err(|_| No::Err)? as i128),
            "f32" => Val::Float32(t.parse::<f32>().map_err(|_| No::Err)?), _ => Val::Float(t.parse::<f64>().map_err(|_| No::Err)?),
        },
        _ => unreachable!(),
    })
}
/// Value at an attribute.
fn want_attr(s: &Shape, n: &str, v: &Option<String>) -> Result<Val, No> {
    let t = v.as_deref().unwrap_or("");
    Ok(match s {
        Bool if t.is_empty() || t.eq_ignore_ascii_case(n) => Val::Bool(true),
        Str | Txt(_) | Bool | Num(_) | Any => scalar(s, t)?,
        Unit | UnitStruct | Ignored => Val::Unit,
        Opt(s) | New(s) => Val::Some(Box::new(want_attr(s, n, v)?)),
        _ => return Err(No::Err),
    })
}
/// Value of the catch-all text key.
fn want_text(s: &Shape, t: &str) -> Result<Val, No> {
    Ok(match s {
        Str | Txt(_) | Bool | Num(_) | Any => scalar(s, t)?,
        Unit | UnitStruct | Ignored => Val::Unit,
        Opt(s) | New(s) => Val::Some(Box::new(want_text(s, t)?)),
        Seq(_) => Val::Seq(vec![]),
        Tuple(_, v) if v.is_empty() => Val::Seq(vec![]),
        _ => return Err(No::Err),
    })
}
/// Value at the element opening at `p`; `key`: the field name this value belongs to.
fn want_elt(s: &Shape, evs: &[HEv], p: usize, key: Option<&str>) -> W<Val> {
    let name = match evs.get(p) { Some(Open(n)) if !n.is_empty() => n, Some(Chars(_)) if matches!(s, Seq(_) | Tuple(..)) => return Err(No::Skip), _ => return Err(No::Err) };
    match s {
        Str | Txt(_) | Bool | Num(_) => { let (t, q) = text(evs, p)?; Ok((scalar(s, &t)?, q)) }
        Unit | UnitStruct | Ignored => { if evs.get(p + 1).map_or(false, unsupported) { return Err(No::Err); } Ok((Val::Unit, skip(evs, p + 1, name)?)) }
        Opt(s) | New(s) => { let (v, q) = want_elt(s, evs, p, key)?; Ok((Val::Some(Box::new(v)), q)) }
        Any => {
            let (ch, at, tx) = content(evs, p)?;
            if ch || at { want_map(s, evs, p, !ch) } else if tx { let (t, q) = text(evs, p)?; Ok((Val::Str(t), q)) } else { want_elt(&Unit, evs, p, key) }
        }
        Map(_) => want_map(s, evs, p, false),
        Struct(fs) => want_map(s, evs, p, fs.iter().any(|f| f.0 == "$value")),
        Seq(inner) => {
            let mut v = vec![];
            let mut q = p;
            loop {
                match evs.get(q).ok_or(No::Err)? {
                    Open(n) if key.map_or(true, |k| k == n) => { let (x, q2) = want_elt(inner, evs, q, key)?; if q2 == q { return Err(No::Skip); } v.push(x); q = q2; }
                    Chars(t) if t.is_empty() => { q += 1; if evs.get(q).map_or(false, unsupported) { return Err(No::Err); } }
                    _ => return Ok((Val::Seq(v), q)),
                }
            }
        }
        Tuple(_, ss) => {
            let mut v = vec![];
            let mut q = p;
            for inner in ss {
                loop {
                    match evs.get(q).ok_or(No::Err)? {
                        Open(n) if key.map_or(true, |k| k == n) => { let (x, q2) = want_elt(inner, evs, q, key)?; v.push(x); q = q2; break; }
                        Chars(t) if t.is_empty() => { q += 1; if evs.get(q).map_or(false, unsupported) { return Err(No::Err); } }
                        _ => return Err(No::Err),
                    }
                }
            }
            Ok((Val::Seq(v), q))
        }
        Enum(vs) => {
            let variant = |p: usize, key: Option<&str>| -> W<Val> {
                let n = match evs.get(p) { Some(Open(n)) => n, _ => return Err(No::Err) };
                match vs.iter().find(|v| &v.0 == n).ok_or(No::Err)? {
                    (_, Var::Unit) => { let (_, q) = want_elt(&Unit, evs, p, key)?; Ok((Val::Variant(n.clone(), Box::new(Val::Unit)), q)) }
                    (_, Var::Tup(ss)) => { let (x, q) = want_elt(&Tuple(false, ss.clone()), evs, p, Some(n))?; Ok((Val::Variant(n.clone(), Box::new(x)), q)) }
                    (_, Var::Rec(fs)) => { let (x, q) = want_elt(&Struct(fs.clone()), evs, p, key)?; Ok((Val::Variant(n.clone(), Box::new(x)), q)) }
                    (_, Var::New(sh)) => {
                        if n.is_empty() { return Err(No::Err); }
                        let (x, q) = if content(evs, p)?.0 { let q = to_content(evs, p + 1)?; let (x, q) = want_any_at(sh, evs, q)?; (x, skip(evs, q, n)?) } else { want_elt(sh, evs, p, key)? };
                        Ok((Val::Variant(n.clone(), Box::new(x)), q))
                    }
                }
            };
            if key == Some(name) {
                if content(evs, p)?.0 {
                    let (v, q) = variant(to_content(evs, p + 1)?, None)?;
                    Ok((v, skip(evs, q, name)?))
                } else {
                    let (t, q) = text(evs, p)?;
                    match vs.iter().find(|v| v.0 == t) { Some((_, Var::Unit)) => Ok((Val::Variant(t, Box::new(Val::Unit)), q)), _ => Err(No::Err) }
                }
            } else { variant(p, key) }
        }
    }
}
/// A value expected where an element's content starts: only at a child element is it specified.
fn want_any_at(s: &Shape, evs: &[HEv], p: usize) -> W<Val> {
    match evs.get(p) { Some(Open(_)) => want_elt(s, evs, p, None), _ => Err(No::Skip) }
}
fn to_content(evs: &[HEv], mut p: usize) -> Result<usize, No> {
    if evs.get(p).map_or(false, unsupported) { return Err(No::Err); }
    while let Attr(..) | Close = evs.get(p).ok_or(No::Err)? { p += 1; if evs.get(p).map_or(false, unsupported) { return Err(No::Err); } }
    Ok(p)
}
fn want_map(s: &Shape, evs: &[HEv], p: usize, emit: bool) -> W<Val> {
    let name = match &evs[p] { Open(n) => n, _ => return Err(No::Err) };
    let elements = content(evs, p).map(|c| c.0).unwrap_or(false);
    let mut q = p + 1;
    let mut v: Vec<(String, Val)> = vec![];
    let mut txt = String::new();
    let field = |k: &str, v: &Vec<(String, Val)>| -> Result<Option<Shape>, No> {
        match s {
            Struct(fs) => match fs.iter().find(|f| f.0 == k) { Some(f) => if v.iter().any(|x| x.0 == k) { Err(No::Err) } else { Ok(Some(f.1.clone())) }, None => Ok(None) },
            Map(m) => Ok(Some((**m).clone())),
            _ => Ok(Some(Any)),
        }
    };
    loop {
        let e = evs.get(q).ok_or(No::Err)?;
        if unsupported(e) { return Err(No::Err); }
        match e {
            Attr(n, x) => { match field(n, &v)? { Some(sh) => { let x = want_attr(&sh, n, x)?; v.push((n.clone(), x)) } None => {} } q += 1; }
            Close => q += 1,
            Chars(t) => { txt += t; q += 1; }
            Open(n) => {
                let k = if emit { "$value" } else { n.as_str() };
                let key = if emit { None } else { Some(n.as_str()) };
                match field(k, &v)? {
                    Some(sh) => { let (x, q2) = want_elt(&sh, evs, q, key)?; if q2 == q { return Err(No::Err); } v.push((k.into(), x)); q = q2; }
                    None => { let (_, q2) = want_elt(&Ignored, evs, q, key)?; q = q2; }
                }
            }
            End(_) | XmlClose => {
                if emit && !elements { if let Some(sh) = field("$value", &v)? { let x = want_text(&sh, &txt)?; v.push(("$value".into(), x)); } }
                let q2 = skip(evs, q, name)?;
                return finish(s, v).map(|v| (v, q2)).ok_or(No::Err);
            }
            _ => unreachable!(),
        }
    }
}
pub fn want(s: &Shape, evs: &[HEv]) -> Result<Val, No> {
    match evs.first() { None => Err(No::Err), Some(e) if unsupported(e) => Err(No::Err), Some(Open(_)) => want_elt(s, evs, 0, None).map(|x| x.0), _ => match s { Seq(_) | Opt(_) | New(_) | Tuple(..) => Err(No::Skip), _ => Err(No::Err) } }
}
