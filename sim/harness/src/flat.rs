//! What a request or response value has to look like on the wire, worked out independently of
//! htrpc's serializers: serde values are flattened into texts, and HTTP messages are decoded and
//! compared with them.
use crate::wire::Msg;
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Absent,
    Text(String),
    Bytes(Vec<u8>),
    F32(f32),
    F64(f64),
    Seq(Vec<Tree>),
    Map(Vec<(String, Tree)>),
    Variant(&'static str, Box<Tree>),
}

#[derive(Clone, Debug)]
pub struct WireReq {
    pub method: String,
    /// None is a variable
    pub segs: Vec<Option<&'static str>>,
    pub tree: Option<Tree>,
    pub body: (usize, u64),
}
#[derive(Clone, Debug)]
pub struct WireRes {
    pub tree: Option<Tree>,
    pub body: (usize, u64),
}

pub fn hash(b: &[u8]) -> (usize, u64) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3);
    }
    (b.len(), h)
}

fn hex(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}
/// Percent-decoding as of RFC 3986.
fn unescape(s: &[u8], plus: bool) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            b'%' => {
                let d = (|| Some(hex(*s.get(i + 1)?)? * 16 + hex(*s.get(i + 2)?)?))();
                v.push(d.ok_or_else(|| "stray % in the request target".to_string())?);
                i += 3;
            }
            b'+' if plus => {
                v.push(b' ');
                i += 1;
            }
            c => {
                v.push(c);
                i += 1;
            }
        }
    }
    Ok(v)
}
fn same(t: &Tree, got: &[u8]) -> bool {
    let text = || std::str::from_utf8(got).ok();
    match t {
        Tree::Text(s) => s.as_bytes() == got,
        Tree::Bytes(b) => &b[..] == got,
        Tree::F32(f) => text()
            .and_then(|s| s.parse::<f32>().ok())
            .map_or(false, |g| g.to_bits() == f.to_bits() || (g.is_nan() && f.is_nan())),
        Tree::F64(f) => text()
            .and_then(|s| s.parse::<f64>().ok())
            .map_or(false, |g| g.to_bits() == f.to_bits() || (g.is_nan() && f.is_nan())),
        _ => true,
    }
}
fn field<'a>(t: &'a Tree, name: &str) -> Option<&'a Tree> {
    match t {
        Tree::Map(m) => m.iter().find(|x| x.0 == name).map(|x| &x.1),
        _ => None,
    }
}
fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let t: String = s.chars().take(120).collect();
    format!("{:?}", t)
}
fn headers(want: Option<&Tree>, m: &Msg) -> Result<(), String> {
    let want = match want {
        Some(Tree::Map(w)) => w,
        _ => return Ok(()),
    };
    for (k, v) in want {
        let got: Vec<&Vec<u8>> = m.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(k)).map(|h| &h.1).collect();
        if k.eq_ignore_ascii_case("content-length") {
            continue;
        }
        match v {
            Tree::Absent => {
                if !got.is_empty() {
                    return Err(format!("header {:?} is absent from the value, but {} was sent", k, show(got[0])));
                }
            }
            v => {
                if got.len() != 1 {
                    return Err(format!("header {:?} was sent {} times", k, got.len()));
                }
                if !same(v, got[0]) {
                    return Err(format!("header {:?} is {:?} but {} was sent", k, v, show(got[0])));
                }
            }
        }
    }
    Ok(())
}

/// Compares a request as sent with the value given by the caller.
pub fn request(w: &WireReq, m: &Msg) -> Result<(), String> {
    let parts: Vec<&str> = m.line.split(' ').collect();
    if parts.len() != 3 || parts[2] != "HTTP/1.1" {
        return Err(format!("bad request line {}", show(m.line.as_bytes())));
    }
    let hosts = m.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("host")).count();
    if hosts != 1 {
        return Err(format!("{} Host fields were sent, HTTP/1.1 requires one", hosts));
    }
    if parts[0] != w.method {
        return Err(format!("the method is {} but {} was sent", w.method, parts[0]));
    }
    let target = parts[1].as_bytes();
    if target.first() != Some(&b'/') {
        return Err(format!("bad request target {}", show(target)));
    }
    if let Some(c) = target.iter().find(|c| !(0x21..0x7f).contains(*c) || **c == b'#') {
        return Err(format!("character {:?} in the request target {}", *c as char, show(target)));
    }
    let (path, query) = match target.iter().position(|c| *c == b'?') {
        Some(i) => (&target[1..i], &target[i + 1..]),
        None => (&target[1..], &target[..0]),
    };
    let got: Vec<&[u8]> = path.split(|c| *c == b'/').collect();
    let root: Vec<Option<&'static str>> = vec![Some("")];
    let segs = if w.segs.is_empty() { &root } else { &w.segs };
    if got.len() != segs.len() {
        return Err(format!("{} path segments were sent instead of {}: {}", got.len(), segs.len(), show(target)));
    }
    let tree = match &w.tree {
        Some(t) => t,
        None => return Ok(()),
    };
    let vars: Vec<Tree> = match field(tree, "path") {
        Some(Tree::Seq(v)) => v.clone(),
        Some(Tree::Map(v)) => v.iter().map(|x| x.1.clone()).collect(),
        Some(t) => vec![t.clone()],
        None => vec![],
    };
    let mut vars = vars.into_iter();
    for (g, s) in got.iter().zip(segs.iter()) {
        let g = unescape(g, false)?;
        match s {
            Some(s) => {
                if s.as_bytes() != &g[..] {
                    return Err(format!("the path segment {:?} was sent as {}", s, show(&g)));
                }
            }
            None => {
                if let Some(v) = vars.next() {
                    if !same(&v, &g) {
                        return Err(format!("the path variable {:?} was sent as {}", v, show(&g)));
                    }
                }
            }
        }
    }
    let mut want: Vec<(Vec<u8>, Tree)> = match field(tree, "query") {
        Some(Tree::Map(v)) => v.iter().filter(|x| x.1 != Tree::Absent).map(|x| (x.0.clone().into_bytes(), x.1.clone())).collect(),
        _ => vec![],
    };
    for p in query.split(|c| *c == b'&').filter(|p| !p.is_empty()) {
        let (k, v) = match p.iter().position(|c| *c == b'=') {
            Some(i) => (&p[..i], &p[i + 1..]),
            None => (p, &p[..0]),
        };
        let (k, v) = (unescape(k, true)?, unescape(v, true)?);
        match want.iter().position(|w| w.0 == k && same(&w.1, &v)) {
            Some(i) => {
                want.remove(i);
            }
            None => return Err(format!("the query parameter {}={} was sent", show(&k), show(&v))),
        }
    }
    if let Some((k, v)) = want.first() {
        return Err(format!("the query parameter {} with {:?} was not sent", show(k), v));
    }
    headers(field(tree, "header"), m)?;
    if hash(&m.body) != w.body {
        return Err(format!("the body has {} bytes, and {} bytes that differ were sent", w.body.0, m.body.len()));
    }
    Ok(())
}

/// Compares a response as sent with the value given by the handler.
pub fn response(w: &WireRes, m: &Msg, head: bool) -> Result<(), String> {
    let tree = match &w.tree {
        Some(t) => t,
        None => return Ok(()),
    };
    if !m.line.starts_with("HTTP/1.") {
        return Err(format!("bad status line {}", show(m.line.as_bytes())));
    }
    let (code, tree) = match tree {
        Tree::Variant(n, t) => (crate::procs::CODES.iter().find(|c| c.0 == *n).map(|c| c.1.to_string()), &**t),
        t => (
            match field(t, "status") {
                Some(Tree::Text(s)) => Some(s.clone()),
                _ => None,
            },
            t,
        ),
    };
    let got = m.line.split(' ').nth(1).unwrap_or("");
    if let Some(c) = code {
        if c != got {
            return Err(format!("the status is {} but {} was sent", c, got));
        }
    }
    headers(field(tree, "header"), m)?;
    if !head && hash(&m.body) != w.body {
        return Err(format!("the body has {} bytes, and {} bytes that differ were sent", w.body.0, m.body.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- serde values to trees

#[derive(Debug)]
pub struct No(String);
impl fmt::Display for No {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for No {}
impl ser::Error for No {
    fn custom<T: fmt::Display>(m: T) -> Self {
        No(m.to_string())
    }
}
pub fn tree<T: Serialize>(t: &T) -> Option<Tree> {
    t.serialize(F).ok()
}
struct F;
pub struct SeqF(Option<&'static str>, Vec<Tree>);
pub struct MapF(Option<&'static str>, Vec<(String, Tree)>, Option<String>);
type R = Result<Tree, No>;
macro_rules! text {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R { Ok(Tree::Text(v.to_string())) })* };
}
impl ser::Serializer for F {
    type Ok = Tree;
    type Error = No;
    type SerializeSeq = SeqF;
    type SerializeTuple = SeqF;
    type SerializeTupleStruct = SeqF;
    type SerializeTupleVariant = SeqF;
    type SerializeMap = MapF;
    type SerializeStruct = MapF;
    type SerializeStructVariant = MapF;
    text!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
          serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char, serialize_str &str);
    fn serialize_f32(self, v: f32) -> R {
        Ok(Tree::F32(v))
    }
    fn serialize_f64(self, v: f64) -> R {
        Ok(Tree::F64(v))
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        Ok(Tree::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> R {
        Ok(Tree::Absent)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        v.serialize(F)
    }
    fn serialize_unit(self) -> R {
        Ok(Tree::Seq(vec![]))
    }
    fn serialize_unit_struct(self, n: &'static str) -> R {
        Ok(Tree::Text(n.into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> R {
        Ok(Tree::Variant(n, Box::new(Tree::Absent)))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(F)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R {
        Ok(Tree::Variant(n, Box::new(v.serialize(F)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqF, No> {
        Ok(SeqF(None, vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqF, No> {
        Ok(SeqF(None, vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqF, No> {
        Ok(SeqF(None, vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<SeqF, No> {
        Ok(SeqF(Some(n), vec![]))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapF, No> {
        Ok(MapF(None, vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapF, No> {
        Ok(MapF(None, vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<MapF, No> {
        Ok(MapF(Some(n), vec![], None))
    }
}
impl SeqF {
    fn fin(self) -> R {
        let t = Tree::Seq(self.1);
        Ok(match self.0 {
            Some(n) => Tree::Variant(n, Box::new(t)),
            None => t,
        })
    }
}
impl MapF {
    fn fin(self) -> R {
        let t = Tree::Map(self.1);
        Ok(match self.0 {
            Some(n) => Tree::Variant(n, Box::new(t)),
            None => t,
        })
    }
}
macro_rules! seq {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for SeqF {
        type Ok = Tree;
        type Error = No;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> {
            self.1.push(v.serialize(F)?);
            Ok(())
        }
        fn end(self) -> R { self.fin() }
    })* };
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($t:ident),*) => { $(impl ser::$t for MapF {
        type Ok = Tree;
        type Error = No;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), No> {
            let v = v.serialize(F)?;
            self.1.push((k.into(), v));
            Ok(())
        }
        fn end(self) -> R { self.fin() }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for MapF {
    type Ok = Tree;
    type Error = No;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), No> {
        match k.serialize(F)? {
            Tree::Text(s) => self.2 = Some(s),
            _ => return Err(No("key".into())),
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> {
        let v = v.serialize(F)?;
        let k = self.2.take().unwrap_or_default();
        self.1.push((k, v));
        Ok(())
    }
    fn end(self) -> R {
        self.fin()
    }
}
