#![allow(unused_variables)]
//! The procedures served and called in the simulation, and their value generators.
use crate::ctx::{self, Expect};
use crate::rng::Rng;
use crate::wire;
use futures::Future;
use handy_async::io::AsyncRead;
use htrpc::rfc7807::{Problem, ProblemResponse};
use htrpc::types::{EntryPoint, HttpMethod, HttpStatus, NeverFail, PathSegment};
use htrpc::{BodyReader, Error, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse};
use miasht::builtin::futures::FutureExt;
use serde_derive::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;

pub use self::PathSegment::{Val, Var};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Echo,
    Vars,
    Ints,
    Query,
    QMap,
    Header,
    PathOnly,
    UnitPath,
    BodyOnly,
    HeadM,
    Big,
    Partial,
    Status,
    Problem,
    AllEnum,
    UnitEnum,
    ProbEnum,
    Root,
    Enc,
    HMap,
    NewT,
    // client side only
    Narrow,
    NarrowHdr,
    Missing,
    WrongMethod,
    BadType,
    /// slot of the routing table
    Dyn(u8),
}
pub const SERVED: &[Kind] = &[
    Kind::Echo,
    Kind::Vars,
    Kind::Ints,
    Kind::Query,
    Kind::QMap,
    Kind::Header,
    Kind::PathOnly,
    Kind::UnitPath,
    Kind::BodyOnly,
    Kind::HeadM,
    Kind::Big,
    Kind::Partial,
    Kind::Status,
    Kind::Problem,
    Kind::AllEnum,
    Kind::UnitEnum,
    Kind::ProbEnum,
    Kind::Root,
    Kind::Enc,
    Kind::HMap,
    Kind::NewT,
];

// ---------------------------------------------------------------- bodies

#[derive(Clone, Default, PartialEq)]
pub struct Body(pub Vec<u8>);
impl fmt::Debug for Body {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in &self.0 {
            h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        write!(
            f,
            "[{} bytes, hash {:016x}, {:?}]",
            self.0.len(),
            h,
            String::from_utf8_lossy(&self.0[..self.0.len().min(32)])
        )
    }
}

pub fn read_all<T: Send + 'static>(body: BodyReader, f: impl FnOnce(Vec<u8>) -> T + Send + 'static) -> ReadBody<T> {
    // what a handler is told about the length before it reads
    let said = htrpc::content_length(&body);
    let fixed = !matches!(body, BodyReader::Chunked(_));
    Box::new(
        body.read_all_bytes()
            .map_err(Error::from)
            .map(move |(r, b)| {
                // (if the end is missing, the handler must not run anyway)
                if said != if fixed { Some(b.len() as u64) } else { None } {
                    let b = format!("content_length() was {:?}, the body had {} bytes", said, b.len());
                    return (r, f(b.into_bytes()));
                }
                (r, f(b))
            }),
    )
}

macro_rules! request {
    ($name:ident { $($(#[$m:meta])* $f:ident : $t:ty),* }) => {
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct $name {
            $($(#[$m])* pub $f: $t,)*
            #[serde(skip)]
            pub body: Body,
        }
        impl RpcRequest for $name {
            fn body(&mut self) -> Vec<u8> {
                self.body.0.clone()
            }
            fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
                read_all(body, move |b| {
                    self.body = Body(b);
                    self
                })
            }
        }
    };
}
macro_rules! response {
    ($name:ident { $($(#[$m:meta])* $f:ident : $t:ty),* }) => {
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct $name {
            $($(#[$m])* pub $f: $t,)*
            #[serde(skip)]
            pub body: Body,
        }
        impl RpcResponse for $name {
            fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
                Box::new(self.body.0.clone())
            }
            fn set_body(&mut self, b: Vec<u8>) {
                self.body = Body(b);
            }
        }
    };
}
macro_rules! segs {
    ($($s:expr),*) => {{
        static S: &[PathSegment] = &[$($s),*];
        EntryPoint::new(S)
    }};
}
macro_rules! procedure {
    ($p:ident, $req:ty, $res:ty, $m:expr, $ep:expr) => {
        #[derive(Clone, Copy)]
        pub struct $p;
        impl Procedure for $p {
            type Request = $req;
            type Response = $res;
            fn method() -> HttpMethod {
                $m
            }
            fn entry_point() -> EntryPoint {
                $ep
            }
        }
    };
}

// ---------------------------------------------------------------- generators

/// Values of a path variable that have to arrive. "." and ".." denote other paths (RFC 3986), and
/// the `url` crate drops tabs and newlines: a call with one of those may be refused instead.
pub fn path_ok(s: &str) -> bool {
    s != "." && s != ".." && !s.contains(&['\t', '\n', '\r'][..])
}

/// Accumulates whether a value can be carried, and the size of the head.
pub struct G<'a> {
    pub r: &'a mut Rng,
    pub level: u8,
    pub must: bool,
    pub head: usize,
}
fn enc_len(s: &str) -> usize {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() { 1 } else { 3 }).sum()
}
pub fn header_ok(s: &str) -> bool {
    s.bytes().all(|b| b == 9 || (b >= 0x20 && b != 0x7f)) && s.trim_matches(|c| c == ' ' || c == '\t') == s
}
const TRICKY: &[&str] = &[
    "", " ", "%", "%2e%2e", "%2F", "/", "//", "a/b", "?", "#", "&", "=", "a&b=c", "+", "a+b", " lead", "trail ",
    "..a", "a..", "...", "\\", "\\\\x", "é", "日本語", "𝄞 clef", "\u{7f}", "\u{0}", "\n", "a\r\nb", "\t", "\"q\"",
    "'", "<>", "{}", "|^`~", ":", "http://x/", "true", "ture", "null", "0", "-0", "%zz", "%e3%81%82", "ñ%41", ";",
    ",", "@", "!", "*", "(", "a b c", "\u{feff}", "\u{202e}x", "ß", "a%00b", "%25", "%%",
    "a  b", "a   b  c", "a\tb", "a, b", "a,b,,c", "a;b", "x=", "=x", "&&", "%41", "%20", "a%20b", "%2B", "None", "Some", "[]", "NaN", "inf",
    "1e5", "0x10", "007", "+1", "-", "ABC", "Abc", "É", "İ", "ǅ", "e\u{301}", "\u{a0}x\u{a0}", "\u{3000}x", "x\u{85}", "\u{2028}", "\\n", "\\u0041",
    "&amp;", "a:b", "a|b", "a_b-c", "_", "-x-", "~", "$1", "${x}", "false", "FALSE", "()", "index.html", "a.b", "a/../b", "./a", "x\u{0}",
];
impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, level: u8) -> Self {
        G {
            r,
            level,
            must: true,
            head: 400,
        }
    }
    fn raw_str(&mut self) -> String {
        match self.level {
            0 => {
                let n = self.r.range(1, 12);
                (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect()
            }
            _ => match self.r.below(12) {
                0..=3 => self.r.pick(TRICKY).to_string(),
                4 => {
                    let a = *self.r.pick(TRICKY);
                    let b = *self.r.pick(TRICKY);
                    format!("{}{}", a, b)
                }
                5 => {
                    let n = self.r.range(1, 6);
                    (0..n).map(|_| self.any_char()).collect()
                }
                6 => {
                    let n = self.r.range(1, 20);
                    (0..n).map(|_| (self.r.range(0x20, 0x7e) as u8) as char).collect()
                }
                7 => {
                    let n = self.r.range(1, 200);
                    (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect()
                }
                8 if self.level >= 2 => {
                    let n = *self.r.pick(&[700u64, 1000, 1024, 2000, 3000, 4100, 7800, 8096, 8200, 9000, 20000]);
                    let n = n + self.r.below(40);
                    let c = *self.r.pick(&['a', 'b', '%', 'é']);
                    (0..n).map(|_| c).collect()
                }
                _ => {
                    let n = self.r.range(1, 10);
                    (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect()
                }
            },
        }
    }
    fn any_char(&mut self) -> char {
        loop {
            let v = match self.r.below(4) {
                0 => self.r.below(0x80),
                1 => self.r.below(0x800),
                2 => self.r.below(0x1_0000),
                _ => self.r.below(0x11_0000),
            };
            if let Some(c) = char::from_u32(v as u32) {
                return c;
            }
        }
    }
    /// string for a path variable; `first`: the first segment of the path
    pub fn pstr(&mut self, _first: bool) -> String {
        let mut s = self.raw_str();
        if self.level >= 2 && self.r.chance(8) {
            s = self.r.pick(&[".", "..", "%2e", "%2E%2e", ".%2e"]).to_string();
        }
        if !path_ok(&s) {
            self.must = false;
        }
        self.head += enc_len(&s);
        s
    }
    pub fn qstr(&mut self) -> String {
        let s = self.raw_str();
        self.head += enc_len(&s);
        s
    }
    pub fn hstr(&mut self) -> String {
        let mut s = self.raw_str();
        if !header_ok(&s) && (self.level < 2 || self.r.chance(60)) {
            // make it representable
            s = s.chars().filter(|c| !c.is_control()).collect();
            s = s.trim_matches(|c| c == ' ' || c == '\t').to_string();
        }
        if self.level >= 2 && self.r.chance(6) {
            s = self
                .r
                .pick(&["a\r\nx-evil: 1", "a\r\n\r\nGET / HTTP/1.1\r\n", " x", "x ", "\tx", "x\u{1}", "x\ny", "x\ry"])
                .to_string();
        }
        if !header_ok(&s) {
            self.must = false;
        }
        self.head += s.len() + 24;
        s
    }
    pub fn bin(&mut self) -> Bin {
        let mut b = match self.r.below(4) {
            0 => self.hstr().into_bytes(),
            1 => {
                let n = self.r.range(0, 5) as usize;
                (0..n).map(|_| self.r.range(0x80, 0xff) as u8).collect()
            }
            _ => {
                let n = self.r.range(0, 24) as usize;
                self.r.bytes(n)
            }
        };
        let ok = |b: &[u8]| {
            let sp = |c: Option<&u8>| c == Some(&b' ') || c == Some(&9);
            b.iter().all(|&c| c == 9 || (c >= 0x20 && c != 0x7f)) && !sp(b.first()) && !sp(b.last())
        };
        if !ok(&b) && (self.level < 2 || self.r.chance(80)) {
            b.retain(|&c| c > 0x20 && c != 0x7f);
        }
        if !ok(&b) {
            self.must = false;
        }
        self.head += b.len() + 24;
        Bin(b)
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        if self.r.chance(50) {
            Some(f(self))
        } else {
            None
        }
    }
    pub fn flag(&mut self) -> bool {
        self.r.chance(50)
    }
    pub fn int(&mut self, bits: u32) -> u64 {
        self.head += 24;
        let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        (match self.r.below(6) {
            0 => 0,
            1 => m,
            2 => m >> 1,
            3 => (m >> 1) + 1,
            4 => self.r.below(200),
            _ => self.r.u64(),
        }) & m
    }
    pub fn f64(&mut self) -> f64 {
        self.head += 340;
        match self.r.below(14) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::NAN,
            3 => f64::INFINITY,
            4 => f64::NEG_INFINITY,
            5 => f64::MIN_POSITIVE,
            6 => 1e300,
            7 => -1.5,
            8 => 0.1,
            9 => 1e-7,
            10 => f64::MAX,
            11 => 5e-324,
            12 if self.level > 0 => match self.r.below(4) {
                0 => *self.r.pick(&[9007199254740993.0, 1e15, 1e16, 1e21, 1e22, 123456789012345680.0, 0.30000000000000004, 2.2250738585072011e-308, 1.7e-10]),
                _ => {
                    let f = f64::from_bits(self.r.u64());
                    if f.is_finite() { f } else { 1.0 }
                }
            },
            _ => (self.r.below(2_000_000) as f64 - 1e6) / 7.0,
        }
    }
    pub fn f32(&mut self) -> f32 {
        self.head += 60;
        match self.r.below(8) {
            0 => 0.1,
            1 => f32::MAX,
            2 => f32::MIN_POSITIVE,
            3 => f32::NAN,
            4 => 1e-45,
            5 => 16777217.0,
            _ => (self.r.below(2_000_000) as f32 - 1e6) / 7.0,
        }
    }
    pub fn body(&mut self, id: u64) -> Body {
        if self.level > 0 && self.r.chance(6) {
            // sizes of buffers
            let n = (1usize << self.r.range(5, 17)) * if self.r.chance(20) { 3 } else { 1 };
            let n = match self.r.below(5) {
                0 => n - 1,
                1 => n + 1,
                _ => n,
            };
            return self.body_n(id, n);
        }
        let n = match self.r.below(10) {
            0 => return Body(vec![]),
            1 => 1,
            2..=5 => self.r.range(1, 60),
            6 | 7 => self.r.range(500, 1500),
            8 => self.r.range(8000, 8300),
            _ => self.r.range(2000, 9000),
        };
        self.body_n(id, n as usize)
    }
    pub fn body_n(&mut self, id: u64, n: usize) -> Body {
        let mut v = self.r.bytes(n);
        if self.r.chance(30) {
            // looks like protocol text
            let t = b"\r\n\r\nGET /echo/x HTTP/1.1\r\nContent-Length: 3\r\n\r\nHTTP/1.1 200 OK\r\n";
            for (i, b) in v.iter_mut().enumerate() {
                *b = t[i % t.len()];
            }
        }
        if self.level > 0 && n < 20_000 {
            match self.r.below(24) {
                0 => v.iter_mut().for_each(|b| *b = 0),
                1 => v.iter_mut().for_each(|b| *b = b" \r\n\t"[*b as usize % 4]),
                2 => v.iter_mut().for_each(|b| *b = b'a' + *b % 26),
                3 => v.iter_mut().zip(b"5\r\nhello\r\n0\r\n\r\n".iter().cycle()).for_each(|(b, c)| *b = *c),
                4 => v.iter_mut().zip("{\"a\": [1, \"é\"]}\n".bytes().cycle()).for_each(|(b, c)| *b = c),
                5 => v.iter_mut().for_each(|b| *b |= 0x80),
                6 | 7 => {
                    // what might get trimmed
                    let e: &[u8] = *self.r.pick(&[&b"\r\n"[..], b"\n", b" ", b"\0", b"\0\0\0\0", b"\r\n\r\n", b"\xff"]);
                    if n > e.len() {
                        v[n - e.len()..].copy_from_slice(e);
                    }
                }
                _ => {}
            }
        }
        let t = wire::token(id);
        if v.len() >= t.len() {
            v[..t.len()].copy_from_slice(t.as_bytes());
        }
        Body(v)
    }
    pub fn ok(&self) -> bool {
        self.must && self.head <= 7000
    }
}

// ---------------------------------------------------------------- message parts

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Nested {
    pub a: i32,
    pub b: Vec<String>,
    pub c: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", with = "htrpc::msgpack")]
    pub m: Option<Pack>,
}
/// Goes as MessagePack within JSON.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pack {
    pub s: String,
    pub i: i64,
    pub d: f64,
    pub v: Vec<Option<bool>>,
}
impl Pack {
    fn gen(g: &mut G) -> Option<Self> {
        if !g.r.chance(20) {
            return None;
        }
        let n = g.r.below(4);
        g.head += 1200;
        Some(Pack {
            s: (0..g.r.below(6)).map(|_| g.any_char()).collect(),
            i: g.int(64) as i64,
            d: g.f64(),
            v: (0..n).map(|_| if g.r.chance(40) { None } else { Some(g.r.chance(50)) }).collect(),
        })
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Wrap<T>(pub T);
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename = "text/plain; charset=utf-8")]
pub struct TextPlain;

/// A field of raw bytes.
#[derive(Clone, Debug, PartialEq)]
pub struct Bin(pub Vec<u8>);
impl serde::Serialize for Bin {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> serde::Deserialize<'de> for Bin {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Bin;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Bin, E> {
                Ok(Bin(v.to_vec()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Bin, E> {
                Ok(Bin(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReqHead {
    #[serde(rename = "x-call-id")]
    pub id: String,
    #[serde(rename = "x-opt")]
    pub opt: Option<String>,
    #[serde(rename = "x-flag")]
    pub flag: bool,
    #[serde(rename = "x-num")]
    pub num: Option<i64>,
    #[serde(rename = "x-text")]
    pub text: String,
}
impl ReqHead {
    fn gen(id: u64, g: &mut G) -> Self {
        ReqHead {
            id: wire::token(id),
            opt: g.opt(|g| g.hstr()),
            flag: g.flag(),
            num: g.opt(|g| g.int(64) as i64),
            text: g.hstr(),
        }
    }
}
/// Response header fields.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ResHead {
    #[serde(rename = "content-type")]
    pub ct: TextPlain,
    #[serde(rename = "x-rid")]
    pub rid: String,
    #[serde(rename = "x-ropt")]
    pub opt: Option<String>,
    #[serde(rename = "x-rflag")]
    pub flag: Option<bool>,
    #[serde(rename = "x-rnum")]
    pub num: Wrap<i32>,
    #[serde(rename = "x-rflt")]
    pub flt: Option<f64>,
    #[serde(rename = "x-rbig")]
    pub big: Option<u64>,
    #[serde(rename = "x-rbin")]
    pub bin: Option<Bin>,
}
impl ResHead {
    fn gen(id: u64, g: &mut G) -> Self {
        ResHead {
            ct: TextPlain,
            rid: wire::token(id),
            opt: g.opt(|g| g.hstr()),
            flag: g.opt(|g| g.flag()),
            num: Wrap(g.int(32) as i32),
            flt: g.opt(|g| g.f64()),
            big: g.opt(|g| g.int(64)),
            bin: if g.r.chance(15) { Some(g.bin()) } else { None },
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EchoQuery {
    pub a: Option<u32>,
    pub b: String,
    pub c: bool,
    pub s: Option<String>,
    #[serde(with = "htrpc::json")]
    pub j: Nested,
    pub w: Wrap<u16>,
}
impl EchoQuery {
    fn gen(g: &mut G) -> Self {
        EchoQuery {
            a: g.opt(|g| g.int(32) as u32),
            b: g.qstr(),
            c: g.flag(),
            s: g.opt(|g| g.qstr()),
            j: Nested {
                a: g.int(32) as i32,
                b: {
                    let n = g.r.below(3);
                    g.head += 60;
                    (0..n)
                        .map(|_| {
                            let s = g.qstr();
                            g.head += enc_len(&s) * 2;
                            s
                        })
                        .collect()
                },
                c: g.opt(|g| g.flag()),
                m: Pack::gen(g),
            },
            w: Wrap(g.int(16) as u16),
        }
    }
}

request!(EchoReq { path: (String, String), query: EchoQuery, header: ReqHead });
request!(VarsReq { path: (bool, i64, f64, String, u8, f32, Wrap<String>), header: IdHead });
request!(IntsReq { path: IntsPath, query: IntsQuery, header: IntsHead });
request!(QueryReq { query: AllQuery });
request!(QMapReq { query: BTreeMap<String, String>, header: IdHead });
request!(HeaderReq { header: AllHead });
request!(PathOnlyReq { path: (String, String) });
request!(UnitPathReq { path: (), header: IdHead });
request!(BodyOnlyReq {});
request!(HeadReq { path: (String,), query: HeadQuery });
request!(BigReq { header: IdHead });
request!(StatusReq { path: (String,) });
request!(RootReq { query: HeadQuery });
request!(HMapReq { query: PartialQuery, header: BTreeMap<String, String> });
request!(NewInner { path: UnitStruct, header: IdHead });
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UnitStruct;
/// newtypes around whole messages
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NewReq(pub NewInner);
impl RpcRequest for NewReq {
    fn body(&mut self) -> Vec<u8> {
        self.0.body()
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        read_all(body, move |b| {
            self.0.body = Body(b);
            self
        })
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NewRes(pub MinRes);
impl RpcResponse for NewRes {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        self.0.body()
    }
    fn set_body(&mut self, b: Vec<u8>) {
        self.0.set_body(b)
    }
}
request!(EncReq { path: (String,), header: IdHead });

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdHead {
    #[serde(rename = "x-call-id")]
    pub id: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IntsPath(pub i8, pub i16, pub i32, pub u16, pub u32, pub u64);
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IntsQuery {
    pub i1: i8,
    pub i2: i16,
    pub i4: i32,
    pub i8_: i64,
    pub u1: u8,
    pub u2: u16,
    pub u4: u32,
    pub u8_: u64,
    pub z: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IntsHead {
    #[serde(rename = "x-call-id")]
    pub id: String,
    #[serde(rename = "x-i1")]
    pub i1: i8,
    #[serde(rename = "x-i2")]
    pub i2: i16,
    #[serde(rename = "x-i4")]
    pub i4: i32,
    #[serde(rename = "x-i8")]
    pub i8_: i64,
    #[serde(rename = "x-u1")]
    pub u1: u8,
    #[serde(rename = "x-u2")]
    pub u2: u16,
    #[serde(rename = "x-u4")]
    pub u4: Option<u32>,
    #[serde(rename = "x-u8")]
    pub u8_: u64,
    #[serde(rename = "x-f4")]
    pub f4: f32,
    #[serde(rename = "x-f8")]
    pub f8: f64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AllQuery {
    pub id: String,
    pub b: bool,
    pub ob: Option<bool>,
    pub f: f32,
    pub d: f64,
    pub os: Option<String>,
    pub s: String,
    pub on: Option<i16>,
    #[serde(with = "htrpc::json_pretty")]
    pub j: Nested,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AllHead {
    #[serde(rename = "content-type")]
    pub ct: TextPlain,
    #[serde(rename = "X-Call-ID", alias = "x-call-id")]
    pub id: String,
    #[serde(rename = "x-b")]
    pub b: bool,
    #[serde(rename = "x-ob")]
    pub ob: Option<bool>,
    #[serde(rename = "x-s")]
    pub s: String,
    #[serde(rename = "x-os")]
    pub os: Option<String>,
    #[serde(rename = "x-w")]
    pub w: Wrap<String>,
    #[serde(rename = "x-bin")]
    pub bin: Bin,
    #[serde(rename = "x-obin")]
    pub obin: Option<Bin>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HeadQuery {
    pub id: String,
    pub x: Option<String>,
}

response!(StdRes { status: u16, header: ResHead });
response!(MinRes { status: u16 });
response!(MapRes { status: u16, header: BTreeMap<String, String> });
response!(HeadRes { status: u16, header: ResHead });

pub const CODES: &[(&str, u16)] = &[
    ("Continue", 100),
    ("SwitchingProtocols", 101),
    ("Processing", 102),
    ("Ok", 200),
    ("Created", 201),
    ("Accepted", 202),
    ("NonAuthoritativeInformation", 203),
    ("NoContent", 204),
    ("ResetContent", 205),
    ("PartialContent", 206),
    ("MultiStatus", 207),
    ("AlreadyReported", 208),
    ("ImUsed", 226),
    ("MultipleChoices", 300),
    ("MovedPermanently", 301),
    ("Found", 302),
    ("SeeOther", 303),
    ("NotModified", 304),
    ("UseProxy", 305),
    ("TemporaryRedirect", 307),
    ("PermanentRedirect", 308),
    ("BadRequest", 400),
    ("Unauthorized", 401),
    ("PaymentRequired", 402),
    ("Forbidden", 403),
    ("NotFound", 404),
    ("MethodNotAllowed", 405),
    ("NotAcceptable", 406),
    ("ProxyAuthenticationRequired", 407),
    ("RequestTimeout", 408),
    ("Conflict", 409),
    ("Gone", 410),
    ("LengthRequired", 411),
    ("PreconditionFailed", 412),
    ("PayloadTooLarge", 413),
    ("UriTooLong", 414),
    ("UnsupportedMediaType", 415),
    ("RangeNotSatisfiable", 416),
    ("ExceptionFailed", 417),
    ("ImATeapot", 418),
    ("MisdirectedRequest", 421),
    ("UnprocessableEntity", 422),
    ("Locked", 423),
    ("FailedDependency", 424),
    ("UpgradeRequired", 426),
    ("UnavailableForLegalReasons", 451),
    ("InternalServerError", 500),
    ("NotImplemented", 501),
    ("BadGateway", 502),
    ("ServiceUnavailable", 503),
    ("GatewayTimeout", 504),
    ("HttpVersionNotSupported", 505),
    ("VariantAlsoNegotiates", 506),
    ("InsufficientStorage", 507),
    ("LoopDetected", 508),
    ("BandwidthLimitExceeded", 509),
    ("NotExtended", 510),
];
/// codes whose messages carry no body in HTTP
pub fn bodyless(code: u16) -> bool {
    code < 200 || code == 204 || code == 304 || code == 205
}

macro_rules! status_enums {
    ($($n:ident),*) => {
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub enum AllRes {
            $($n { header: ResHead, #[serde(skip)] body: Body },)*
        }
        impl RpcResponse for AllRes {
            fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
                match self { $(AllRes::$n { body, .. } => Box::new(body.0.clone()),)* }
            }
            fn set_body(&mut self, b: Vec<u8>) {
                match self { $(AllRes::$n { body, .. } => *body = Body(b),)* }
            }
        }
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub enum UnitRes { $($n,)* }
        impl RpcResponse for UnitRes {
            fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
                Box::new(Vec::new())
            }
            fn set_body(&mut self, _: Vec<u8>) {}
        }
        fn all_res(i: usize, header: ResHead, body: Body) -> AllRes {
            let mut k = 0;
            $( if k == i { return AllRes::$n { header, body }; } k += 1; )*
            let _ = k;
            unreachable!()
        }
        fn unit_res(i: usize) -> UnitRes {
            let mut k = 0;
            $( if k == i { return UnitRes::$n; } k += 1; )*
            let _ = k;
            unreachable!()
        }
        pub const ALL_NAMES: &[&str] = &[$(stringify!($n)),*];
        fn all_status(code: u16) -> HttpStatus {
            let i = CODES.iter().position(|c| c.1 == code).unwrap();
            let mut k = 0;
            $( if k == i { return HttpStatus::$n; } k += 1; )*
            let _ = k;
            unreachable!()
        }
    };
}
status_enums!(
    Continue, SwitchingProtocols, Processing, Ok, Created, Accepted, NonAuthoritativeInformation, NoContent,
    ResetContent, PartialContent, MultiStatus, AlreadyReported, ImUsed, MultipleChoices, MovedPermanently, Found,
    SeeOther, NotModified, UseProxy, TemporaryRedirect, PermanentRedirect, BadRequest, Unauthorized, PaymentRequired,
    Forbidden, NotFound, MethodNotAllowed, NotAcceptable, ProxyAuthenticationRequired, RequestTimeout, Conflict, Gone,
    LengthRequired, PreconditionFailed, PayloadTooLarge, UriTooLong, UnsupportedMediaType, RangeNotSatisfiable,
    ExceptionFailed, ImATeapot, MisdirectedRequest, UnprocessableEntity, Locked, FailedDependency, UpgradeRequired,
    UnavailableForLegalReasons, InternalServerError, NotImplemented, BadGateway, ServiceUnavailable, GatewayTimeout,
    HttpVersionNotSupported, VariantAlsoNegotiates, InsufficientStorage, LoopDetected, BandwidthLimitExceeded,
    NotExtended
);

/// The variant for a status code.
pub fn all_res_of(code: u16, header: ResHead, body: Body) -> Option<AllRes> {
    CODES.iter().position(|c| c.1 == code).map(|i| all_res(i, header, body))
}

/// A response enum as users write it: typed success, unit variants, problems.
#[derive(Debug, Serialize, Deserialize)]
pub enum ProbRes {
    Ok {
        header: ResHead,
        #[serde(skip)]
        body: Body,
    },
    NoContent,
    BadRequest(ProblemResponse),
    NotFound(ProblemResponse),
    MethodNotAllowed(ProblemResponse),
    ServiceUnavailable(ProblemResponse),
    InternalServerError(ProblemResponse),
}
impl RpcResponse for ProbRes {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        match self {
            ProbRes::Ok { body, .. } => Box::new(body.0.clone()),
            ProbRes::NoContent => Box::new(Vec::new()),
            ProbRes::BadRequest(p)
            | ProbRes::NotFound(p)
            | ProbRes::MethodNotAllowed(p)
            | ProbRes::ServiceUnavailable(p)
            | ProbRes::InternalServerError(p) => p.body(),
        }
    }
    fn set_body(&mut self, b: Vec<u8>) {
        match self {
            ProbRes::Ok { body, .. } => *body = Body(b),
            ProbRes::NoContent => {}
            ProbRes::BadRequest(p)
            | ProbRes::NotFound(p)
            | ProbRes::MethodNotAllowed(p)
            | ProbRes::ServiceUnavailable(p)
            | ProbRes::InternalServerError(p) => p.set_body(b),
        }
    }
}
impl ProbRes {
    fn show(&self) -> String {
        match self {
            ProbRes::Ok { .. } | ProbRes::NoContent => format!("{:?}", self),
            ProbRes::BadRequest(p) => format!("BadRequest({:?})", p.problem()),
            ProbRes::NotFound(p) => format!("NotFound({:?})", p.problem()),
            ProbRes::MethodNotAllowed(p) => format!("MethodNotAllowed({:?})", p.problem()),
            ProbRes::ServiceUnavailable(p) => format!("ServiceUnavailable({:?})", p.problem()),
            ProbRes::InternalServerError(p) => format!("InternalServerError({:?})", p.problem()),
        }
    }
    /// status told by a problem variant, if it is consistent with the variant
    fn problem_status(&self) -> Option<u16> {
        let (v, p) = match self {
            ProbRes::Ok { .. } | ProbRes::NoContent => return None,
            ProbRes::BadRequest(p) => (400, p),
            ProbRes::NotFound(p) => (404, p),
            ProbRes::MethodNotAllowed(p) => (405, p),
            ProbRes::ServiceUnavailable(p) => (503, p),
            ProbRes::InternalServerError(p) => (500, p),
        };
        let s = match p.problem() {
            Problem::AboutBlank(b) => b.status,
            Problem::Trackable(t) => t.status,
        };
        if s == v {
            Some(v)
        } else {
            None
        }
    }
}
/// Fewer variants than the server's type.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NarrowRes {
    Ok {
        header: ResHead,
        #[serde(skip)]
        body: Body,
    },
    NotFound {
        header: ResHead,
        #[serde(skip)]
        body: Body,
    },
    Created {
        header: ResHead,
        #[serde(skip)]
        body: Body,
    },
}
impl RpcResponse for NarrowRes {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(Vec::new())
    }
    fn set_body(&mut self, b: Vec<u8>) {
        match self {
            NarrowRes::Ok { body, .. } | NarrowRes::NotFound { body, .. } | NarrowRes::Created { body, .. } => {
                *body = Body(b)
            }
        }
    }
}
/// Requires the optional header fields of `ResHead`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StrictHead {
    #[serde(rename = "content-type")]
    pub ct: TextPlain,
    #[serde(rename = "x-rid")]
    pub rid: String,
    #[serde(rename = "x-ropt")]
    pub opt: String,
    #[serde(rename = "x-rflag")]
    pub flag: bool,
    #[serde(rename = "x-rnum")]
    pub num: Wrap<i32>,
    #[serde(rename = "x-rflt")]
    pub flt: Option<f64>,
    #[serde(rename = "x-rbig")]
    pub big: Option<u64>,
    #[serde(rename = "x-rbin")]
    pub bin: Option<Bin>,
}
response!(StrictRes { status: u16, header: StrictHead });

// Partial: how much of the body is read is told by the query.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PartialQuery {
    pub id: String,
    pub read: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PartialReq {
    pub query: PartialQuery,
    #[serde(skip)]
    pub body: Body,
}
impl RpcRequest for PartialReq {
    fn body(&mut self) -> Vec<u8> {
        self.body.0.clone()
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        let n = self.query.read as usize;
        if n == 0 {
            return Box::new(futures::finished((body, self)));
        }
        Box::new(
            body.async_read(vec![0u8; n])
                .map_err(|e| Error::from(e.into_error()))
                .map(move |(r, mut b, k)| {
                    b.truncate(k);
                    self.body = Body(b);
                    (r, self)
                }),
        )
    }
}

procedure!(Echo, EchoReq, StdRes, HttpMethod::Post, segs![Val("echo"), Var, Val("x"), Var]);
procedure!(Vars, VarsReq, StdRes, HttpMethod::Get, segs![Val("v"), Var, Var, Var, Val("mid"), Var, Var, Var, Var]);
procedure!(Ints, IntsReq, MinRes, HttpMethod::Put, segs![Val("ints"), Var, Var, Var, Var, Var, Var]);
procedure!(Query, QueryReq, StdRes, HttpMethod::Get, segs![Val("q")]);
procedure!(QMap, QMapReq, MinRes, HttpMethod::Get, segs![Val("q"), Val("map")]);
procedure!(HeaderP, HeaderReq, StdRes, HttpMethod::Get, segs![Val("h"), Val("all")]);
procedure!(PathOnly, PathOnlyReq, MinRes, HttpMethod::Delete, segs![Val("p"), Var, Var]);
procedure!(UnitPath, UnitPathReq, MinRes, HttpMethod::Get, segs![Val("p"), Val("unit")]);
procedure!(BodyOnly, BodyOnlyReq, MinRes, HttpMethod::Put, segs![Val("b")]);
procedure!(HeadM, HeadReq, HeadRes, HttpMethod::Head, segs![Val("head"), Var]);
procedure!(Big, BigReq, StdRes, HttpMethod::Post, segs![Val("big")]);
procedure!(Partial, PartialReq, MinRes, HttpMethod::Post, segs![Val("partial"), Val("")]);
procedure!(StatusP, StatusReq, StdRes, HttpMethod::Get, segs![Val("status"), Var]);
procedure!(ProblemP, StatusReq, ProblemResponse, HttpMethod::Get, segs![Val("problem"), Var]);
procedure!(AllEnum, StatusReq, AllRes, HttpMethod::Get, segs![Val("enum"), Var]);
procedure!(UnitEnum, StatusReq, UnitRes, HttpMethod::Get, segs![Val("unit"), Var]);
procedure!(ProbEnum, StatusReq, ProbRes, HttpMethod::Patch, segs![Val("prob"), Var]);
procedure!(Root, RootReq, MinRes, HttpMethod::Get, segs![]);
procedure!(Enc, EncReq, MinRes, HttpMethod::Post, segs![Val("a b"), Val("é%"), Var, Val("x+y&z=?")]);
procedure!(NewT, NewReq, NewRes, HttpMethod::Post, segs![Val("new"), Val("type")]);
procedure!(HMap, HMapReq, MapRes, HttpMethod::Put, segs![Val("h"), Val("map")]);
procedure!(NarrowP, StatusReq, NarrowRes, HttpMethod::Get, segs![Val("enum"), Var]);
procedure!(NarrowHdr, StatusReq, StrictRes, HttpMethod::Get, segs![Val("status"), Var]);
procedure!(Missing, StatusReq, ProbRes, HttpMethod::Get, segs![Val("nope"), Var]);
procedure!(WrongMethod, StatusReq, ProbRes, HttpMethod::Post, segs![Val("status"), Var]);
procedure!(BadType, BadReq, ProbRes, HttpMethod::Get, segs![Val("q")]);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadQuery {
    pub id: String,
    pub b: String,
    pub f: Option<String>,
}
request!(BadReq { query: BadQuery });

/// What the simulator needs to know about a procedure.
pub trait SimProc: Procedure<Request: fmt::Debug + Clone, Response: Send> + Copy + Send + 'static {
    const NAME: &'static str;
    fn gen_req(id: u64, g: &mut G) -> Self::Request;
    fn gen_res(id: u64, req: Option<&Self::Request>, g: &mut G) -> Self::Response;
    fn req_id(req: &Self::Request) -> Option<u64>;
    /// what the handler is expected to see for this request
    fn seen(req: &Self::Request) -> String {
        format!("{:?}", req)
    }
    fn show(res: &Self::Response) -> String;
    fn is_problem(_res: &Self::Response) -> Option<u16> {
        None
    }
}
fn tid(s: &str) -> Option<u64> {
    let id = wire::find_token(s.as_bytes())?;
    if s == wire::token(id) {
        Some(id)
    } else {
        None
    }
}
fn pick_status(g: &mut G) -> u16 {
    match g.r.below(8) {
        0 if g.level >= 2 => {
            g.must = false;
            *g.r.pick(&[0u16, 99, 209, 299, 306, 420, 511, 599, 600, 999, 1000, 65535])
        }
        1..=5 => g.r.pick(CODES).1,
        _ => 200,
    }
}
/// Header fields named at run time. The names are lower-case ones: they are on arrival.
/// Fields that htrpc adds to a message by itself. (Those given are compared on the wire.)
fn added(k: &str) -> bool {
    k.eq_ignore_ascii_case("content-length") || k.eq_ignore_ascii_case("host")
}
fn header_map(g: &mut G) -> BTreeMap<String, String> {
    let n = match g.r.below(6) {
        0 => 0,
        1 => g.r.range(10, 26),
        2 if g.level >= 2 && g.r.chance(20) => g.r.range(27, 40),
        _ => g.r.range(1, 6),
    };
    if n > 26 {
        // more than the protocol implementation takes
        g.must = false;
    }
    let mut m = BTreeMap::new();
    for i in 0..n {
        let k = match g.r.below(12) {
            0 => g.r.pick(&["!#$%&'*+-.^_`|~", "0", "-", "etag", "host", "accept", "via", "x_y", "cookie", "date", "server"]).to_string(),
            1 if g.level >= 2 && g.r.chance(30) => {
                g.must = false;
                g.r.pick(&["", " ", "a b", "a:b", ":", "é", "a\r\nb", "x\r\nx-evil", "(x)", "a\tb", "\0", "x ", " x", "a=b", "\u{7f}", "\"q\"", "a/b", "[a]", "a@b", "x: 1\r\ny"])
                    .to_string()
            }
            _ => format!("x-{}{}", (b'a' + g.r.below(26) as u8) as char, i),
        };
        let v = if n > 10 { format!("v{}", g.r.below(1000)) } else { g.hstr() };
        g.head += k.len() + v.len() + 4;
        m.insert(k, v);
    }
    if g.level >= 1 && g.r.chance(4) {
        // fields that say how long the message is (htrpc says so itself): carried only if they are true
        g.must = false;
        let (k, v) = match g.r.below(10) {
            0 => ("transfer-encoding", "chunked".to_string()),
            1 => ("Transfer-Encoding", g.r.pick(&["identity", "gzip", "chunked, chunked", ""]).to_string()),
            2 => ("Content-Length", g.r.below(400).to_string()),
            3 => ("content-length", g.r.pick(&["", "x", "-1", "+3", "0x10", "1e3", "18446744073709551616", "5, 5", "٣"]).to_string()),
            _ => ("content-length", g.r.pick(&["0", "1", "2", "7", "30", "100000"]).to_string()),
        };
        m.insert(k.to_string(), v);
    }
    m
}
/// A handler may give a body even with a status that has none in HTTP: it goes under its Content-Length.
fn body_for(status: u16, id: u64, g: &mut G) -> Body {
    if bodyless(status) && g.r.chance(60) {
        Body(vec![])
    } else {
        g.body(id)
    }
}
fn std_res(id: u64, g: &mut G) -> StdRes {
    let status = pick_status(g);
    StdRes {
        status,
        header: ResHead::gen(id, g),
        body: body_for(status, id, g),
    }
}
fn min_res(id: u64, g: &mut G) -> MinRes {
    let status = pick_status(g);
    MinRes {
        status,
        body: body_for(status, id, g),
    }
}
fn problem(g: &mut G, code: u16) -> Problem {
    use htrpc::rfc7807::TrackableProblem;
    let st = all_status(code);
    if g.flag() {
        Problem::about_blank(st)
    } else {
        let mut t = TrackableProblem {
            title: g.raw_str(),
            status: code,
            detail: g.opt(|g| g.raw_str()),
            instance: g.opt(|g| {
                let mut u = url::Url::parse(*g.r.pick(&["http://example.com/", "https://[fd00::1]:8443/a?b=c#d", "urn:x:y", "data:,x"])).unwrap();
                if g.flag() {
                    let s = g.raw_str();
                    u.query_pairs_mut().append_pair("q", &s);
                }
                u
            }),
            history: g.opt(|g| {
                let n = g.r.below(3);
                (0..n).map(|_| g.raw_str()).collect()
            }),
        };
        if g.r.chance(10) {
            t.title = "x".repeat(20_000);
        }
        t.into()
    }
}
fn problem_response(g: &mut G, code: u16) -> htrpc::rfc7807::ProblemResponse {
    if g.r.chance(20) {
        // another problem at first
        let other = *g.r.pick(&[400u16, 404, 500, 503]);
        let mut r = problem(g, other).into_response();
        r.set_problem(problem(g, code));
        r
    } else {
        problem(g, code).into_response()
    }
}

macro_rules! sim_proc {
    ($p:ident, $id:ident, $g:ident, req $req:expr, id |$r:ident| $rid:expr, res $res:expr) => {
        sim_proc!($p, $id, $g, req $req, id |$r| $rid, res $res, show |x| format!("{:?}", x), prob |_x| None, seen |q| format!("{:?}", q));
    };
    ($p:ident, $id:ident, $g:ident, req $req:expr, id |$r:ident| $rid:expr, res $res:expr,
     show |$x:ident| $show:expr, prob |$y:ident| $prob:expr, seen |$q:ident| $seen:expr) => {
        impl SimProc for $p {
            const NAME: &'static str = stringify!($p);
            fn gen_req($id: u64, $g: &mut G) -> Self::Request { $req }
            #[allow(unused_variables)]
            fn gen_res($id: u64, req: Option<&Self::Request>, $g: &mut G) -> Self::Response { $res }
            fn req_id($r: &Self::Request) -> Option<u64> { $rid }
            fn show($x: &Self::Response) -> String { $show }
            fn is_problem($y: &Self::Response) -> Option<u16> { $prob }
            fn seen($q: &Self::Request) -> String { $seen }
        }
    };
}

sim_proc!(Echo, id, g,
    req EchoReq { path: (g.pstr(false), g.pstr(false)), query: EchoQuery::gen(g), header: ReqHead::gen(id, g), body: g.body(id) },
    id |r| tid(&r.header.id), res std_res(id, g));
sim_proc!(Vars, id, g,
    req VarsReq {
        path: (g.flag(), g.int(64) as i64, g.f64(), g.pstr(false), g.int(8) as u8, g.f32(), Wrap(g.pstr(false))),
        header: IdHead { id: wire::token(id) }, body: if g.flag() { Body(vec![]) } else { g.body(id) } },
    id |r| tid(&r.header.id), res std_res(id, g));
sim_proc!(Ints, id, g,
    req IntsReq {
        path: IntsPath(g.int(8) as i8, g.int(16) as i16, g.int(32) as i32, g.int(16) as u16, g.int(32) as u32, g.int(64)),
        query: IntsQuery { i1: g.int(8) as i8, i2: g.int(16) as i16, i4: g.int(32) as i32, i8_: g.int(64) as i64,
            u1: g.int(8) as u8, u2: g.int(16) as u16, u4: g.int(32) as u32, u8_: g.int(64), z: g.int(64) as usize },
        header: IntsHead { id: wire::token(id), i1: g.int(8) as i8, i2: g.int(16) as i16, i4: g.int(32) as i32,
            i8_: g.int(64) as i64, u1: g.int(8) as u8, u2: g.int(16) as u16, u4: g.opt(|g| g.int(32) as u32),
            u8_: g.int(64), f4: g.f32(), f8: g.f64() },
        body: Body(vec![]) },
    id |r| tid(&r.header.id), res min_res(id, g));
sim_proc!(Query, id, g,
    req QueryReq { query: AllQuery { id: wire::token(id), b: g.flag(), ob: g.opt(|g| g.flag()), f: g.f32(), d: g.f64(),
        os: g.opt(|g| g.qstr()), s: g.qstr(), on: g.opt(|g| g.int(16) as i16),
        j: Nested { a: 1, b: { let s = g.qstr(); g.head += enc_len(&s) * 2 + 100; vec![s] }, c: None, m: Pack::gen(g) } }, body: Body(vec![]) },
    id |r| tid(&r.query.id), res std_res(id, g));
sim_proc!(QMap, id, g,
    req QMapReq { query: if g.r.chance(6) { let n = g.r.range(8, 80); g.head += n as usize * 30; (0..n).map(|i| (format!("k{}", i), g.int(40).to_string())).collect() }
            else { let n = g.r.below(6); (0..n).map(|_| (g.qstr(), g.qstr())).collect() },
        header: IdHead { id: wire::token(id) }, body: g.body(id) },
    id |r| tid(&r.header.id), res min_res(id, g));
sim_proc!(HeaderP, id, g,
    req HeaderReq { header: AllHead { ct: TextPlain, id: wire::token(id), b: g.flag(), ob: g.opt(|g| g.flag()), s: g.hstr(),
        os: g.opt(|g| g.hstr()), w: Wrap(g.hstr()), bin: g.bin(), obin: g.opt(|g| g.bin()) }, body: g.body(id) },
    id |r| tid(&r.header.id), res std_res(id, g));
sim_proc!(PathOnly, id, g,
    req PathOnlyReq { path: (wire::token(id), g.pstr(false)), body: Body(vec![]) },
    id |r| tid(&r.path.0), res min_res(id, g));
sim_proc!(UnitPath, id, g,
    req UnitPathReq { path: (), header: IdHead { id: wire::token(id) }, body: Body(vec![]) },
    id |r| tid(&r.header.id), res min_res(id, g));
sim_proc!(BodyOnly, id, g,
    req BodyOnlyReq { body: { let n = g.r.range(10, 5000) as usize; g.body_n(id, n) } },
    id |r| wire::find_token(&r.body.0[..r.body.0.len().min(10)]), res min_res(id, g));
sim_proc!(HeadM, id, g,
    req HeadReq { path: (g.pstr(false),), query: HeadQuery { id: wire::token(id), x: g.opt(|g| g.qstr()) }, body: Body(vec![]) },
    id |r| tid(&r.query.id),
    res HeadRes { status: pick_status(g), header: ResHead::gen(id, g), body: g.body(id) },
    // the body of a HEAD response is not transmitted
    show |x| format!("{} {:?}", x.status, x.header), prob |_x| None, seen |q| format!("{:?}", q));
fn big_len(g: &mut G) -> u64 {
    if g.r.below(150) == 0 {
        return g.r.range(1_000_000, 5_000_000);
    }
    *g.r.pick(&[1000u64, 8096, 8192, 20_000, 65_536, 100_000, 200_000, 300_000]) + g.r.below(50)
}
sim_proc!(Big, id, g,
    req BigReq { header: IdHead { id: wire::token(id) }, body: {
        let n = big_len(g);
        g.body_n(id, n as usize) } },
    id |r| tid(&r.header.id),
    res StdRes { status: 200, header: ResHead::gen(id, g), body: {
        let n = if g.r.chance(10) { 0 } else { big_len(g) };
        g.body_n(id, n as usize) } });
sim_proc!(Partial, id, g,
    req {
        let n = *g.r.pick(&[0u64, 5, 100, 1000, 5000, 20_000, 70_000]);
        let body = g.body_n(id, n as usize);
        let read = *g.r.pick(&[0u32, 0, 1, 50, 999, 100_000]);
        PartialReq { query: PartialQuery { id: wire::token(id), read }, body }
    },
    id |r| tid(&r.query.id), res min_res(id, g),
    show |x| format!("{:?}", x), prob |_x| None,
    // how much one read returns depends on timing: only the prefix property is judged (see `prefix`)
    seen |q| format!("{:?}", q.query));
sim_proc!(StatusP, id, g,
    req StatusReq { path: (wire::token(id),), body: g.body(id) },
    id |r| tid(&r.path.0), res std_res(id, g));
sim_proc!(ProblemP, id, g,
    req StatusReq { path: (wire::token(id),), body: Body(vec![]) },
    id |r| tid(&r.path.0),
    res { let c = loop { let c = g.r.pick(CODES).1; if !bodyless(c) { break c; } }; problem_response(g, c) });
sim_proc!(AllEnum, id, g,
    req StatusReq { path: (wire::token(id),), body: Body(vec![]) },
    id |r| tid(&r.path.0),
    res { let i = if g.r.chance(40) { *g.r.pick(&[3usize, 4, 25]) } else { g.r.idx(CODES.len()) };
        let b = body_for(CODES[i].1, id, g);
        all_res(i, ResHead::gen(id, g), b) });
sim_proc!(UnitEnum, id, g,
    req StatusReq { path: (wire::token(id),), body: Body(vec![]) },
    id |r| tid(&r.path.0), res { let i = g.r.idx(CODES.len()); unit_res(i) });
sim_proc!(ProbEnum, id, g,
    req StatusReq { path: (wire::token(id),), body: g.body(id) },
    id |r| tid(&r.path.0),
    res match g.r.below(7) {
        0 => ProbRes::NoContent,
        1 => ProbRes::BadRequest(problem_response(g, 400)),
        2 => ProbRes::NotFound(problem_response(g, 404)),
        3 => ProbRes::MethodNotAllowed(problem_response(g, 405)),
        4 => ProbRes::ServiceUnavailable(problem_response(g, 503)),
        5 => ProbRes::InternalServerError(problem_response(g, 500)),
        _ => ProbRes::Ok { header: ResHead::gen(id, g), body: g.body(id) },
    },
    show |x| x.show(), prob |y| y.problem_status(), seen |q| format!("{:?}", q));
sim_proc!(Root, id, g,
    req RootReq { query: HeadQuery { id: wire::token(id), x: g.opt(|g| g.qstr()) }, body: g.body(id) },
    id |r| tid(&r.query.id), res min_res(id, g));
sim_proc!(Enc, id, g,
    req EncReq { path: (g.pstr(false),), header: IdHead { id: wire::token(id) }, body: Body(vec![]) },
    id |r| tid(&r.header.id), res min_res(id, g));
sim_proc!(NewT, id, g,
    req NewReq(NewInner { path: UnitStruct, header: IdHead { id: wire::token(id) }, body: g.body(id) }),
    id |r| tid(&r.0.header.id), res NewRes(min_res(id, g)));
sim_proc!(HMap, id, g,
    req HMapReq { query: PartialQuery { id: wire::token(id), read: 0 }, header: header_map(g), body: g.body(id) },
    id |r| tid(&r.query.id),
    res { let status = pick_status(g);
        MapRes { status, header: header_map(g), body: body_for(status, id, g) } },
    show |x| { let mut y = x.clone(); y.header.retain(|k, _| !added(k)); format!("{:?}", y) }, prob |_x| None,
    seen |q| { let mut y = q.clone(); y.header.retain(|k, _| !added(k)); format!("{:?}", y) });
sim_proc!(NarrowP, id, g,
    req StatusReq { path: (wire::token(id),), body: Body(vec![]) },
    id |r| tid(&r.path.0), res unreachable!());
sim_proc!(NarrowHdr, id, g,
    req StatusReq { path: (wire::token(id),), body: Body(vec![]) },
    id |r| tid(&r.path.0), res unreachable!(),
    show |x| {
        let h = &x.header;
        let y = StdRes { status: x.status, body: x.body.clone(), header: ResHead { ct: TextPlain, rid: h.rid.clone(),
            opt: Some(h.opt.clone()), flag: Some(h.flag), num: h.num.clone(), flt: h.flt, big: h.big, bin: h.bin.clone() } };
        format!("{:?}", y)
    }, prob |_x| None, seen |q| format!("{:?}", q));
sim_proc!(Missing, id, g,
    req StatusReq { path: (wire::token(id),), body: g.body(id) },
    id |r| tid(&r.path.0), res unreachable!(),
    show |x| x.show(), prob |y| y.problem_status(), seen |q| format!("{:?}", q));
sim_proc!(WrongMethod, id, g,
    req StatusReq { path: (wire::token(id),), body: g.body(id) },
    id |r| tid(&r.path.0), res unreachable!(),
    show |x| x.show(), prob |y| y.problem_status(), seen |q| format!("{:?}", q));
sim_proc!(BadType, id, g,
    req BadReq { query: BadQuery { id: wire::token(id), b: g.r.pick(&["", "ture", "1", "TRUE", "no"]).to_string(), f: g.opt(|_| "1.5".to_string()) }, body: g.body(id) },
    id |r| tid(&r.query.id), res unreachable!(),
    show |x| x.show(), prob |y| y.problem_status(), seen |q| format!("{:?}", q));

// ---------------------------------------------------------------- routing table slots

/// Path variables of a table slot: a tuple of as many strings as the entry point has variables.
#[derive(Clone, Debug, PartialEq)]
pub struct DynPath(pub Vec<String>);
impl serde::Serialize for DynPath {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(self.0.len())?;
        for v in &self.0 {
            t.serialize_element(v)?;
        }
        t.end()
    }
}
impl<'de> serde::Deserialize<'de> for DynPath {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = DynPath;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "path variables")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<DynPath, A::Error> {
                let mut v = vec![];
                while let Some(s) = a.next_element::<String>()? {
                    v.push(s);
                }
                Ok(DynPath(v))
            }
        }
        d.deserialize_tuple(16, V)
    }
}
request!(DynReq { path: DynPath, header: IdHead });
#[derive(Clone, Copy)]
pub struct DynP<const N: usize>;
pub fn method_of(s: &str) -> HttpMethod {
    match s {
        "GET" => HttpMethod::Get,
        "POST" => HttpMethod::Post,
        "PUT" => HttpMethod::Put,
        "DELETE" => HttpMethod::Delete,
        "HEAD" => HttpMethod::Head,
        "PATCH" => HttpMethod::Patch,
        "OPTIONS" => HttpMethod::Options,
        "TRACE" => HttpMethod::Trace,
        "CONNECT" => HttpMethod::Connect,
        _ => panic!("method {}", s),
    }
}
pub fn intern(segs: &[Option<String>]) -> &'static [PathSegment] {
    use std::sync::Mutex;
    static CACHE: Mutex<BTreeMap<Vec<Option<String>>, &'static [PathSegment]>> = Mutex::new(BTreeMap::new());
    let mut c = CACHE.lock().unwrap();
    if let Some(s) = c.get(segs) {
        return s;
    }
    let v: Vec<PathSegment> = segs
        .iter()
        .map(|s| match s {
            None => Var,
            Some(s) => Val(Box::leak(s.clone().into_boxed_str())),
        })
        .collect();
    let l: &'static [PathSegment] = Box::leak(v.into_boxed_slice());
    c.insert(segs.to_vec(), l);
    l
}
impl<const N: usize> Procedure for DynP<N> {
    type Request = DynReq;
    type Response = MinRes;
    fn method() -> HttpMethod {
        ctx::with(|r| method_of(&r.plan.table[N].method))
    }
    fn entry_point() -> EntryPoint {
        ctx::with(|r| EntryPoint::new(intern(&r.plan.table[N].segs)))
    }
}
impl<const N: usize> SimProc for DynP<N> {
    const NAME: &'static str = "Dyn";
    fn gen_req(id: u64, g: &mut G) -> DynReq {
        let segs = ctx::with(|r| r.plan.table[N].segs.clone());
        let consts: Vec<String> = ctx::with(|r| {
            r.plan
                .table
                .iter()
                .flat_map(|t| t.segs.iter().filter_map(|s| s.clone()))
                .collect()
        });
        let (table, method) = ctx::with(|r| (r.plan.table.clone(), r.plan.table[N].method.clone()));
        let mut v = vec![];
        let must = g.must;
        let head = g.head;
        for attempt in 0..12 {
            v.clear();
            g.must = must;
            g.head = head;
            let mut path: Vec<Vec<u8>> = vec![];
            for (i, s) in segs.iter().enumerate() {
                if let Some(s) = s {
                    path.push(s.clone().into_bytes());
                    continue;
                }
                let t = if attempt == 11 {
                    format!("nowhere{}", i)
                } else if !consts.is_empty() && g.r.chance(50) {
                    let s = g.r.pick(&consts).clone();
                    if !path_ok(&s) {
                        g.must = false;
                    }
                    s
                } else {
                    g.pstr(i == 0)
                };
                path.push(t.clone().into_bytes());
                v.push(t);
            }
            if path.is_empty() {
                path.push(vec![]);
            }
            // values for which a more specific entry point wins belong to that one
            if crate::families::winner(&table, &method, &path) == Ok(N) {
                break;
            }
        }
        DynReq {
            path: DynPath(v),
            header: IdHead { id: wire::token(id) },
            body: if g.flag() { Body(vec![]) } else { g.body(id) },
        }
    }
    fn gen_res(id: u64, _: Option<&DynReq>, g: &mut G) -> MinRes {
        MinRes {
            status: 200,
            body: g.body(id),
        }
    }
    fn req_id(r: &DynReq) -> Option<u64> {
        tid(&r.header.id)
    }
    fn show(res: &MinRes) -> String {
        let head = ctx::with(|r| r.plan.table[N].method == "HEAD");
        if head {
            format!("{}", res.status)
        } else {
            format!("{:?}", res)
        }
    }
}

// ---------------------------------------------------------------- handler

pub struct H<P> {
    server: usize,
    slot: Option<usize>,
    _p: PhantomData<fn(P)>,
}
impl<P> H<P> {
    pub fn new(server: usize, slot: Option<usize>) -> Self {
        H {
            server,
            slot,
            _p: PhantomData,
        }
    }
}
impl<P> Clone for H<P> {
    fn clone(&self) -> Self {
        // The registered value only promises Send + Clone: note overlapping use from other threads.
        let key = self as *const _ as usize;
        let run = ctx::get();
        {
            let mut r = ctx::lock(&run);
            r.clones += 1;
            let n = {
                let e = r.in_clone.entry(key).or_insert(0);
                *e += 1;
                *e
            };
            if n > 1 {
                r.clone_overlaps += 1;
                r.note("handler cloned by two threads at once");
            }
        }
        crate::threads::yield_point();
        {
            let mut r = ctx::lock(&run);
            *r.in_clone.get_mut(&key).unwrap() -= 1;
        }
        H {
            server: self.server,
            slot: self.slot,
            _p: PhantomData,
        }
    }
}
pub fn res_rng(seed: u64, id: u64) -> Rng {
    Rng::sub(seed, id.wrapping_mul(2) ^ 0x5555_0000_0001)
}
pub fn req_rng(seed: u64, id: u64) -> Rng {
    Rng::sub(seed, id.wrapping_mul(2) ^ 0x7777_0000_0000)
}
impl<P: SimProc> HandleRpc<P> for H<P> {
    type Future = Box<dyn Future<Item = P::Response, Error = NeverFail> + Send + 'static>;
    fn handle_rpc(self, req: P::Request) -> Self::Future {
        let id = P::req_id(&req);
        let run = ctx::get();
        let (seed, level, delay, os_threads) = {
            let r = ctx::lock(&run);
            let i = id.unwrap_or(0);
            (
                r.plan.seed,
                r.levels.get(&i).cloned().unwrap_or(0),
                r.delays.get(&i).cloned().unwrap_or(0),
                r.plan.os_threads,
            )
        };
        let mut rng = res_rng(seed, id.unwrap_or(999_999));
        let mut res = P::gen_res(id.unwrap_or(999_999), Some(&req), &mut G::new(&mut rng, level));
        let wire = crate::flat::WireRes {
            tree: crate::flat::tree(&res),
            body: crate::flat::hash((*res.body()).as_ref()),
        };
        let what = match self.slot {
            Some(s) => format!("slot{}", s),
            None => P::NAME.to_string(),
        };
        let (q, s) = (P::seen(&req), P::show(&res));
        let (rec, rec_ev);
        {
            let mut r = ctx::lock(&run);
            let (at, ev) = r.now();
            rec_ev = ev;
            r.note(&format!("server {} handles {} for call {:?}", self.server, what, id));
            r.handlers.push(ctx::HandlerRec {
                id,
                server: self.server,
                what,
                req: q,
                res: s,
                wire,
                at,
                ev,
                delay_us: delay,
                end: None,
                dropped: None,
            });
            rec = r.handlers.len() - 1;
        }
        if os_threads {
            // a handler that computes for a while
            let mut rng = Rng::sub(seed, id.unwrap_or(999_999) ^ 0x3333_0000_0000);
            if rng.chance(40) {
                for _ in 0..rng.range(1, 60) {
                    crate::threads::handler_yield();
                }
            }
        }
        let inner: Self::Future = if delay == 0 {
            Box::new(futures::finished(res))
        } else {
            let t = fibers::time::timer::timeout(std::time::Duration::from_micros(delay));
            Box::new(t.then(move |_| Ok(res)))
        };
        Box::new(Watched { inner, rec, ev: rec_ev, done: false })
    }
}

/// Records whether a handler's future was run to its end.
struct Watched<T> {
    inner: Box<dyn Future<Item = T, Error = htrpc::types::NeverFail> + Send + 'static>,
    rec: usize,
    ev: u64,
    done: bool,
}
impl<T> Watched<T> {
    fn record(&self, f: impl FnOnce(&mut ctx::HandlerRec, u64)) {
        if let Some(run) = ctx::try_get() {
            let mut r = ctx::lock(&run);
            let (at, _) = r.now();
            let ev = self.ev;
            if let Some(h) = r.handlers.get_mut(self.rec) {
                if h.ev == ev {
                    f(h, at);
                }
            }
        }
    }
}
impl<T> Future for Watched<T> {
    type Item = T;
    type Error = htrpc::types::NeverFail;
    fn poll(&mut self) -> futures::Poll<T, Self::Error> {
        let r = self.inner.poll();
        if let Ok(futures::Async::Ready(_)) = r {
            self.done = true;
            self.record(|h, at| h.end = Some(at));
        }
        r
    }
}
impl<T> Drop for Watched<T> {
    fn drop(&mut self) {
        if !self.done {
            self.record(|h, at| h.dropped = Some(at));
        }
    }
}

// ---------------------------------------------------------------- calls

pub type CallFuture = Box<dyn Future<Item = (String, Option<u16>), Error = String> + Send + 'static>;
pub enum Via<'a> {
    Pool(&'a htrpc::pool::RpcClientPoolHandle),
    Direct,
}
pub struct Started {
    pub fut: CallFuture,
    pub req: String,
    pub must: bool,
    pub expect: Expect,
    pub wire: crate::flat::WireReq,
}
fn start_p<P: SimProc>(via: Via, direct: &mut htrpc::RpcClient, to: std::net::SocketAddr, id: u64, level: u8, seed: u64, kind: Kind) -> Started {
    let mut rng = req_rng(seed, id);
    let mut g = G::new(&mut rng, level);
    let req = P::gen_req(id, &mut g);
    let mut must = g.ok();
    let expect = match kind {
        Kind::Missing => Expect::Problem(404),
        Kind::WrongMethod => Expect::Problem(405),
        Kind::BadType => Expect::Problem(400),
        Kind::Narrow | Kind::NarrowHdr => Expect::Narrow,
        _ => Expect::Handler,
    };
    if expect == Expect::Handler {
        // the response has to be representable too
        let mut rng = res_rng(seed, id);
        let mut g = G::new(&mut rng, level);
        let _ = P::gen_res(id, Some(&req), &mut g);
        must &= g.ok();
    }
    let s = P::seen(&req);
    let wire = crate::flat::WireReq {
        method: P::method().to_string(),
        segs: P::entry_point().segments().iter().map(|s| s.as_option()).collect(),
        tree: crate::flat::tree(&req),
        body: crate::flat::hash(&req.clone().body()),
    };
    fn fin<P: SimProc>(
        f: impl Future<Item = P::Response, Error = Error> + Send + 'static,
    ) -> CallFuture {
        Box::new(
            f.map(|r| (P::show(&r), P::is_problem(&r)))
                .map_err(|e| {
                    let t = e.to_string();
                    t.lines().next().unwrap_or("").to_string()
                }),
        )
    }
    let fut = match via {
        Via::Pool(h) => {
            let c = h.client(to);
            if id % 4 == 0 {
                // (one that is not used)
                let _c = h.client(to);
            }
            fin::<P>(c.call::<P>(req))
        }
        Via::Direct => fin::<P>(direct.call::<P>(req)),
    };
    Started {
        fut,
        req: s,
        must,
        expect,
        wire,
    }
}
macro_rules! dyn_dispatch {
    ($n:expr, $f:ident, ($($a:expr),*)) => {
        match $n {
            0 => $f::<DynP<0>>($($a),*),
            1 => $f::<DynP<1>>($($a),*),
            2 => $f::<DynP<2>>($($a),*),
            3 => $f::<DynP<3>>($($a),*),
            4 => $f::<DynP<4>>($($a),*),
            5 => $f::<DynP<5>>($($a),*),
            6 => $f::<DynP<6>>($($a),*),
            7 => $f::<DynP<7>>($($a),*),
            8 => $f::<DynP<8>>($($a),*),
            9 => $f::<DynP<9>>($($a),*),
            10 => $f::<DynP<10>>($($a),*),
            11 => $f::<DynP<11>>($($a),*),
            _ => panic!("slot"),
        }
    };
}
macro_rules! dispatch {
    ($k:expr, $f:ident, ($($a:expr),*)) => {
        match $k {
            Kind::Echo => $f::<Echo>($($a),*),
            Kind::Vars => $f::<Vars>($($a),*),
            Kind::Ints => $f::<Ints>($($a),*),
            Kind::Query => $f::<Query>($($a),*),
            Kind::QMap => $f::<QMap>($($a),*),
            Kind::Header => $f::<HeaderP>($($a),*),
            Kind::PathOnly => $f::<PathOnly>($($a),*),
            Kind::UnitPath => $f::<UnitPath>($($a),*),
            Kind::BodyOnly => $f::<BodyOnly>($($a),*),
            Kind::HeadM => $f::<HeadM>($($a),*),
            Kind::Big => $f::<Big>($($a),*),
            Kind::Partial => $f::<Partial>($($a),*),
            Kind::Status => $f::<StatusP>($($a),*),
            Kind::Problem => $f::<ProblemP>($($a),*),
            Kind::AllEnum => $f::<AllEnum>($($a),*),
            Kind::UnitEnum => $f::<UnitEnum>($($a),*),
            Kind::ProbEnum => $f::<ProbEnum>($($a),*),
            Kind::Root => $f::<Root>($($a),*),
            Kind::Enc => $f::<Enc>($($a),*),
            Kind::HMap => $f::<HMap>($($a),*),
            Kind::NewT => $f::<NewT>($($a),*),
            Kind::Narrow => $f::<NarrowP>($($a),*),
            Kind::NarrowHdr => $f::<NarrowHdr>($($a),*),
            Kind::Missing => $f::<Missing>($($a),*),
            Kind::WrongMethod => $f::<WrongMethod>($($a),*),
            Kind::BadType => $f::<BadType>($($a),*),
            Kind::Dyn(n) => dyn_dispatch!(n, $f, ($($a),*)),
        }
    };
}
pub fn start(kind: Kind, via: Via, direct: &mut htrpc::RpcClient, to: std::net::SocketAddr, id: u64, level: u8, seed: u64) -> Started {
    dispatch!(kind, start_p, (via, direct, to, id, level, seed, kind))
}
fn register_p<P: SimProc + Default2>(b: &mut htrpc::RpcServerBuilder, server: usize, slot: Option<usize>) -> bool {
    b.register(H::<P>::new(server, slot), P::value()).is_ok()
}
/// a value of a unit procedure type
pub trait Default2 {
    fn value() -> Self;
}
macro_rules! values { ($($p:ident),*) => { $(impl Default2 for $p { fn value() -> Self { $p } })* } }
values!(
    Echo, Vars, Ints, Query, QMap, HeaderP, PathOnly, UnitPath, BodyOnly, HeadM, Big, Partial, StatusP, ProblemP,
    AllEnum, UnitEnum, ProbEnum, Root, Enc, HMap, NewT, NarrowP, NarrowHdr, Missing, WrongMethod, BadType
);
impl<const N: usize> Default2 for DynP<N> {
    fn value() -> Self {
        DynP::<N>
    }
}
pub fn register(kind: Kind, b: &mut htrpc::RpcServerBuilder, server: usize, slot: Option<usize>) -> bool {
    dispatch!(kind, register_p, (b, server, slot))
}
/// Name under which the handler of this kind records itself.
pub fn what(kind: Kind) -> String {
    fn name<P: SimProc>() -> String {
        P::NAME.to_string()
    }
    match kind {
        Kind::Narrow => "AllEnum".into(),
        Kind::NarrowHdr => "StatusP".into(),
        Kind::Dyn(n) => format!("slot{}", n),
        k => dispatch!(k, name, ()),
    }
}
