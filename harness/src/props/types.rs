//! C25: serde types as users write them (attributes, representations, std
//! types without a declared schema) under a schema written out by hand.

use super::byhand::BY_HAND;
use crate::{check, gen, io::*, model::*, probe::*, rng::Rng, run::*, session::*};
use binschema::{
    schema,
    value::{ScalarValue as V, Value},
    CoderState, CoderStateAlloc, Decoder, Schema,
};
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use std::{
    borrow::Cow,
    cell::{Cell, RefCell},
    cmp::Reverse,
    collections::*,
    ffi::{CString, OsString},
    fmt::Debug,
    marker::PhantomData,
    net::*,
    num::*,
    ops::*,
    path::PathBuf,
    sync::{atomic::*, Mutex, RwLock},
    time::{Duration, SystemTime},
};

// ---- values ----

pub(super) fn s<T: ToString + ?Sized>(x: &T) -> Value {
    Value::Str(x.to_string())
}
pub(super) fn b8(x: u8) -> Value {
    Value::Scalar(V::U8(x))
}
pub(super) fn b16(x: u16) -> Value {
    Value::Scalar(V::U16(x))
}
pub(super) fn b32(x: u32) -> Value {
    Value::Scalar(V::U32(x))
}
pub(super) fn b64(x: u64) -> Value {
    Value::Scalar(V::U64(x))
}
fn i32v(x: i32) -> Value {
    Value::Scalar(V::I32(x))
}
pub(super) fn bool_(x: bool) -> Value {
    Value::Scalar(V::Bool(x))
}
pub(super) fn opt(x: Option<Value>) -> Value {
    Value::Option(x.map(Box::new))
}
pub(super) fn st(f: Vec<(&str, Value)>) -> Value {
    v_struct(f)
}
pub(super) fn n32(r: &mut Rng) -> u32 {
    r.num(32) as u32
}
fn n64(r: &mut Rng) -> u64 {
    r.num(64) as u64
}
pub(super) fn bytes_seq(x: &[u8]) -> Value {
    Value::VarLenSeq(x.iter().map(|&y| b8(y)).collect())
}

// ---- the check of one value ----

pub(super) struct Trip<'c> {
    pub cx: &'c mut Cx,
    name: &'static str,
    /// reading back may also be refused
    lenient: bool,
}

impl<'c> Trip<'c> {
    /// Serialize, compare the bytes, deserialize, deserialize in place, compare.
    pub fn go<T: Serialize + DeserializeOwned>(&mut self, sc: &Schema, x: &T, want: Value, eq: impl Fn(&T, &T) -> bool, mut old: T) -> R {
        let name = self.name;
        let cx = &mut *self.cx;
        let t = Tree::new(sc);
        let b = match enc(&t, &want) {
            Some(b) => b,
            None => panic!("{}: {:?} is no value of {:?}", name, want, sc),
        };
        let mut w = if cx.rng.chance(1, 8) { W::chunked(&mut cx.rng) } else { W::new() };
        let e = encode_with(sc, &mut w, "serialize", |e| x.serialize(e))?;
        check!(
            e.res.is_ok() && e.finished && w.out == b,
            format!("serialize:{}", name),
            "{} {}: {:?}, finished {}, written {}, documented {}",
            name,
            vshow(&want),
            e.res,
            e.finished,
            bshow(&w.out),
            bshow(&b)
        );
        let mut m = b.clone();
        for _ in 0..cx.rng.below(3) {
            m.push(cx.rng.u64() as u8);
        }
        let mut rd = if cx.rng.chance(1, 8) { Rd::chunked(&m, &mut cx.rng) } else { Rd::new(&m) };
        let (y, fin) = decode_with(sc, &mut rd, "deserialize", |d| T::deserialize(d))?;
        let y = match y {
            Ok(y) => y,
            Err(_) if self.lenient => {
                cx.count("serde types which cannot be read back", 1);
                return Ok(());
            }
            Err(e) => return violation(format!("deserialize:{}", name), format!("{} from {}: {}", name, bshow(&b), e)),
        };
        check!(
            fin && rd.pos == b.len(),
            format!("unfinished:{}", name),
            "{} from {}: finished {}, {} of {} bytes consumed",
            name,
            bshow(&b),
            fin,
            rd.pos,
            b.len()
        );
        check!(
            eq(x, &y),
            format!("value:{}", name),
            "{} {} came back different from {}",
            name,
            vshow(&want),
            bshow(&b)
        );
        let mut rd = Rd::new(&m);
        let (r, fin) = decode_with(sc, &mut rd, "deserialize_in_place", |d| T::deserialize_in_place(d, &mut old))?;
        check!(
            r.is_ok() && fin && rd.pos == b.len() && eq(x, &old),
            format!("in-place:{}", name),
            "{} {} into an existing value: {:?}, finished {}, {} of {} bytes, equal {}",
            name,
            vshow(&want),
            r,
            fin,
            rd.pos,
            b.len(),
            eq(x, &old)
        );
        cx.count("round trips of serde types", 1);
        if !b.is_empty() {
            cx.nontrivial((name, &b));
        }
        cx.sample(|| format!("{} {} = {}", name, vshow(&want), bshow(&b)));
        Ok(())
    }

    pub fn eq<T: Serialize + DeserializeOwned + PartialEq>(&mut self, sc: &Schema, mut f: impl FnMut(&mut Rng) -> (T, Value)) -> R {
        let (x, v) = f(&mut self.cx.rng);
        let (old, _) = f(&mut self.cx.rng);
        self.go(sc, &x, v, |a, b| a == b, old)
    }

    pub fn by<T: Serialize + DeserializeOwned, U: PartialEq>(
        &mut self,
        sc: &Schema,
        key: impl Fn(&T) -> U,
        mut f: impl FnMut(&mut Rng) -> (T, Value),
    ) -> R {
        let (x, v) = f(&mut self.cx.rng);
        let (old, _) = f(&mut self.cx.rng);
        self.go(sc, &x, v, |a, b| key(a) == key(b), old)
    }

    /// Must not be written at all.
    pub fn refused<T: Serialize>(&mut self, sc: &Schema, x: &T) -> R {
        let mut w = W::new();
        let e = encode_with(sc, &mut w, "serialize", |e| x.serialize(e))?;
        check!(
            e.res.is_err() && !e.finished,
            format!("accepted:{}", self.name),
            "{} was accepted under a schema it does not fit: {}, written {}",
            self.name,
            crate::api::outline(sc),
            bshow(&w.out)
        );
        self.cx.count("serde types refused", 1);
        Ok(())
    }
}

// ---- types with attributes ----

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(rename_all = "camelCase")]
struct Renamed {
    first_field: u8,
    #[serde(rename = "XX")]
    second: String,
    #[serde(default)]
    third_one: u32,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE", rename_all_fields = "kebab-case")]
enum RenamedE {
    PlainOne,
    #[serde(rename = "")]
    Empty(u8),
    WithFields { a_b: u8, c_d: bool },
    Pair(u8, u16),
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Skips {
    a: u8,
    #[serde(skip)]
    cache: u64,
    #[serde(skip_serializing_if = "Option::is_none")]
    b: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    c: Option<Option<bool>>,
    d: (),
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(transparent)]
struct Transparent {
    inner: Vec<u8>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(from = "(u8, bool)", into = "(u8, bool)")]
struct Via {
    a: u8,
    b: bool,
}

impl From<(u8, bool)> for Via {
    fn from((a, b): (u8, bool)) -> Via {
        Via { a, b }
    }
}

impl From<Via> for (u8, bool) {
    fn from(v: Via) -> (u8, bool) {
        (v.a, v.b)
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(try_from = "String", into = "String")]
struct Parsed(u32);

impl TryFrom<String> for Parsed {
    type Error = ParseIntError;
    fn try_from(s: String) -> Result<Parsed, ParseIntError> {
        s.parse().map(Parsed)
    }
}

impl From<Parsed> for String {
    fn from(v: Parsed) -> String {
        v.0.to_string()
    }
}

mod as_bytes {
    use super::*;
    pub fn serialize<S: Serializer>(x: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(x)
    }
    struct Vis;
    impl<'d> serde::de::Visitor<'d> for Vis {
        type Value = Vec<u8>;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("bytes")
        }
        fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
            Ok(v.to_vec())
        }
        fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
            Ok(v)
        }
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        d.deserialize_byte_buf(Vis)
    }
}

mod as_text {
    use super::*;
    pub fn serialize<S: Serializer, T: std::fmt::Display>(x: &T, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(x)
    }
    pub fn deserialize<'d, D: Deserializer<'d>, T: std::str::FromStr>(d: D) -> Result<T, D::Error>
    where
        T::Err: std::fmt::Display,
    {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Withs {
    #[serde(with = "as_bytes")]
    raw: Vec<u8>,
    #[serde(with = "as_text")]
    n: i64,
    #[serde(with = "as_text")]
    ip: Ipv4Addr,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "kind")]
enum Internal {
    A { x: u8, y: String },
    #[serde(rename = "b")]
    B { x: u8, y: String },
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    A(u32),
    B(u32),
    C(u32),
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "t", content = "c")]
enum Adjacent2 {
    A { x: u8 },
    B { x: u8 },
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(untagged)]
enum Untagged {
    Num(u32),
    Text(String),
    Pair(u8, bool),
    Rec { p: u8, q: Vec<u16> },
    Nothing,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(deny_unknown_fields)]
struct Strict {
    a: Option<Box<Strict>>,
    b: u8,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Generic<'a, T, const N: usize> {
    head: T,
    text: Cow<'a, str>,
    #[serde(skip)]
    mark: PhantomData<&'a T>,
    tail: Vec<(T, [u8; 2])>,
    sized: Tail<N>,
}

#[derive(PartialEq, Debug)]
struct Tail<const N: usize>;

impl<const N: usize> Serialize for Tail<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (N as u64).serialize(s)
    }
}

impl<'d, const N: usize> Deserialize<'d> for Tail<N> {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        if u64::deserialize(d)? == N as u64 { Ok(Tail) } else { Err(serde::de::Error::custom("other size")) }
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Empty {}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct UnitS;

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct NoParts();

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Newtype<T>(T);

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Pair<A, B>(A, B);

/// Types which take no memory, wherever content may stand.
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Nothings {
    a: Option<Empty>,
    b: Option<[u8; 0]>,
    c: Vec<Empty>,
    d: Option<NoParts>,
    e: Option<PhantomData<u8>>,
    f: Vec<[String; 0]>,
    g: Pair<Empty, UnitS>,
    h: BTreeMap<u8, Empty>,
    i: NothingsE,
    j: Option<Option<Newtype<Empty>>>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum NothingsE {
    A(Empty),
    B([u8; 0]),
    C {},
    D(),
    E(UnitS, Empty),
    F(()),
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(remote = "Duration")]
struct DurationDef {
    #[serde(getter = "Duration::as_secs")]
    secs: u64,
    #[serde(getter = "Duration::subsec_nanos")]
    nanos: u32,
}

impl From<DurationDef> for Duration {
    fn from(d: DurationDef) -> Duration {
        Duration::new(d.secs, d.nanos)
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Remote {
    #[serde(with = "DurationDef")]
    d: Duration,
    e: Duration,
}

#[derive(Serialize, Deserialize)]
struct Flat {
    a: u8,
    #[serde(flatten)]
    rest: BTreeMap<String, u8>,
}

/// Recursive, with every representation at once.
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Json {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(BTreeMap<String, Json>),
}

fn json(r: &mut Rng, depth: usize) -> (Json, Value) {
    match r.below(if depth == 0 { 4 } else { 6 }) {
        0 => (Json::Null, v_enum(0, "Null", Value::Unit)),
        1 => {
            let x = r.chance(1, 2);
            (Json::Bool(x), v_enum(1, "Bool", bool_(x)))
        }
        2 => {
            let x = r.u64() as i32 as f64 / 8.0;
            (Json::Num(x), v_enum(2, "Num", Value::Scalar(V::F64(x))))
        }
        3 => {
            let x = r.string(6);
            (Json::Str(x.clone()), v_enum(3, "Str", Value::Str(x)))
        }
        4 => {
            let (x, v) = (0..r.below(4)).map(|_| json(r, depth - 1)).unzip();
            (Json::Arr(x), v_enum(4, "Arr", Value::VarLenSeq(v)))
        }
        _ => {
            let mut m = BTreeMap::new();
            for _ in 0..r.below(4) {
                m.insert(r.string(3), json(r, depth - 1));
            }
            let v = m.iter().map(|(k, x)| Value::Tuple(vec![s(k), x.1.clone()])).collect();
            (Json::Obj(m.into_iter().map(|(k, x)| (k, x.0)).collect()), v_enum(5, "Obj", Value::VarLenSeq(v)))
        }
    }
}

pub(super) fn opt_of<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> (T, Value)) -> (Option<T>, Value) {
    if r.chance(1, 2) {
        let (x, v) = f(r);
        (Some(x), opt(Some(v)))
    } else {
        (None, opt(None))
    }
}

pub(super) fn vec_of<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> (T, Value)) -> (Vec<T>, Value) {
    let (x, v) = (0..r.below(4)).map(|_| f(r)).unzip();
    (x, Value::VarLenSeq(v))
}

fn strict(r: &mut Rng, depth: usize) -> (Strict, Value) {
    let a = if depth > 0 && r.chance(2, 3) { Some(strict(r, depth - 1)) } else { None };
    let b = r.u64() as u8;
    let (a, v) = match a {
        Some((x, v)) => (Some(Box::new(x)), opt(Some(v))),
        None => (None, opt(None)),
    };
    (Strict { a, b }, st(vec![("a", v), ("b", b8(b))]))
}

pub(super) fn text(r: &mut Rng) -> (String, Value) {
    let x = r.string(8);
    (x.clone(), Value::Str(x))
}

pub(super) fn byte(r: &mut Rng) -> (u8, Value) {
    let x = r.u64() as u8;
    (x, b8(x))
}

fn v4(r: &mut Rng) -> (Ipv4Addr, Value) {
    let x = (r.u64() as u32).to_be_bytes();
    (Ipv4Addr::from(x), Value::FixedLenSeq(x.iter().map(|&y| b8(y)).collect()))
}

fn v6(r: &mut Rng) -> (Ipv6Addr, Value) {
    let x = r.u128().to_be_bytes();
    (Ipv6Addr::from(x), Value::FixedLenSeq(x.iter().map(|&y| b8(y)).collect()))
}

fn ip(r: &mut Rng) -> (IpAddr, Value) {
    if r.chance(1, 2) {
        let (x, v) = v4(r);
        (x.into(), v_enum(0, "V4", v))
    } else {
        let (x, v) = v6(r);
        (x.into(), v_enum(1, "V6", v))
    }
}

fn duration(r: &mut Rng) -> (Duration, Value) {
    let (a, b) = (n64(r), r.below(1_000_000_000) as u32);
    (Duration::new(a, b), st(vec![("secs", b64(a)), ("nanos", b32(b))]))
}

fn ip_schema() -> Schema {
    schema!(enum { V4(seq(4)(u8)), V6(seq(16)(u8)) })
}

fn dur_schema() -> Schema {
    schema!(struct { (secs: u64), (nanos: u32) })
}

type Case = (&'static str, fn(&mut Trip) -> R);

const CASES: &[Case] = &[
    ("renamed fields", |t| {
        let sc = schema!(struct { (firstField: u8), (XX: str), (thirdOne: u32) });
        t.eq(&sc, |r| {
            let (a, (x, v), c) = (byte(r), text(r), n32(r));
            (
                Renamed { first_field: a.0, second: x, third_one: c },
                st(vec![("firstField", a.1), ("XX", v), ("thirdOne", b32(c))]),
            )
        })
    }),
    ("renamed variants", |t| {
        let mut sc = schema!(enum {
            PLAIN_ONE(unit), Empty(u8), WITH_FIELDS(struct { (a: u8), (c: bool) }), PAIR(tuple { (u8), (u16) })
        });
        if let Schema::Enum(v) = &mut sc {
            v[1].name = String::new();
            if let Schema::Struct(f) = &mut v[2].inner {
                f[0].name = "a-b".into();
                f[1].name = "c-d".into();
            }
        }
        t.eq(&sc, |r| {
            let (n, m) = (r.u64() as u8, r.u64() as u16);
            match r.below(4) {
                0 => (RenamedE::PlainOne, v_enum(0, "PLAIN_ONE", Value::Unit)),
                1 => (RenamedE::Empty(n), v_enum(1, "", b8(n))),
                2 => (
                    RenamedE::WithFields { a_b: n, c_d: n > 9 },
                    v_enum(2, "WITH_FIELDS", st(vec![("a-b", b8(n)), ("c-d", bool_(n > 9))])),
                ),
                _ => (RenamedE::Pair(n, m), v_enum(3, "PAIR", Value::Tuple(vec![b8(n), b16(m)]))),
            }
        })
    }),
    ("skipped fields", |t| {
        let sc = schema!(struct { (a: u8), (b: option(u32)), (c: option(option(bool))), (d: unit) });
        t.eq(&sc, |r| {
            let a = byte(r);
            let b = opt_of(r, |r| {
                let x = n32(r);
                (x, b32(x))
            });
            let c = opt_of(r, |r| {
                opt_of(r, |r| {
                    let x = r.chance(1, 2);
                    (x, bool_(x))
                })
            });
            (Skips { a: a.0, cache: 0, b: b.0, c: c.0, d: () }, st(vec![("a", a.1), ("b", b.1), ("c", c.1), ("d", Value::Unit)]))
        })
    }),
    ("transparent", |t| {
        t.eq(&schema!(seq(varlen)(u8)), |r| {
            let x = r.bytes(10);
            let v = bytes_seq(&x);
            (Transparent { inner: x }, v)
        })
    }),
    ("from and into", |t| {
        t.eq(&schema!(tuple { (u8), (bool) }), |r| {
            let (a, b) = (r.u64() as u8, r.chance(1, 2));
            (Via { a, b }, Value::Tuple(vec![b8(a), bool_(b)]))
        })
    }),
    ("try_from", |t| {
        t.eq(&schema!(str), |r| {
            let x = n32(r);
            (Parsed(x), s(&x))
        })
    }),
    ("with", |t| {
        t.eq(&schema!(struct { (raw: bytes), (n: str), (ip: str) }), |r| {
            let (x, n, a) = (r.bytes(300), r.u64() as i64, Ipv4Addr::from(r.u64() as u32));
            (Withs { raw: x.clone(), n, ip: a }, st(vec![("raw", Value::Bytes(x)), ("n", s(&n)), ("ip", s(&a))]))
        })
    }),
    ("internally tagged", |t| {
        // (the decoder refuses to read names where it holds a string)
        t.lenient = true;
        t.eq(&schema!(struct { (kind: str), (x: u8), (y: str) }), |r| {
            let (x, y) = (r.u64() as u8, r.string(4));
            let k = r.chance(1, 2);
            let v = st(vec![("kind", s(if k { "A" } else { "b" })), ("x", b8(x)), ("y", s(&y))]);
            (if k { Internal::A { x, y } } else { Internal::B { x, y } }, v)
        })
    }),
    ("adjacently tagged", |t| {
        t.eq(&schema!(struct { (t: enum { A(unit), B(unit), C(unit) }), (c: u32) }), |r| {
            let x = n32(r);
            let k = r.below(3);
            (
                [Adjacent::A, Adjacent::B, Adjacent::C][k](x),
                st(vec![("t", v_enum(k, ["A", "B", "C"][k], Value::Unit)), ("c", b32(x))]),
            )
        })
    }),
    ("adjacently tagged struct", |t| {
        t.eq(&schema!(struct { (t: enum { A(unit), B(unit) }), (c: struct { (x: u8) }) }), |r| {
            let x = r.u64() as u8;
            let k = r.below(2);
            (
                if k == 0 { Adjacent2::A { x } } else { Adjacent2::B { x } },
                st(vec![("t", v_enum(k, ["A", "B"][k], Value::Unit)), ("c", st(vec![("x", b8(x))]))]),
            )
        })
    }),
    ("untagged", |t| match t.cx.rng.below(5) {
        0 => t.eq(&schema!(u32), |r| {
            let x = n32(r);
            (Untagged::Num(x), b32(x))
        }),
        1 => t.eq(&schema!(str), |r| {
            let (x, v) = text(r);
            (Untagged::Text(x), v)
        }),
        2 => t.eq(&schema!(tuple { (u8), (bool) }), |r| {
            let (x, y) = (r.u64() as u8, r.chance(1, 2));
            (Untagged::Pair(x, y), Value::Tuple(vec![b8(x), bool_(y)]))
        }),
        3 => t.eq(&schema!(struct { (p: u8), (q: seq(varlen)(u16)) }), |r| {
            let x = r.u64() as u8;
            let (y, v) = vec_of(r, |r| {
                let x = r.u64() as u16;
                (x, b16(x))
            });
            (Untagged::Rec { p: x, q: y }, st(vec![("p", b8(x)), ("q", v)]))
        }),
        _ => t.eq(&schema!(unit), |_| (Untagged::Nothing, Value::Unit)),
    }),
    ("deny unknown, recursive", |t| {
        t.eq(&schema!(struct { (a: option(recurse(2))), (b: u8) }), |r| strict(r, 5))
    }),
    ("generic, borrowed", |t| {
        let sc = schema!(struct { (head: i32), (text: str), (tail: seq(varlen)(tuple { (i32), (seq(2)(u8)) })), (sized: u64) });
        t.eq(&sc, |r| {
            let h = r.num(32) as i32;
            let (x, v) = text(r);
            let (tl, tv) = vec_of(r, |r| {
                let (n, a) = (r.num(32) as i32, [r.u64() as u8, 7]);
                ((n, a), Value::Tuple(vec![i32v(n), Value::FixedLenSeq(vec![b8(a[0]), b8(7)])]))
            });
            (
                Generic::<i32, 77> { head: h, text: x.into(), mark: PhantomData, tail: tl, sized: Tail },
                st(vec![("head", i32v(h)), ("text", v), ("tail", tv), ("sized", b64(77))]),
            )
        })
    }),
    ("empty struct", |t| t.eq(&schema!(struct {}), |_| (Empty {}, st(vec![])))),
    ("unit struct", |t| t.eq(&schema!(unit), |_| (UnitS, Value::Unit))),
    ("no parts", |t| t.eq(&schema!(unit), |_| (NoParts(), Value::Unit))),
    ("newtypes of newtypes", |t| {
        t.eq(&schema!(option(seq(varlen)(str))), |r| {
            let (x, v) = opt_of(r, |r| {
                let (a, v) = vec_of(r, |r| {
                    let (x, v) = text(r);
                    (Newtype(x), v)
                });
                (Newtype(a), v)
            });
            (Newtype(Newtype(x)), v)
        })
    }),
    ("types without memory", |t| {
        let sc = schema!(struct {
            (a: option(struct {})), (b: option(seq(0)(u8))), (c: seq(varlen)(struct {})), (d: option(unit)),
            (e: option(unit)), (f: seq(varlen)(seq(0)(str))), (g: tuple { (struct {}), (unit) }),
            (h: seq(varlen)(tuple { (u8), (struct {}) })),
            (i: enum {
                A(struct {}), B(seq(0)(u8)), C(struct {}), D(unit), E(tuple { (unit), (struct {}) }), F(unit)
            }),
            (j: option(option(struct {}))),
        });
        t.eq(&sc, |r| {
            let z = || st(vec![]);
            let f = || Value::FixedLenSeq(vec![]);
            let a = opt_of(r, |_| (Empty {}, z()));
            let b = opt_of(r, |_| ([], f()));
            let c = vec_of(r, |_| (Empty {}, z()));
            let d = opt_of(r, |_| (NoParts(), Value::Unit));
            let e = opt_of(r, |_| (PhantomData, Value::Unit));
            let g = vec_of(r, |_| ([], f()));
            let h: BTreeSet<u8> = (0..r.below(4)).map(|_| r.u64() as u8).collect();
            let i = match r.below(6) {
                0 => (NothingsE::A(Empty {}), v_enum(0, "A", z())),
                1 => (NothingsE::B([]), v_enum(1, "B", f())),
                2 => (NothingsE::C {}, v_enum(2, "C", z())),
                3 => (NothingsE::D(), v_enum(3, "D", Value::Unit)),
                4 => (NothingsE::E(UnitS, Empty {}), v_enum(4, "E", Value::Tuple(vec![Value::Unit, z()]))),
                _ => (NothingsE::F(()), v_enum(5, "F", Value::Unit)),
            };
            let j = opt_of(r, |r| opt_of(r, |_| (Newtype(Empty {}), z())));
            let hv = Value::VarLenSeq(h.iter().map(|&k| Value::Tuple(vec![b8(k), z()])).collect());
            (
                Nothings {
                    a: a.0,
                    b: b.0,
                    c: c.0,
                    d: d.0,
                    e: e.0,
                    f: g.0,
                    g: Pair(Empty {}, UnitS),
                    h: h.into_iter().map(|k| (k, Empty {})).collect(),
                    i: i.0,
                    j: j.0,
                },
                st(vec![
                    ("a", a.1),
                    ("b", b.1),
                    ("c", c.1),
                    ("d", d.1),
                    ("e", e.1),
                    ("f", g.1),
                    ("g", Value::Tuple(vec![z(), Value::Unit])),
                    ("h", hv),
                    ("i", i.1),
                    ("j", j.1),
                ]),
            )
        })
    }),
    ("remote", |t| {
        let sc = schema!(struct { (d: %dur_schema()), (e: %dur_schema()) });
        t.eq(&sc, |r| {
            let (a, b) = (duration(r), duration(r));
            (Remote { d: a.0, e: b.0 }, st(vec![("d", a.1), ("e", b.1)]))
        })
    }),
    ("json-like", |t| {
        let sc = schema!(enum {
            Null(unit), Bool(bool), Num(f64), Str(str), Arr(seq(varlen)(recurse(2))),
            Obj(seq(varlen)(tuple { (str), (recurse(3)) })),
        });
        t.eq(&sc, |r| json(r, 4))
    }),
    ("flatten", |t| {
        // serde writes these as a map of unannounced length
        let n = t.cx.rng.below(3);
        let x = Flat { a: 1, rest: (0..n).map(|i| (format!("k{}", i), i as u8)).collect() };
        t.refused(&schema!(struct { (a: u8) }), &x)?;
        t.refused(&schema!(seq(varlen)(tuple { (str), (u8) })), &x)
    }),
    ("wrong schemas", |t| {
        let x = Renamed { first_field: 1, second: "x".into(), third_one: 3 };
        t.refused(&schema!(struct { (first_field: u8), (XX: str), (thirdOne: u32) }), &x)?;
        t.refused(&schema!(struct { (firstField: u8), (XX: str) }), &x)?;
        t.refused(&schema!(tuple { (u8), (str), (u32) }), &x)?;
        t.refused(&schema!(u8), &Untagged::Text("x".into()))?;
        t.refused(&schema!(enum { Num(u32) }), &Untagged::Num(1))
    }),
    // ---- std types which declare no schema ----
    ("Ipv4Addr", |t| t.eq(&schema!(seq(4)(u8)), v4)),
    ("Ipv6Addr", |t| t.eq(&schema!(seq(16)(u8)), v6)),
    ("IpAddr", |t| t.eq(&ip_schema(), ip)),
    ("SocketAddrV4", |t| {
        t.eq(&schema!(tuple { (seq(4)(u8)), (u16) }), |r| {
            let (a, p) = (v4(r), r.u64() as u16);
            (SocketAddrV4::new(a.0, p), Value::Tuple(vec![a.1, b16(p)]))
        })
    }),
    ("SocketAddr", |t| {
        t.eq(&schema!(enum { V4(tuple { (seq(4)(u8)), (u16) }), V6(tuple { (seq(16)(u8)), (u16) }) }), |r| {
            let p = r.u64() as u16;
            let (a, v) = ip(r);
            let v = match v {
                Value::Enum(e) => v_enum(e.variant_ord, &e.variant_name, Value::Tuple(vec![*e.value, b16(p)])),
                _ => unreachable!(),
            };
            (SocketAddr::new(a, p), v)
        })
    }),
    ("Duration", |t| t.eq(&dur_schema(), duration)),
    ("SystemTime", |t| {
        t.eq(&schema!(struct { (secs_since_epoch: u64), (nanos_since_epoch: u32) }), |r| {
            let (a, b) = (r.num(40) as u64, r.below(1_000_000_000) as u32);
            (
                SystemTime::UNIX_EPOCH + Duration::new(a, b),
                st(vec![("secs_since_epoch", b64(a)), ("nanos_since_epoch", b32(b))]),
            )
        })
    }),
    ("PathBuf", |t| {
        t.eq(&schema!(str), |r| {
            let (x, v) = text(r);
            (PathBuf::from(x), v)
        })
    }),
    ("OsString", |t| {
        t.eq(&schema!(enum { Unix(seq(varlen)(u8)), Windows(seq(varlen)(u16)) }), |r| {
            use std::os::unix::ffi::OsStringExt;
            let x = r.bytes(6);
            let v = v_enum(0, "Unix", bytes_seq(&x));
            (OsString::from_vec(x), v)
        })
    }),
    ("CString", |t| {
        t.eq(&schema!(bytes), |r| {
            let mut x = r.bytes(20);
            x.retain(|&b| b != 0);
            (CString::new(x.clone()).unwrap(), Value::Bytes(x))
        })
    }),
    ("Result", |t| {
        t.eq(&schema!(enum { Ok(seq(varlen)(u8)), Err(str) }), |r| {
            if r.chance(1, 2) {
                let x = r.bytes(5);
                let v = bytes_seq(&x);
                (Ok(x), v_enum(0, "Ok", v))
            } else {
                let (x, v) = text(r);
                (Err(x), v_enum(1, "Err", v))
            }
        })
    }),
    ("NonZero", |t| {
        t.eq(&schema!(tuple { (u32), (i128), (u8) }), |r| {
            let (a, b, c) = (n32(r).max(1), (r.u128() as i128).min(-1), (r.u64() as u8).max(1));
            (
                (NonZeroU32::new(a).unwrap(), NonZeroI128::new(b).unwrap(), NonZeroU8::new(c).unwrap()),
                Value::Tuple(vec![b32(a), Value::Scalar(V::I128(b)), b8(c)]),
            )
        })
    }),
    ("Wrapping and Reverse", |t| {
        t.eq(&schema!(tuple { (u64), (i32) }), |r| {
            let (a, b) = (n64(r), r.num(32) as i32);
            ((Wrapping(a), Reverse(b)), Value::Tuple(vec![b64(a), i32v(b)]))
        })
    }),
    ("cells and locks", |t| {
        type All = (Cell<u8>, RefCell<String>, Mutex<u32>, RwLock<Vec<u8>>, AtomicU64, AtomicBool);
        let key = |x: &All| {
            (
                x.0.get(),
                x.1.borrow().clone(),
                *x.2.lock().unwrap(),
                x.3.read().unwrap().clone(),
                x.4.load(Ordering::SeqCst),
                x.5.load(Ordering::SeqCst),
            )
        };
        t.by(&schema!(tuple { (u8), (str), (u32), (seq(varlen)(u8)), (u64), (bool) }), key, |r| {
            let (a, b, c, d, e) = (byte(r), text(r), n32(r), r.bytes(5), n64(r));
            let v = Value::Tuple(vec![a.1, b.1, b32(c), bytes_seq(&d), b64(e), bool_(e % 2 == 0)]);
            ((Cell::new(a.0), RefCell::new(b.0), Mutex::new(c), RwLock::new(d), AtomicU64::new(e), AtomicBool::new(e % 2 == 0)), v)
        })
    }),
    ("open ranges", |t| {
        t.eq(&schema!(tuple { (struct { (start: u8) }), (struct { (end: u32) }) }), |r| {
            let (a, b) = (byte(r), n32(r));
            ((a.0.., ..b), Value::Tuple(vec![st(vec![("start", a.1)]), st(vec![("end", b32(b))])]))
        })
    }),
    ("boxed unsized", |t| {
        t.eq(&schema!(tuple { (str), (seq(varlen)(u16)) }), |r| {
            let (x, v) = text(r);
            let (y, w) = vec_of(r, |r| {
                let x = r.u64() as u16;
                (x, b16(x))
            });
            let p: (Box<str>, Box<[u16]>) = (x.into(), y.into());
            (p, Value::Tuple(vec![v, w]))
        })
    }),
    ("long tuple", |t| {
        let u = || Schema::Scalar(binschema::ScalarType::U8);
        type T16 = (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
        let key = |x: &T16| [x.0, x.1, x.2, x.3, x.4, x.5, x.6, x.7, x.8, x.9, x.10, x.11, x.12, x.13, x.14, x.15];
        t.by(&Schema::Tuple((0..16).map(|_| u()).collect()), key, |r| {
            let mut x = [0u8; 16];
            x.iter_mut().for_each(|y| *y = r.u64() as u8);
            let [a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p] = x;
            ((a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p), Value::Tuple(x.iter().map(|&y| b8(y)).collect()))
        })
    }),
    ("arrays as tuples", |t| {
        t.eq(&schema!(tuple { (u8), (u8), (u8) }), |r| {
            let x = [r.u64() as u8, 1, 2];
            (x, Value::Tuple(x.iter().map(|&y| b8(y)).collect()))
        })
    }),
    ("tuples as fixed seqs", |t| {
        t.eq(&schema!(seq(3)(u8)), |r| {
            let x = (r.u64() as u8, 1u8, 2u8);
            (x, Value::FixedLenSeq(vec![b8(x.0), b8(1), b8(2)]))
        })
    }),
    ("vec as fixed seq", |t| {
        t.eq(&schema!(seq(3)(str)), |r| {
            let (x, v): (Vec<String>, Vec<Value>) = (0..3).map(|_| text(r)).unzip();
            (x, Value::FixedLenSeq(v))
        })
    }),
    ("map of maps", |t| {
        t.eq(&schema!(seq(varlen)(tuple { (tuple { (u8), (char) }), (seq(varlen)(tuple { (str), (option(unit)) })) })), |r| {
            let mut m: BTreeMap<(u8, char), BTreeMap<String, Option<()>>> = BTreeMap::new();
            for _ in 0..r.below(4) {
                let mut n = BTreeMap::new();
                for _ in 0..r.below(3) {
                    n.insert(r.string(4), if r.chance(1, 2) { Some(()) } else { None });
                }
                m.insert((r.u64() as u8, r.ch()), n);
            }
            let v = m
                .iter()
                .map(|(k, n)| {
                    let n = n.iter().map(|(k, x)| Value::Tuple(vec![s(k), opt(x.map(|_| Value::Unit))])).collect();
                    Value::Tuple(vec![
                        Value::Tuple(vec![b8(k.0), Value::Scalar(V::Char(k.1))]),
                        Value::VarLenSeq(n),
                    ])
                })
                .collect();
            (m, Value::VarLenSeq(v))
        })
    }),
    ("128 bit and floats", |t| {
        t.by(
            &schema!(tuple { (u128), (i128), (f32), (f64) }),
            |x: &(u128, i128, f32, f64)| (x.0, x.1, x.2.to_bits(), x.3.to_bits()),
            |r| {
                let x = (r.num(128), r.num(128) as i128, f32::from_bits(r.u64() as u32), f64::from_bits(r.u64()));
                let v = vec![V::U128(x.0), V::I128(x.1), V::F32(x.2), V::F64(x.3)];
                (x, Value::Tuple(v.into_iter().map(Value::Scalar).collect()))
            },
        )
    }),
    ("human readable", |t| {
        /// Says how the format describes itself.
        struct Asks;
        impl Serialize for Asks {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let h = s.is_human_readable();
                s.serialize_bool(h)
            }
        }
        #[derive(PartialEq)]
        struct Told(bool, bool);
        impl<'d> Deserialize<'d> for Told {
            fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Told, D::Error> {
                let h = d.is_human_readable();
                Ok(Told(h, bool::deserialize(d)?))
            }
        }
        let sc = schema!(option(seq(varlen)(tuple { (u8), (bool) })));
        let mut w = W::new();
        let e = encode_with(&sc, &mut w, "serialize", |e| Some(vec![(1u8, Asks)]).serialize(e))?;
        check!(e.res.is_ok() && e.finished, "asks", "{:?}", e.res);
        let bytes = w.out.clone();
        let mut rd = Rd::new(&bytes);
        let (r, fin) = decode_with(&sc, &mut rd, "deserialize", |d| Option::<Vec<(u8, Told)>>::deserialize(d))?;
        let ok = matches!(&r, Ok(Some(v)) if v.len() == 1 && v[0].1 .0 == v[0].1 .1);
        check!(
            ok && fin,
            "human-readable",
            "the serializer and the deserializer disagree on whether the format is human readable: written {}",
            bshow(&bytes)
        );
        t.cx.count("formats asked", 1);
        Ok(())
    }),
];

fn one(cx: &mut Cx, i: usize) -> R {
    let (name, f) = if i < CASES.len() { CASES[i] } else { BY_HAND[i - CASES.len()] };
    f(&mut Trip { cx, name, lenient: false })
}

/// One type read as another of the same schema.
fn across(cx: &mut Cx) -> R {
    let (x, v) = vec_of(&mut cx.rng, text);
    let sc = schema!(seq(varlen)(str));
    let t = Tree::new(&sc);
    let b = enc(&t, &v).expect("conforms");
    fn read<T: DeserializeOwned>(sc: &Schema, b: &[u8]) -> R<T> {
        lib("deserialize", || {
            let mut rd = b;
            let mut st = CoderState::new(sc, CoderStateAlloc::new(), None);
            let r = T::deserialize(&mut Decoder::new(&mut st, &mut rd));
            let what = std::any::type_name::<T>();
            match r {
                Ok(x) if st.is_finished() && rd.is_empty() => Ok(x),
                Ok(_) => violation("across", format!("{} from {}: finished {}", what, bshow(b), st.is_finished())),
                Err(e) => violation("across", format!("{} from {}: {}", what, bshow(b), e)),
            }
        })?
    }
    let set: BTreeSet<String> = x.iter().cloned().collect();
    check!(read::<Vec<String>>(&sc, &b)? == x, "across", "Vec differs: {}", bshow(&b));
    check!(read::<VecDeque<String>>(&sc, &b)? == x, "across", "VecDeque differs: {}", bshow(&b));
    check!(read::<LinkedList<String>>(&sc, &b)?.into_iter().eq(x.iter().cloned()), "across", "LinkedList differs: {}", bshow(&b));
    check!(read::<BTreeSet<String>>(&sc, &b)? == set, "across", "BTreeSet differs: {}", bshow(&b));
    check!(read::<Box<[Newtype<Box<str>>]>>(&sc, &b)?.iter().map(|x| x.0.to_string()).eq(x.iter().cloned()), "across", "boxed slice differs: {}", bshow(&b));
    check!(read::<Cow<[String]>>(&sc, &b)? == x, "across", "Cow differs: {}", bshow(&b));
    check!(read::<BinaryHeap<String>>(&sc, &b)?.len() == x.len(), "across", "BinaryHeap differs: {}", bshow(&b));
    cx.count("types read as other types", 7);
    cx.nontrivial(("across", &b));
    Ok(())
}

fn c25_case(cx: &mut Cx) -> R {
    let n = CASES.len() + BY_HAND.len();
    let i = cx.rng.below(n + 1);
    if i == n { across(cx) } else { one(cx, i) }
}

fn c25_each(cx: &mut Cx) -> R {
    for i in 0..CASES.len() + BY_HAND.len() {
        for _ in 0..20 {
            one(cx, i)?;
        }
    }
    let _ = gen::scalar_ty;
    Ok(())
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        quick: 3_000_000,
        thorough: 120_000_000,
        directed: vec![("each type", c25_each)],
        case: c25_case,
        rule: "a catalogue of serde types (attributes, tagged and untagged representations, generics, types without memory, std \
               types without a declared schema), each with a hand-written schema and data-model value; written, compared to \
               the reference encoding, read back anew and in place. Non-trivial: the message is not empty; distinct by type \
               and bytes",
    }
}
