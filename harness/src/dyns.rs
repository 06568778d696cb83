//! Serde values made up at run time: things to serialize (`Ds`), things to
//! deserialize (`Sh`, giving `Co`), and what each means as a value of a schema.

use crate::{
    gen,
    model::*,
    rng::Rng,
};
use binschema::{
    error::Error,
    value::{EnumValue, ScalarValue, StructValueField, Value},
    Decoder, ScalarType, Schema,
};
use serde::{
    de::{
        self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess,
        Visitor,
    },
    ser::{
        Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
        SerializeTupleStruct, SerializeTupleVariant, Serializer,
    },
};
use std::{
    collections::HashMap,
    fmt,
    io::Read,
    sync::{Mutex, OnceLock},
};

// ---- interning (serde wants 'static names) ----

pub fn intern(s: &str) -> &'static str {
    static T: OnceLock<Mutex<HashMap<String, &'static str>>> = OnceLock::new();
    let mut t = T.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = t.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(s.to_string(), l);
    l
}

pub fn intern_list(v: &[String]) -> &'static [&'static str] {
    static T: OnceLock<Mutex<HashMap<Vec<String>, &'static [&'static str]>>> = OnceLock::new();
    let parts: Vec<&'static str> = v.iter().map(|s| intern(s)).collect();
    let mut t = T.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = t.get(v) {
        return x;
    }
    let l: &'static [&'static str] = Box::leak(parts.into_boxed_slice());
    t.insert(v.to_vec(), l);
    l
}

// ---------------------------------------------------------------- serialize

#[derive(Clone, Debug)]
pub enum Ds {
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Ds>),
    Unit,
    UnitStruct,
    UnitVar(u32, String),
    NewStruct(Box<Ds>),
    NewVar(u32, String, Box<Ds>),
    /// announced length, items
    Seq(Option<usize>, Vec<Ds>),
    Tuple(usize, Vec<Ds>),
    TupStruct(usize, Vec<Ds>),
    TupVar(u32, String, usize, Vec<Ds>),
    Map(Option<usize>, Vec<(Ds, Ds)>),
    /// fields; None: skipped
    Struct(usize, Vec<(String, Option<Ds>)>),
    StructVar(u32, String, usize, Vec<(String, Option<Ds>)>),
}

/// Types which take no memory, but may have a schema of their own.
struct Nothing;

impl Serialize for Nothing {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_none()
    }
}

struct NoFields;

impl Serialize for NoFields {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_struct("S", 0)?.end()
    }
}

struct NoParts;

impl Serialize for NoParts {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_tuple_struct("T", 0)?.end()
    }
}

/// Hands the part over as a `Ds`, or as some other type that is serialized in
/// the same way: unsized ones, ones which take no memory, numbers as such.
macro_rules! part {
    ($x:expr, |$y:ident| $e:expr) => {
        match $x {
            Ds::Str(s) => {
                let $y: &str = s;
                $e
            }
            Ds::Seq(Some(l), v) if *l == v.len() => {
                let $y: &[Ds] = v;
                $e
            }
            Ds::Tuple(0, v) if v.is_empty() => {
                let $y: &[Ds; 0] = &[];
                $e
            }
            Ds::TupStruct(0, v) if v.is_empty() => {
                let $y = &NoParts;
                $e
            }
            Ds::Struct(0, v) if v.is_empty() => {
                let $y = &NoFields;
                $e
            }
            Ds::Unit => {
                let $y = &();
                $e
            }
            Ds::None => {
                let $y = &Nothing;
                $e
            }
            Ds::Scalar(ScalarValue::U64(n)) => {
                let $y = n;
                $e
            }
            Ds::Scalar(ScalarValue::Bool(n)) => {
                let $y = n;
                $e
            }
            x => {
                let $y: &Ds = x;
                $e
            }
        }
    };
}

impl Serialize for Ds {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ScalarValue as V;
        match self {
            Ds::Scalar(x) => match *x {
                V::U8(n) => s.serialize_u8(n),
                V::U16(n) => s.serialize_u16(n),
                V::U32(n) => s.serialize_u32(n),
                V::U64(n) => s.serialize_u64(n),
                V::U128(n) => s.serialize_u128(n),
                V::I8(n) => s.serialize_i8(n),
                V::I16(n) => s.serialize_i16(n),
                V::I32(n) => s.serialize_i32(n),
                V::I64(n) => s.serialize_i64(n),
                V::I128(n) => s.serialize_i128(n),
                V::F32(n) => s.serialize_f32(n),
                V::F64(n) => s.serialize_f64(n),
                V::Char(n) => s.serialize_char(n),
                V::Bool(n) => s.serialize_bool(n),
            },
            Ds::Str(x) if x.len() % 3 == 1 => s.collect_str(x),
            Ds::Str(x) => s.serialize_str(x),
            Ds::Bytes(x) => s.serialize_bytes(x),
            Ds::None => s.serialize_none(),
            Ds::Some(x) => part!(&**x, |x| s.serialize_some(x)),
            Ds::Unit => s.serialize_unit(),
            Ds::UnitStruct => s.serialize_unit_struct("U"),
            Ds::UnitVar(i, n) => s.serialize_unit_variant("E", *i, intern(n)),
            Ds::NewStruct(x) => part!(&**x, |x| s.serialize_newtype_struct("N", x)),
            Ds::NewVar(i, n, x) => part!(&**x, |x| s.serialize_newtype_variant("E", *i, intern(n), x)),
            Ds::Seq(Some(l), v) if *l == v.len() && l % 4 == 1 => s.collect_seq(v),
            Ds::Map(Some(l), v) if *l == v.len() && l % 4 == 1 => s.collect_map(v.iter().map(|x| (&x.0, &x.1))),
            Ds::Seq(l, v) => {
                let mut q = s.serialize_seq(*l)?;
                for x in v {
                    part!(x, |x| q.serialize_element(x))?;
                }
                q.end()
            }
            Ds::Tuple(l, v) => {
                let mut q = s.serialize_tuple(*l)?;
                for x in v {
                    part!(x, |x| q.serialize_element(x))?;
                }
                q.end()
            }
            Ds::TupStruct(l, v) => {
                let mut q = s.serialize_tuple_struct("T", *l)?;
                for x in v {
                    part!(x, |x| q.serialize_field(x))?;
                }
                q.end()
            }
            Ds::TupVar(i, n, l, v) => {
                let mut q = s.serialize_tuple_variant("E", *i, intern(n), *l)?;
                for x in v {
                    part!(x, |x| q.serialize_field(x))?;
                }
                q.end()
            }
            Ds::Map(l, v) => {
                let mut q = s.serialize_map(*l)?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        part!(k, |k| part!(x, |x| q.serialize_entry(k, x)))?;
                    } else {
                        part!(k, |k| q.serialize_key(k))?;
                        part!(x, |x| q.serialize_value(x))?;
                    }
                }
                q.end()
            }
            Ds::Struct(l, v) => {
                let mut q = s.serialize_struct("S", *l)?;
                for (n, x) in v {
                    match x {
                        Some(x) => part!(x, |x| q.serialize_field(intern(n), x))?,
                        None => q.skip_field(intern(n))?,
                    }
                }
                q.end()
            }
            Ds::StructVar(i, n, l, v) => {
                let mut q = s.serialize_struct_variant("E", *i, intern(n), *l)?;
                for (n, x) in v {
                    match x {
                        Some(x) => part!(x, |x| q.serialize_field(intern(n), x))?,
                        None => q.skip_field(intern(n))?,
                    }
                }
                q.end()
            }
        }
    }
}

/// What serializing something under a schema has to do.
#[derive(Clone, Debug)]
pub enum Conv {
    /// must write this value
    Must(Value),
    /// must fail (or leave the coder unfinished), or write this value
    May(Value),
    /// must fail or leave the coder unfinished
    Fail,
}

impl Conv {
    fn map(self, f: impl FnOnce(Value) -> Value) -> Conv {
        match self {
            Conv::Must(v) => Conv::Must(f(v)),
            Conv::May(v) => Conv::May(f(v)),
            Conv::Fail => Conv::Fail,
        }
    }
    fn may(self) -> Conv {
        match self {
            Conv::Must(v) => Conv::May(v),
            x => x,
        }
    }
    fn all(v: Vec<Conv>) -> Result<(bool, Vec<Value>), ()> {
        let mut must = true;
        let mut out = vec![];
        for c in v {
            match c {
                Conv::Must(v) => out.push(v),
                Conv::May(v) => {
                    must = false;
                    out.push(v)
                }
                Conv::Fail => return Err(()),
            }
        }
        Ok((must, out))
    }
    fn join(v: Vec<Conv>, f: impl FnOnce(Vec<Value>) -> Value) -> Conv {
        match Conv::all(v) {
            Ok((true, v)) => Conv::Must(f(v)),
            Ok((false, v)) => Conv::May(f(v)),
            Err(()) => Conv::Fail,
        }
    }
}

/// The kinds of seq-like serde values.
#[derive(PartialEq, Clone, Copy)]
enum Q {
    Seq,
    Tuple,
    TupStruct,
}

fn conv_seq(t: &Tree, id: usize, q: Q, len: Option<usize>, items: &[Ds]) -> Conv {
    let n = items.len();
    let honest = len.map_or(true, |l| l == n);
    match t.kind(id) {
        Kind::Seq(Some(l), i) => {
            if *l != n {
                return Conv::Fail;
            }
            let c = Conv::join(items.iter().map(|x| conv(x, t, *i)).collect(), Value::FixedLenSeq);
            if honest && q != Q::TupStruct { c } else { c.may() }
        }
        Kind::Seq(None, i) => {
            if len != Some(n) {
                return Conv::Fail;
            }
            let c = Conv::join(items.iter().map(|x| conv(x, t, *i)).collect(), Value::VarLenSeq);
            if q == Q::Seq { c } else { c.may() }
        }
        Kind::Tuple(is) => {
            if is.len() != n {
                return Conv::Fail;
            }
            let c = Conv::join(items.iter().zip(is).map(|(x, i)| conv(x, t, *i)).collect(), Value::Tuple);
            if honest && q != Q::Seq { c } else { c.may() }
        }
        Kind::Unit if n == 0 => {
            if q == Q::TupStruct && honest {
                Conv::Must(Value::Unit)
            } else {
                Conv::May(Value::Unit)
            }
        }
        _ => Conv::Fail,
    }
}

fn conv_struct(t: &Tree, id: usize, len: usize, fields: &[(String, Option<Ds>)]) -> Conv {
    match t.kind(id) {
        Kind::Struct(fs) => {
            if fs.len() != fields.len() || fs.iter().zip(fields).any(|(a, b)| a.0 != b.0) {
                return Conv::Fail;
            }
            let c = Conv::join(
                fs.iter()
                    .zip(fields)
                    .map(|(a, b)| match &b.1 {
                        Some(x) => conv(x, t, a.1),
                        None => match t.resolve(a.1).map(|i| t.kind(i)) {
                            Some(Kind::Option(_)) => Conv::Must(Value::Option(None)),
                            _ => Conv::Fail,
                        },
                    })
                    .collect(),
                |v| {
                    Value::Struct(
                        fs.iter().zip(v).map(|(a, value)| StructValueField { name: a.0.clone(), value }).collect(),
                    )
                },
            );
            let shown = fields.iter().filter(|x| x.1.is_some()).count();
            if len == fields.len() || len == shown { c } else { c.may() }
        }
        _ => Conv::Fail,
    }
}

/// What the serde value means as a value of node `id`.
pub fn conv(d: &Ds, t: &Tree, id: usize) -> Conv {
    let id = match t.resolve(id) {
        Some(i) => i,
        None => return Conv::Fail,
    };
    let k = t.kind(id);
    let variant = |i: u32, n: &str| -> Option<usize> {
        match k {
            Kind::Enum(v) => v.get(i as usize).filter(|x| x.0 == n).map(|x| x.1),
            _ => None,
        }
    };
    let en = |i: u32, n: &str, c: Conv| {
        c.map(|v| Value::Enum(EnumValue { variant_ord: i as usize, variant_name: n.to_string(), value: Box::new(v) }))
    };
    match (d, k) {
        (Ds::NewStruct(x), _) => conv(x, t, id),
        (Ds::Scalar(s), Kind::Scalar(st)) if scalar_type(s) == *st => Conv::Must(Value::Scalar(*s)),
        (Ds::Str(s), Kind::Str) => Conv::Must(Value::Str(s.clone())),
        (Ds::Bytes(s), Kind::Bytes) => Conv::Must(Value::Bytes(s.clone())),
        (Ds::None, Kind::Option(_)) => Conv::Must(Value::Option(None)),
        (Ds::Some(x), Kind::Option(i)) => conv(x, t, *i).map(|v| Value::Option(Some(Box::new(v)))),
        (Ds::Unit, Kind::Unit) | (Ds::UnitStruct, Kind::Unit) => Conv::Must(Value::Unit),
        (Ds::UnitVar(i, n), _) => match variant(*i, n).and_then(|x| t.resolve(x)) {
            Some(x) if *t.kind(x) == Kind::Unit => en(*i, n, Conv::Must(Value::Unit)),
            _ => Conv::Fail,
        },
        (Ds::NewVar(i, n, x), _) => match variant(*i, n) {
            Some(c) => en(*i, n, conv(x, t, c)),
            None => Conv::Fail,
        },
        (Ds::Seq(l, v), _) => conv_seq(t, id, Q::Seq, *l, v),
        (Ds::Tuple(l, v), _) => conv_seq(t, id, Q::Tuple, Some(*l), v),
        (Ds::TupStruct(l, v), _) => conv_seq(t, id, Q::TupStruct, Some(*l), v),
        (Ds::TupVar(i, n, l, v), _) => match variant(*i, n).and_then(|x| t.resolve(x)) {
            Some(c) => en(*i, n, conv_seq(t, c, Q::TupStruct, Some(*l), v)),
            None => Conv::Fail,
        },
        (Ds::Map(l, v), Kind::Seq(sl, i)) => {
            if sl.is_none() && *l != Some(v.len()) || sl.map_or(false, |x| x != v.len()) {
                return Conv::Fail;
            }
            let pair = match t.resolve(*i).map(|x| t.kind(x)) {
                Some(Kind::Tuple(p)) if p.len() == 2 => Some((p[0], p[1])),
                _ => None,
            };
            match pair {
                Some((a, b)) => {
                    let c = Conv::join(
                        v.iter()
                            .map(|(x, y)| Conv::join(vec![conv(x, t, a), conv(y, t, b)], Value::Tuple))
                            .collect(),
                        |v| if sl.is_some() { Value::FixedLenSeq(v) } else { Value::VarLenSeq(v) },
                    );
                    if sl.is_none() { c } else { c.may() }
                }
                None if v.is_empty() => {
                    Conv::May(if sl.is_some() { Value::FixedLenSeq(vec![]) } else { Value::VarLenSeq(vec![]) })
                }
                None => Conv::Fail,
            }
        }
        (Ds::Struct(l, f), _) => conv_struct(t, id, *l, f),
        (Ds::StructVar(i, n, l, f), _) => match variant(*i, n).and_then(|x| t.resolve(x)) {
            Some(c) => en(*i, n, conv_struct(t, c, *l, f)),
            None => Conv::Fail,
        },
        _ => Conv::Fail,
    }
}

/// A serde value that must serialize as `v` under node `id`, in one of the
/// forms serde has for it.
pub fn to_ds(r: &mut Rng, t: &Tree, id: usize, v: &Value) -> Ds {
    let id = t.resolve(id).expect("legal");
    let mut d = match (t.kind(id), v) {
        (_, Value::Scalar(s)) => Ds::Scalar(*s),
        (_, Value::Str(s)) => Ds::Str(s.clone()),
        (_, Value::Bytes(s)) => Ds::Bytes(s.clone()),
        (_, Value::Unit) => match r.below(3) {
            0 => Ds::Unit,
            1 => Ds::UnitStruct,
            _ => Ds::TupStruct(0, vec![]),
        },
        (_, Value::Option(None)) => Ds::None,
        (Kind::Option(i), Value::Option(Some(x))) => Ds::Some(Box::new(to_ds(r, t, *i, x))),
        (Kind::Seq(_, i), Value::FixedLenSeq(x)) => {
            let v: Vec<Ds> = x.iter().map(|y| to_ds(r, t, *i, y)).collect();
            match r.below(3) {
                0 => Ds::Seq(None, v),
                1 => Ds::Seq(Some(v.len()), v),
                _ => Ds::Tuple(v.len(), v),
            }
        }
        (Kind::Seq(_, i), Value::VarLenSeq(x)) => {
            let pair = match t.resolve(*i).map(|x| t.kind(x)) {
                Some(Kind::Tuple(p)) if p.len() == 2 => Some((p[0], p[1])),
                _ => None,
            };
            match pair {
                Some((a, b)) if r.chance(1, 2) => {
                    let v: Vec<(Ds, Ds)> = x
                        .iter()
                        .map(|y| match y {
                            Value::Tuple(p) => (to_ds(r, t, a, &p[0]), to_ds(r, t, b, &p[1])),
                            _ => unreachable!(),
                        })
                        .collect();
                    Ds::Map(Some(v.len()), v)
                }
                _ => {
                    let v: Vec<Ds> = x.iter().map(|y| to_ds(r, t, *i, y)).collect();
                    Ds::Seq(Some(v.len()), v)
                }
            }
        }
        (Kind::Tuple(is), Value::Tuple(x)) => {
            let v: Vec<Ds> = is.iter().zip(x).map(|(i, y)| to_ds(r, t, *i, y)).collect();
            if r.chance(1, 2) { Ds::Tuple(v.len(), v) } else { Ds::TupStruct(v.len(), v) }
        }
        (Kind::Struct(fs), Value::Struct(x)) => {
            let (l, f) = ds_fields(r, t, fs, x);
            Ds::Struct(l, f)
        }
        (Kind::Enum(vars), Value::Enum(e)) => {
            let i = e.variant_ord as u32;
            let n = e.variant_name.clone();
            let c = vars[e.variant_ord].1;
            let rc = t.resolve(c).unwrap();
            let plain = r.chance(1, 4);
            match (t.kind(rc), &*e.value) {
                (Kind::Unit, _) if !plain => {
                    if r.chance(1, 3) { Ds::TupVar(i, n, 0, vec![]) } else { Ds::UnitVar(i, n) }
                }
                (Kind::Tuple(is), Value::Tuple(x)) if !plain => {
                    let v: Vec<Ds> = is.iter().zip(x).map(|(i, y)| to_ds(r, t, *i, y)).collect();
                    Ds::TupVar(i, n, v.len(), v)
                }
                (Kind::Struct(fs), Value::Struct(x)) if !plain => {
                    let (l, f) = ds_fields(r, t, fs, x);
                    Ds::StructVar(i, n, l, f)
                }
                _ => Ds::NewVar(i, n, Box::new(to_ds(r, t, c, &e.value))),
            }
        }
        _ => unreachable!("value does not conform"),
    };
    if r.chance(1, 10) {
        d = Ds::NewStruct(Box::new(d));
    }
    d
}

fn ds_fields(r: &mut Rng, t: &Tree, fs: &[(String, usize)], x: &[StructValueField]) -> (usize, Vec<(String, Option<Ds>)>) {
    let f: Vec<(String, Option<Ds>)> = fs
        .iter()
        .zip(x)
        .map(|(a, b)| {
            let skip = matches!(b.value, Value::Option(None)) && r.chance(1, 2);
            (a.0.clone(), if skip { None } else { Some(to_ds(r, t, a.1, &b.value)) })
        })
        .collect();
    let shown = f.iter().filter(|x| x.1.is_some()).count();
    (if r.chance(1, 2) { f.len() } else { shown }, f)
}

pub fn ds_count(d: &Ds) -> usize {
    1 + match d {
        Ds::Some(x) | Ds::NewStruct(x) | Ds::NewVar(_, _, x) => ds_count(x),
        Ds::Seq(_, v) | Ds::Tuple(_, v) | Ds::TupStruct(_, v) | Ds::TupVar(_, _, _, v) => v.iter().map(ds_count).sum(),
        Ds::Map(_, v) => v.iter().map(|(a, b)| ds_count(a) + ds_count(b)).sum(),
        Ds::Struct(_, f) | Ds::StructVar(_, _, _, f) => f.iter().filter_map(|x| x.1.as_ref()).map(ds_count).sum(),
        _ => 0,
    }
}

fn ds_nth<'d>(d: &'d mut Ds, k: &mut usize) -> Option<&'d mut Ds> {
    if *k == 0 {
        return Some(d);
    }
    *k -= 1;
    match d {
        Ds::Some(x) | Ds::NewStruct(x) | Ds::NewVar(_, _, x) => ds_nth(x, k),
        Ds::Seq(_, v) | Ds::Tuple(_, v) | Ds::TupStruct(_, v) | Ds::TupVar(_, _, _, v) => {
            v.iter_mut().find_map(|y| ds_nth(y, k))
        }
        Ds::Map(_, v) => v.iter_mut().find_map(|(a, b)| match ds_nth(a, k) {
            Some(x) => Some(x),
            None => ds_nth(b, k),
        }),
        Ds::Struct(_, f) | Ds::StructVar(_, _, _, f) => {
            f.iter_mut().filter_map(|x| x.1.as_mut()).find_map(|y| ds_nth(y, k))
        }
        _ => None,
    }
}

fn wild_ds(r: &mut Rng) -> Ds {
    match r.below(10) {
        0 => Ds::Str(r.string(3)),
        1 => Ds::Bytes(r.bytes(3)),
        2 => Ds::None,
        3 => Ds::Unit,
        4 => Ds::Tuple(0, vec![]),
        5 => Ds::Seq(Some(0), vec![]),
        6 => Ds::Map(Some(0), vec![]),
        7 => Ds::Struct(0, vec![]),
        _ => {
            let st = gen::scalar_ty(r);
            Ds::Scalar(gen::scalar(r, st))
        }
    }
}

/// Change the serde value at one node.
pub fn mutate_ds(r: &mut Rng, d: &mut Ds) {
    let mut k = r.below(ds_count(d));
    let x = match ds_nth(d, &mut k) {
        Some(x) => x,
        None => return,
    };
    let off = |r: &mut Rng, n: usize| match r.below(3) {
        0 => n + 1,
        1 => n.saturating_sub(1),
        _ => r.below(5),
    };
    fn items(r: &mut Rng, v: &mut Vec<Ds>) {
        match r.below(4) {
            0 => {
                v.pop();
            }
            1 => {
                let y = v.last().cloned().unwrap_or(Ds::Unit);
                v.push(y);
            }
            2 if v.len() > 1 => {
                let (a, b) = (r.below(v.len()), r.below(v.len()));
                v.swap(a, b);
            }
            _ => v.push(Ds::Unit),
        }
    }
    let fields = |r: &mut Rng, f: &mut Vec<(String, Option<Ds>)>| match r.below(6) {
        0 => {
            f.pop();
        }
        1 => {
            let y = f.last().cloned().unwrap_or(("a".into(), Some(Ds::Unit)));
            f.push(y);
        }
        2 if f.len() > 1 => {
            let (a, b) = (r.below(f.len()), r.below(f.len()));
            f.swap(a, b);
        }
        3 if !f.is_empty() => {
            let i = r.below(f.len());
            f[i].0 = crate::api::other_name(r, &f[i].0);
        }
        4 if !f.is_empty() => {
            let i = r.below(f.len());
            f[i].1 = None;
        }
        _ if !f.is_empty() => {
            let i = r.below(f.len());
            f.remove(i);
        }
        _ => f.push(("z".into(), Some(Ds::Unit))),
    };
    if r.chance(1, 8) {
        *x = wild_ds(r);
        return;
    }
    match x {
        Ds::Scalar(s) => {
            let n: i128 = match *s {
                ScalarValue::U8(n) => n as i128,
                ScalarValue::U16(n) => n as i128,
                ScalarValue::U32(n) => n as i128,
                ScalarValue::I8(n) => n as i128,
                ScalarValue::I16(n) => n as i128,
                ScalarValue::I32(n) => n as i128,
                ScalarValue::I64(n) => n as i128,
                _ => 1,
            };
            *s = match r.below(8) {
                0 => ScalarValue::U8(n as u8),
                1 => ScalarValue::U16(n as u16),
                2 => ScalarValue::U32(n as u32),
                3 => ScalarValue::U64(n as u64),
                4 => ScalarValue::I8(n as i8),
                5 => ScalarValue::I32(n as i32),
                6 => ScalarValue::I64(n as i64),
                _ => ScalarValue::I16(n as i16),
            };
        }
        Ds::Str(s) => *x = Ds::Bytes(s.as_bytes().to_vec()),
        Ds::Bytes(s) => *x = Ds::Str(String::from_utf8_lossy(s).into_owned()),
        Ds::None => *x = Ds::Unit,
        Ds::Some(y) => *x = (**y).clone(),
        Ds::Unit | Ds::UnitStruct => *x = Ds::Tuple(0, vec![]),
        Ds::NewStruct(y) => *x = Ds::Some(Box::new((**y).clone())),
        Ds::UnitVar(i, n) => match r.below(3) {
            0 => *i = i.wrapping_add(1),
            1 => *n = crate::api::other_name(r, n),
            _ => *x = Ds::Unit,
        },
        Ds::NewVar(i, n, y) => match r.below(4) {
            0 => *i = i.wrapping_add(1),
            1 => *n = crate::api::other_name(r, n),
            2 => *x = Ds::UnitVar(*i, n.clone()),
            _ => *x = (**y).clone(),
        },
        Ds::Seq(l, v) => match r.below(6) {
            0 => *l = None,
            1 => *l = Some(off(r, v.len())),
            2 => items(r, v),
            3 => {
                items(r, v);
                if l.is_some() {
                    *l = Some(v.len());
                }
            }
            _ => {
                let v = v.clone();
                *x = if r.chance(1, 2) { Ds::Tuple(v.len(), v) } else { Ds::TupStruct(v.len(), v) }
            }
        },
        Ds::Tuple(l, v) | Ds::TupStruct(l, v) => match r.below(6) {
            0 => *l = off(r, v.len()),
            1 => items(r, v),
            2 | 3 => {
                items(r, v);
                *l = v.len();
            }
            _ => *x = Ds::Seq(Some(v.len()), v.clone()),
        },
        Ds::TupVar(i, n, l, v) => match r.below(6) {
            0 => *i = i.wrapping_add(1),
            1 => *n = crate::api::other_name(r, n),
            2 => *l = off(r, v.len()),
            3 => items(r, v),
            4 => {
                items(r, v);
                *l = v.len();
            }
            _ => *x = Ds::Tuple(v.len(), v.clone()),
        },
        Ds::Map(l, v) => match r.below(5) {
            0 => *l = None,
            1 => *l = Some(off(r, v.len())),
            2 => {
                v.pop();
            }
            3 => {
                let y = v.last().cloned().unwrap_or((Ds::Unit, Ds::Unit));
                v.push(y);
            }
            _ => {
                let v: Vec<Ds> = v.iter().map(|(a, b)| Ds::Tuple(2, vec![a.clone(), b.clone()])).collect();
                *x = Ds::Seq(Some(v.len()), v)
            }
        },
        Ds::Struct(l, f) => match r.below(8) {
            0 => *l = off(r, f.len()),
            1 => {
                let v: Vec<Ds> = f.iter().filter_map(|y| y.1.clone()).collect();
                *x = Ds::Tuple(v.len(), v)
            }
            _ => {
                fields(r, f);
                *l = f.len();
            }
        },
        Ds::StructVar(i, n, l, f) => match r.below(8) {
            0 => *i = i.wrapping_add(1),
            1 => *n = crate::api::other_name(r, n),
            2 => *x = Ds::Struct(*l, f.clone()),
            _ => {
                fields(r, f);
                *l = f.len();
            }
        },
    }
}

// ---------------------------------------------------------------- deserialize

/// What to ask a deserializer for.
#[derive(Clone, Debug)]
pub enum Sh {
    Scalar(ScalarType),
    /// owned or not
    Str(bool),
    Bytes(bool),
    Option(Box<Sh>),
    Unit,
    UnitStruct,
    NewStruct(Box<Sh>),
    Seq(Box<Sh>),
    /// a seq visitor that stops after that many elements
    SeqTake(usize, Box<Sh>),
    Tuple(Vec<Sh>),
    TupStruct(Vec<Sh>),
    Map(Box<Sh>, Box<Sh>),
    Struct(Vec<(String, Sh)>),
    Enum(Vec<(String, VarSh)>),
    Any,
    Ignored,
    Identifier,
}

#[derive(Clone, Debug)]
pub enum VarSh {
    Unit,
    New(Sh),
    Tuple(Vec<Sh>),
    Struct(Vec<(String, Sh)>),
}

/// What came out.
#[derive(Clone, Debug)]
pub enum Co {
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Co>),
    Unit,
    New(Box<Co>),
    Seq(Vec<Co>),
    Map(Vec<(Co, Co)>),
    /// name known to the type, content
    Fields(Vec<(String, Co)>),
    /// ordinal, name if the type knows it, content
    Enum(u64, Option<String>, Box<Co>),
    Ignored,
}

/// Whether the content is the data of the value.
pub fn same(c: &Co, v: &Value) -> bool {
    match (c, v) {
        (Co::Ignored, _) => true,
        (Co::New(c), v) => same(c, v),
        (Co::Scalar(s), Value::Scalar(_)) => veq(&Value::Scalar(*s), v),
        (Co::Str(a), Value::Str(b)) => a == b,
        (Co::Bytes(a), Value::Bytes(b)) => a == b,
        (Co::None, Value::Option(None)) => true,
        (Co::Some(c), Value::Option(Some(v))) => same(c, v),
        (Co::Unit, Value::Unit) => true,
        (Co::Seq(a), Value::FixedLenSeq(b)) | (Co::Seq(a), Value::VarLenSeq(b)) | (Co::Seq(a), Value::Tuple(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
        }
        (Co::Seq(a), Value::Unit) => a.is_empty(),
        (Co::Map(a), Value::VarLenSeq(b)) | (Co::Map(a), Value::FixedLenSeq(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|((k, x), y)| match y {
                    Value::Tuple(p) => p.len() == 2 && same(k, &p[0]) && same(x, &p[1]),
                    _ => false,
                })
        }
        (Co::Map(a), Value::Struct(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|((k, x), f)| {
                    (match k {
                        Co::Str(s) => s == &f.name,
                        Co::Ignored => true,
                        _ => false,
                    }) && same(x, &f.value)
                })
        }
        (Co::Fields(a), Value::Struct(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, x), f)| k == &f.name && same(x, &f.value))
        }
        (Co::Enum(o, n, c), Value::Enum(e)) => {
            *o == e.variant_ord as u64 && n.as_ref().map_or(true, |n| n == &e.variant_name) && same(c, &e.value)
        }
        _ => false,
    }
}

/// Whether the visitors of the shape take all they are offered.
pub fn greedy(s: &Sh) -> bool {
    match s {
        Sh::SeqTake(..) => false,
        Sh::Option(x) | Sh::NewStruct(x) | Sh::Seq(x) => greedy(x),
        Sh::Map(a, b) => greedy(a) && greedy(b),
        Sh::Tuple(v) | Sh::TupStruct(v) => v.iter().all(greedy),
        Sh::Struct(f) => f.iter().all(|x| greedy(&x.1)),
        Sh::Enum(f) => f.iter().all(|x| match &x.1 {
            VarSh::Unit => true,
            VarSh::New(s) => greedy(s),
            VarSh::Tuple(v) => v.iter().all(greedy),
            VarSh::Struct(f) => f.iter().all(|x| greedy(&x.1)),
        }),
        _ => true,
    }
}

/// The shape serde types of that schema have.
fn same_names(fs: &[(String, usize)]) -> bool {
    (0..fs.len()).any(|i| fs[..i].iter().any(|f| f.0 == fs[i].0))
}

pub fn natural(r: &mut Rng, t: &Tree, id: usize, v: &Value) -> Sh {
    let id = t.resolve(id).expect("legal");
    let mut s = match (t.kind(id), v) {
        (Kind::Scalar(st), _) => Sh::Scalar(*st),
        (Kind::Str, _) => Sh::Str(r.chance(1, 2)),
        (Kind::Bytes, _) => Sh::Bytes(r.chance(1, 2)),
        (Kind::Unit, _) => match r.below(3) {
            0 => Sh::Unit,
            1 => Sh::UnitStruct,
            _ => Sh::TupStruct(vec![]),
        },
        (Kind::Option(i), Value::Option(Some(x))) => Sh::Option(Box::new(natural(r, t, *i, x))),
        (Kind::Option(_), _) => Sh::Option(Box::new(Sh::Unit)),
        (Kind::Seq(len, i), Value::FixedLenSeq(x)) | (Kind::Seq(len, i), Value::VarLenSeq(x)) => {
            // one shape for all elements must fit all of them: use Any where
            // they differ in what they show of the schema
            let e = natural_all(r, t, *i, x);
            match (len, r.below(3)) {
                (Some(n), 0) => Sh::Tuple((0..*n).map(|_| e.clone()).collect()),
                (None, 0) => match t.resolve(*i).map(|x| t.kind(x)) {
                    Some(Kind::Tuple(p)) if p.len() == 2 => {
                        let a: Vec<&Value> = x.iter().map(|y| if let Value::Tuple(p) = y { &p[0] } else { unreachable!() }).collect();
                        let b: Vec<&Value> = x.iter().map(|y| if let Value::Tuple(p) = y { &p[1] } else { unreachable!() }).collect();
                        let (a, b) = (natural_refs(r, t, p[0], &a), natural_refs(r, t, p[1], &b));
                        Sh::Map(Box::new(a), Box::new(b))
                    }
                    _ => Sh::Seq(Box::new(e)),
                },
                _ => Sh::Seq(Box::new(e)),
            }
        }
        (Kind::Tuple(is), Value::Tuple(x)) => {
            let v: Vec<Sh> = is.iter().zip(x).map(|(i, y)| natural(r, t, *i, y)).collect();
            if r.chance(1, 2) { Sh::Tuple(v) } else { Sh::TupStruct(v) }
        }
        // (a visitor which looks fields up by name would refuse these itself)
        (Kind::Struct(fs), _) | (Kind::Enum(fs), _) if same_names(fs) => Sh::Any,
        (Kind::Struct(fs), Value::Struct(x)) => {
            Sh::Struct(fs.iter().zip(x).map(|(f, y)| (f.0.clone(), natural(r, t, f.1, &y.value))).collect())
        }
        (Kind::Enum(vars), Value::Enum(e)) => Sh::Enum(
            vars.iter()
                .enumerate()
                .map(|(i, (n, c))| {
                    (
                        n.clone(),
                        if i != e.variant_ord {
                            VarSh::Unit
                        } else {
                            match (t.kind(t.resolve(*c).unwrap()), &*e.value) {
                                (Kind::Unit, _) if r.chance(3, 4) => VarSh::Unit,
                                (Kind::Unit, _) => VarSh::Tuple(vec![]),
                                (Kind::Tuple(is), Value::Tuple(x)) if r.chance(3, 4) => {
                                    VarSh::Tuple(is.iter().zip(x).map(|(i, y)| natural(r, t, *i, y)).collect())
                                }
                                (Kind::Struct(fs), Value::Struct(x)) if r.chance(3, 4) && !same_names(fs) => VarSh::Struct(
                                    fs.iter().zip(x).map(|(f, y)| (f.0.clone(), natural(r, t, f.1, &y.value))).collect(),
                                ),
                                _ => VarSh::New(natural(r, t, *c, &e.value)),
                            }
                        },
                    )
                })
                .collect(),
        ),
        _ => unreachable!("value does not conform"),
    };
    match r.below(20) {
        0 => s = Sh::NewStruct(Box::new(s)),
        1 => s = Sh::Any,
        2 => s = Sh::Ignored,
        _ => {}
    }
    s
}

fn natural_all(r: &mut Rng, t: &Tree, id: usize, vs: &[Value]) -> Sh {
    let v: Vec<&Value> = vs.iter().collect();
    natural_refs(r, t, id, &v)
}

fn natural_refs(r: &mut Rng, t: &Tree, id: usize, vs: &[&Value]) -> Sh {
    match vs.len() {
        0 => Sh::Ignored,
        1 => natural(r, t, id, vs[0]),
        _ => match t.resolve(id).map(|i| t.kind(i)) {
            Some(Kind::Scalar(st)) => Sh::Scalar(*st),
            Some(Kind::Str) => Sh::Str(true),
            Some(Kind::Bytes) => Sh::Bytes(true),
            Some(Kind::Unit) => Sh::Unit,
            _ => Sh::Any,
        },
    }
}

/// Change the shape at one node.
pub fn mutate_sh(r: &mut Rng, s: &mut Sh) {
    // descend at random
    if !r.chance(1, 3) {
        match s {
            Sh::Option(x) | Sh::NewStruct(x) | Sh::Seq(x) => return mutate_sh(r, x),
            Sh::Tuple(v) | Sh::TupStruct(v) if !v.is_empty() => {
                let i = r.below(v.len());
                return mutate_sh(r, &mut v[i]);
            }
            Sh::Struct(v) if !v.is_empty() => {
                let i = r.below(v.len());
                return mutate_sh(r, &mut v[i].1);
            }
            Sh::Map(a, b) => {
                let x = if r.chance(1, 2) { a } else { b };
                return mutate_sh(r, x);
            }
            _ => {}
        }
    }
    let x = s;
    if r.chance(1, 8) {
        *x = match r.below(9) {
            0 => Sh::Any,
            1 => Sh::Ignored,
            2 => Sh::Identifier,
            3 => Sh::Unit,
            4 => Sh::Str(true),
            5 => Sh::Seq(Box::new(Sh::Any)),
            6 => Sh::Map(Box::new(Sh::Any), Box::new(Sh::Any)),
            7 => Sh::SeqTake(r.below(3), Box::new(Sh::Any)),
            _ => Sh::Scalar(gen::scalar_ty(r)),
        };
        return;
    }
    match x {
        Sh::Scalar(_) => *x = Sh::Scalar(gen::scalar_ty(r)),
        Sh::Str(_) => *x = Sh::Bytes(true),
        Sh::Bytes(_) => *x = Sh::Str(true),
        Sh::Option(i) => *x = (**i).clone(),
        Sh::Unit | Sh::UnitStruct => {
            *x = match r.below(3) {
                0 => Sh::Tuple(vec![]),
                1 => Sh::Struct(vec![]),
                _ => Sh::Seq(Box::new(Sh::Any)),
            }
        }
        Sh::NewStruct(i) => *x = Sh::Option(i.clone()),
        Sh::Seq(i) => {
            *x = match r.below(3) {
                0 => Sh::SeqTake(r.below(4), i.clone()),
                1 => Sh::Tuple((0..r.below(4)).map(|_| (**i).clone()).collect()),
                _ => Sh::Map(Box::new(Sh::Any), i.clone()),
            }
        }
        Sh::SeqTake(n, _) => *n += 1,
        Sh::Tuple(v) | Sh::TupStruct(v) => match r.below(4) {
            0 => {
                v.pop();
            }
            1 => v.push(Sh::Any),
            2 if v.len() > 1 => {
                let (a, b) = (r.below(v.len()), r.below(v.len()));
                v.swap(a, b);
            }
            _ => *x = Sh::Seq(Box::new(Sh::Any)),
        },
        Sh::Map(a, b) => match r.below(3) {
            0 => std::mem::swap(a, b),
            1 => *x = Sh::Seq(Box::new(Sh::Tuple(vec![(**a).clone(), (**b).clone()]))),
            _ => *x = Sh::Struct(vec![("a".into(), (**b).clone())]),
        },
        Sh::Struct(f) => match r.below(7) {
            0 => {
                f.pop();
            }
            1 => f.push((gen::name(r, false), Sh::Any)),
            2 if f.len() > 1 => {
                let (a, b) = (r.below(f.len()), r.below(f.len()));
                f.swap(a, b);
            }
            3 if !f.is_empty() => {
                let i = r.below(f.len());
                f[i].0 = crate::api::other_name(r, &f[i].0);
            }
            4 if !f.is_empty() => {
                let i = r.below(f.len());
                f.remove(i);
            }
            5 => *x = Sh::Map(Box::new(Sh::Any), Box::new(Sh::Any)),
            _ => *x = Sh::Tuple(f.iter().map(|y| y.1.clone()).collect()),
        },
        Sh::Enum(v) => match r.below(6) {
            0 => {
                v.pop();
            }
            1 if v.len() > 1 => {
                let (a, b) = (r.below(v.len()), r.below(v.len()));
                v.swap(a, b);
            }
            2 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i].0 = crate::api::other_name(r, &v[i].0);
            }
            3 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i].1 = match r.below(4) {
                    0 => VarSh::Unit,
                    1 => VarSh::New(Sh::Any),
                    2 => VarSh::Tuple((0..r.below(3)).map(|_| Sh::Any).collect()),
                    _ => VarSh::Struct(vec![("a".into(), Sh::Any)]),
                };
            }
            4 => v.insert(0, (gen::name(r, false), VarSh::Unit)),
            _ => *x = Sh::Option(Box::new(Sh::Any)),
        },
        _ => *x = Sh::Unit,
    }
}

pub struct Seed<'s>(pub &'s Sh);

impl<'s, 'd> DeserializeSeed<'d> for Seed<'s> {
    type Value = Co;
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<Co, D::Error> {
        use ScalarType as T;
        let v = Vis(self.0);
        match self.0 {
            Sh::Scalar(st) => match st {
                T::U8 => d.deserialize_u8(v),
                T::U16 => d.deserialize_u16(v),
                T::U32 => d.deserialize_u32(v),
                T::U64 => d.deserialize_u64(v),
                T::U128 => d.deserialize_u128(v),
                T::I8 => d.deserialize_i8(v),
                T::I16 => d.deserialize_i16(v),
                T::I32 => d.deserialize_i32(v),
                T::I64 => d.deserialize_i64(v),
                T::I128 => d.deserialize_i128(v),
                T::F32 => d.deserialize_f32(v),
                T::F64 => d.deserialize_f64(v),
                T::Char => d.deserialize_char(v),
                T::Bool => d.deserialize_bool(v),
            },
            Sh::Str(true) => d.deserialize_string(v),
            Sh::Str(false) => d.deserialize_str(v),
            Sh::Bytes(true) => d.deserialize_byte_buf(v),
            Sh::Bytes(false) => d.deserialize_bytes(v),
            Sh::Option(_) => d.deserialize_option(v),
            Sh::Unit => d.deserialize_unit(v),
            Sh::UnitStruct => d.deserialize_unit_struct("U", v),
            Sh::NewStruct(_) => d.deserialize_newtype_struct("N", v),
            Sh::Seq(_) | Sh::SeqTake(..) => d.deserialize_seq(v),
            Sh::Tuple(x) => d.deserialize_tuple(x.len(), v),
            Sh::TupStruct(x) => d.deserialize_tuple_struct("T", x.len(), v),
            Sh::Map(..) => d.deserialize_map(v),
            Sh::Struct(f) => {
                let names: Vec<String> = f.iter().map(|x| x.0.clone()).collect();
                d.deserialize_struct("S", intern_list(&names), v)
            }
            Sh::Enum(f) => {
                let names: Vec<String> = f.iter().map(|x| x.0.clone()).collect();
                d.deserialize_enum("E", intern_list(&names), v)
            }
            Sh::Any => d.deserialize_any(v),
            Sh::Ignored => IgnoredAny::deserialize(d).map(|_| Co::Ignored),
            Sh::Identifier => d.deserialize_identifier(v),
        }
    }
}

struct Vis<'s>(&'s Sh);

macro_rules! leaf {
    ($($m:ident $t:ty, $k:ident;)*) => {$(
        fn $m<E: de::Error>(self, v: $t) -> Result<Co, E> {
            let s = ScalarValue::$k(v);
            match self.0 {
                Sh::Any => Ok(Co::Scalar(s)),
                Sh::Scalar(st) if *st == scalar_type(&s) => Ok(Co::Scalar(s)),
                _ => Err(E::custom("unexpected scalar")),
            }
        }
    )*};
}

/// Visits elements in order with the shapes given (then `rest`).
fn seq<'d, A: SeqAccess<'d>>(mut a: A, shapes: &[Sh], rest: Option<&Sh>, max: usize) -> Result<Co, A::Error> {
    let mut out = vec![];
    while out.len() < max {
        let s = match shapes.get(out.len()) {
            Some(s) => s,
            None => match rest {
                Some(s) => s,
                None => break,
            },
        };
        match a.next_element_seed(Seed(s))? {
            Some(c) => out.push(c),
            None => {
                if out.len() < shapes.len() {
                    return Err(de::Error::invalid_length(out.len(), &"more"));
                }
                break;
            }
        }
    }
    Ok(Co::Seq(out))
}

/// As derived types do: keys are identifiers, unknown ones are ignored,
/// duplicates and missing ones are errors.
fn fields<'d, A: MapAccess<'d>>(mut a: A, f: &[(String, Sh)]) -> Result<Co, A::Error> {
    let mut out: Vec<Option<Co>> = f.iter().map(|_| None).collect();
    let mut order = vec![];
    while let Some(key) = a.next_key_seed(Ident(f.iter().map(|x| x.0.as_str()).collect()))? {
        match key {
            Some(i) => {
                if out[i].is_some() {
                    return Err(de::Error::custom("duplicate field"));
                }
                out[i] = Some(a.next_value_seed(Seed(&f[i].1))?);
                order.push(i);
            }
            None => {
                a.next_value::<IgnoredAny>()?;
            }
        }
    }
    if out.iter().any(|x| x.is_none()) {
        return Err(de::Error::custom("missing field"));
    }
    Ok(Co::Fields(f.iter().zip(out).map(|(a, b)| (a.0.clone(), b.unwrap())).collect()))
}

/// Identifier of a field or variant: index among the names.
struct Ident<'s>(Vec<&'s str>);

impl<'s, 'd> DeserializeSeed<'d> for Ident<'s> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl<'s, 'd> Visitor<'d> for Ident<'s> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        Ok(Some(v as usize).filter(|&i| i < self.0.len()))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|x| *x == v))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|x| x.as_bytes() == v))
    }
}

/// Identifier of which only the number or text is kept.
struct AnyIdent;

enum Id {
    Num(u64),
    Text(String),
}

impl<'d> DeserializeSeed<'d> for AnyIdent {
    type Value = Id;
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<Id, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl<'d> Visitor<'d> for AnyIdent {
    type Value = Id;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Id, E> {
        Ok(Id::Num(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Id, E> {
        Ok(Id::Text(v.to_string()))
    }
}

impl<'s, 'd> Visitor<'d> for Vis<'s> {
    type Value = Co;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }

    leaf! {
        visit_bool bool, Bool;
        visit_i8 i8, I8;
        visit_i16 i16, I16;
        visit_i32 i32, I32;
        visit_i64 i64, I64;
        visit_i128 i128, I128;
        visit_u8 u8, U8;
        visit_u16 u16, U16;
        visit_u32 u32, U32;
        visit_u64 u64, U64;
        visit_u128 u128, U128;
        visit_f32 f32, F32;
        visit_f64 f64, F64;
        visit_char char, Char;
    }

    fn visit_str<E: de::Error>(self, v: &str) -> Result<Co, E> {
        match self.0 {
            Sh::Any | Sh::Str(_) | Sh::Identifier => Ok(Co::Str(crate::api::sound_str(v).to_string())),
            _ => Err(E::custom("unexpected str")),
        }
    }

    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Co, E> {
        match self.0 {
            Sh::Any | Sh::Bytes(_) => Ok(Co::Bytes(v.to_vec())),
            _ => Err(E::custom("unexpected bytes")),
        }
    }

    fn visit_none<E: de::Error>(self) -> Result<Co, E> {
        match self.0 {
            Sh::Any | Sh::Option(_) => Ok(Co::None),
            _ => Err(E::custom("unexpected none")),
        }
    }

    fn visit_some<D: Deserializer<'d>>(self, d: D) -> Result<Co, D::Error> {
        let s = match self.0 {
            Sh::Any => &Sh::Any,
            Sh::Option(s) => &**s,
            _ => return Err(de::Error::custom("unexpected some")),
        };
        Ok(Co::Some(Box::new(Seed(s).deserialize(d)?)))
    }

    fn visit_unit<E: de::Error>(self) -> Result<Co, E> {
        match self.0 {
            Sh::Any | Sh::Unit | Sh::UnitStruct => Ok(Co::Unit),
            _ => Err(E::custom("unexpected unit")),
        }
    }

    fn visit_newtype_struct<D: Deserializer<'d>>(self, d: D) -> Result<Co, D::Error> {
        match self.0 {
            Sh::NewStruct(s) => Ok(Co::New(Box::new(Seed(s).deserialize(d)?))),
            Sh::Any => Ok(Co::New(Box::new(Seed(&Sh::Any).deserialize(d)?))),
            _ => Err(de::Error::custom("unexpected newtype")),
        }
    }

    fn visit_seq<A: SeqAccess<'d>>(self, a: A) -> Result<Co, A::Error> {
        match self.0 {
            Sh::Any => seq(a, &[], Some(&Sh::Any), usize::MAX),
            Sh::Seq(s) => seq(a, &[], Some(s), usize::MAX),
            Sh::SeqTake(n, s) => seq(a, &[], Some(s), *n),
            Sh::Tuple(v) | Sh::TupStruct(v) => seq(a, v, None, usize::MAX),
            Sh::Struct(f) => {
                let shapes: Vec<Sh> = f.iter().map(|x| x.1.clone()).collect();
                match seq(a, &shapes, None, usize::MAX)? {
                    Co::Seq(v) => Ok(Co::Fields(f.iter().zip(v).map(|(a, b)| (a.0.clone(), b)).collect())),
                    x => Ok(x),
                }
            }
            _ => Err(de::Error::custom("unexpected seq")),
        }
    }

    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<Co, A::Error> {
        let (ks, vs) = match self.0 {
            Sh::Any => (&Sh::Any, &Sh::Any),
            Sh::Map(k, v) => (&**k, &**v),
            Sh::Struct(f) => return fields(a, f),
            _ => return Err(de::Error::custom("unexpected map")),
        };
        let mut out = vec![];
        while let Some(k) = a.next_key_seed(Seed(ks))? {
            let v = a.next_value_seed(Seed(vs))?;
            out.push((k, v));
        }
        Ok(Co::Map(out))
    }

    fn visit_enum<A: EnumAccess<'d>>(self, a: A) -> Result<Co, A::Error> {
        match self.0 {
            Sh::Any => {
                let (id, va) = a.variant_seed(AnyIdent)?;
                let c = va.newtype_variant_seed(Seed(&Sh::Any))?;
                Ok(match id {
                    Id::Num(n) => Co::Enum(n, None, Box::new(c)),
                    // a name: the ordinal is not known
                    Id::Text(n) => Co::Enum(u64::MAX, Some(n), Box::new(c)),
                })
            }
            Sh::Enum(vars) => {
                let (id, va) = a.variant_seed(Ident(vars.iter().map(|x| x.0.as_str()).collect()))?;
                let i = id.ok_or_else(|| de::Error::custom("unknown variant"))?;
                let c = match &vars[i].1 {
                    VarSh::Unit => {
                        va.unit_variant()?;
                        Co::Unit
                    }
                    VarSh::New(s) => va.newtype_variant_seed(Seed(s))?,
                    VarSh::Tuple(v) => {
                        let s = Sh::Tuple(v.clone());
                        va.tuple_variant(v.len(), Vis(&s))?
                    }
                    VarSh::Struct(f) => {
                        let names: Vec<String> = f.iter().map(|x| x.0.clone()).collect();
                        let s = Sh::Struct(f.clone());
                        va.struct_variant(intern_list(&names), Vis(&s))?
                    }
                };
                Ok(Co::Enum(i as u64, Some(vars[i].0.clone()), Box::new(c)))
            }
            _ => Err(de::Error::custom("unexpected enum")),
        }
    }
}

pub fn de_shape<R: Read>(d: &mut Decoder<R>, s: &Sh) -> Result<Co, Error> {
    Seed(s).deserialize(d)
}

pub fn de_any<R: Read>(d: &mut Decoder<R>) -> Result<Co, Error> {
    de_shape(d, &Sh::Any)
}

/// Change the schema at one node.
pub fn mutate_schema(r: &mut Rng, s: &Schema) -> Schema {
    let t = Tree::new(s);
    let x = r.below(t.nodes.len());
    let old = t.schema(x);
    use binschema::{EnumSchemaVariant, SeqSchema, StructSchemaField};
    let new = match old {
        Schema::Scalar(_) => Schema::Scalar(gen::scalar_ty(r)),
        Schema::Str => Schema::Bytes,
        Schema::Bytes => Schema::Str,
        Schema::Unit => Schema::Tuple(vec![]),
        Schema::Option(i) => *i,
        Schema::Seq(q) => match r.below(4) {
            0 => Schema::Seq(SeqSchema { len: None, inner: q.inner }),
            1 => Schema::Seq(SeqSchema { len: Some(r.below(4)), inner: q.inner }),
            2 => Schema::Tuple((0..r.below(4)).map(|_| (*q.inner).clone()).collect()),
            _ => Schema::Option(q.inner),
        },
        Schema::Tuple(mut v) => match r.below(5) {
            0 => {
                v.pop();
                Schema::Tuple(v)
            }
            1 => {
                v.push(Schema::Unit);
                Schema::Tuple(v)
            }
            2 if v.len() > 1 => {
                let (a, b) = (r.below(v.len()), r.below(v.len()));
                v.swap(a, b);
                Schema::Tuple(v)
            }
            3 => Schema::Struct(
                v.into_iter().enumerate().map(|(i, inner)| StructSchemaField { name: format!("f{}", i), inner }).collect(),
            ),
            _ => Schema::Seq(SeqSchema { len: None, inner: Box::new(v.pop().unwrap_or(Schema::Unit)) }),
        },
        Schema::Struct(mut v) => match r.below(5) {
            0 => {
                v.pop();
                Schema::Struct(v)
            }
            1 => {
                v.push(StructSchemaField { name: "zz".into(), inner: Schema::Unit });
                Schema::Struct(v)
            }
            2 if v.len() > 1 => {
                let (a, b) = (r.below(v.len()), r.below(v.len()));
                v.swap(a, b);
                Schema::Struct(v)
            }
            3 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i].name = crate::api::other_name(r, &v[i].name);
                Schema::Struct(v)
            }
            _ => Schema::Tuple(v.into_iter().map(|x| x.inner).collect()),
        },
        Schema::Enum(mut v) => match r.below(4) {
            0 if v.len() > 1 => {
                v.pop();
                Schema::Enum(v)
            }
            1 => {
                let at = r.below(v.len() + 1);
                v.insert(at, EnumSchemaVariant { name: "zz".into(), inner: Schema::Unit });
                Schema::Enum(v)
            }
            2 if v.len() > 1 => {
                let (a, b) = (r.below(v.len()), r.below(v.len()));
                v.swap(a, b);
                Schema::Enum(v)
            }
            _ => {
                if !v.is_empty() {
                    let i = r.below(v.len());
                    v[i].name = crate::api::other_name(r, &v[i].name);
                }
                Schema::Enum(v)
            }
        },
        Schema::Recurse(n) => {
            if n > 1 {
                Schema::Recurse(n - 1)
            } else {
                Schema::Unit
            }
        }
    };
    crate::session::put(&t, x, &new)
}
