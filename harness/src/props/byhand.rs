//! C25: types whose serde code is written by hand, the way serde's documentation writes it: visitors that implement
//! nothing but the method for what they asked for, seeds that carry state, fields known by name only.

use super::types::*;
use crate::{probe::*, run::*};
use binschema::{schema, value::Value};
use serde::{
    de::{self, *},
    ser::*,
    Deserialize, Deserializer, Serialize, Serializer,
};
use std::{collections::BTreeMap, fmt, marker::PhantomData};

/// One visitor method and nothing else.
macro_rules! only {
    ($v:ident $(<$p:ident>)?, $out:ty, $hint:expr, $($m:item)*) => {
        struct $v $(<$p>(PhantomData<$p>))?;
        impl<'de $(, $p: Deserialize<'de>)?> Visitor<'de> for $v $(<$p>)? {
            type Value = $out;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str($hint) }
            $($m)*
        }
    };
}

// ---- a struct, as in serde's book ----

#[derive(PartialEq)]
struct Span {
    secs: u64,
    nanos: u32,
}

impl Serialize for Span {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut s = s.serialize_struct("Span", 2)?;
        s.serialize_field("secs", &self.secs)?;
        s.serialize_field("nanos", &self.nanos)?;
        s.end()
    }
}

impl<'de> Deserialize<'de> for Span {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        enum Field {
            Secs,
            Nanos,
        }
        only!(FieldVisitor, Field, "`secs` or `nanos`",
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Field, E> {
                match v {
                    "secs" => Ok(Field::Secs),
                    "nanos" => Ok(Field::Nanos),
                    _ => Err(E::unknown_field(v, FIELDS)),
                }
            }
        );
        impl<'de> Deserialize<'de> for Field {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Field, D::Error> {
                d.deserialize_identifier(FieldVisitor)
            }
        }
        only!(SpanVisitor, Span, "struct Span",
            fn visit_seq<V: SeqAccess<'de>>(self, mut seq: V) -> Result<Span, V::Error> {
                let secs = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(0, &self))?;
                let nanos = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(1, &self))?;
                Ok(Span { secs, nanos })
            }
            fn visit_map<V: MapAccess<'de>>(self, mut map: V) -> Result<Span, V::Error> {
                let mut secs = None;
                let mut nanos = None;
                while let Some(key) = map.next_key()? {
                    match key {
                        Field::Secs => {
                            if secs.is_some() {
                                return Err(de::Error::duplicate_field("secs"));
                            }
                            secs = Some(map.next_value()?);
                        }
                        Field::Nanos => {
                            if nanos.is_some() {
                                return Err(de::Error::duplicate_field("nanos"));
                            }
                            nanos = Some(map.next_value()?);
                        }
                    }
                }
                let secs = secs.ok_or_else(|| de::Error::missing_field("secs"))?;
                let nanos = nanos.ok_or_else(|| de::Error::missing_field("nanos"))?;
                Ok(Span { secs, nanos })
            }
        );
        const FIELDS: &[&str] = &["secs", "nanos"];
        d.deserialize_struct("Span", FIELDS, SpanVisitor)
    }
}

// ---- visitors of one method ----

#[derive(PartialEq)]
struct Maybe<T>(Option<T>);

impl<T: Serialize> Serialize for Maybe<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match &self.0 {
            Some(x) => s.serialize_some(x),
            None => s.serialize_none(),
        }
    }
}

impl<'de, T: Deserialize<'de>> Deserialize<'de> for Maybe<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        only!(V<T>, Maybe<T>, "an option",
            fn visit_none<E: de::Error>(self) -> Result<Maybe<T>, E> {
                Ok(Maybe(None))
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Maybe<T>, D::Error> {
                T::deserialize(d).map(|x| Maybe(Some(x)))
            }
        );
        d.deserialize_option(V(PhantomData))
    }
}

#[derive(PartialEq)]
struct Mark;

impl Serialize for Mark {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit_struct("Mark")
    }
}

impl<'de> Deserialize<'de> for Mark {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        only!(V, Mark, "a mark",
            fn visit_unit<E: de::Error>(self) -> Result<Mark, E> {
                Ok(Mark)
            }
        );
        d.deserialize_unit_struct("Mark", V)
    }
}

#[derive(PartialEq)]
struct Metres(u32);

impl Serialize for Metres {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_newtype_struct("Metres", &self.0)
    }
}

impl<'de> Deserialize<'de> for Metres {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        only!(V, Metres, "metres",
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Metres, D::Error> {
                u32::deserialize(d).map(Metres)
            }
        );
        d.deserialize_newtype_struct("Metres", V)
    }
}

#[derive(PartialEq)]
struct Rgb(u8, u8, u8);

impl Serialize for Rgb {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_tuple_struct("Rgb", 3)?;
        t.serialize_field(&self.0)?;
        t.serialize_field(&self.1)?;
        t.serialize_field(&self.2)?;
        t.end()
    }
}

impl<'de> Deserialize<'de> for Rgb {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        only!(V, Rgb, "a colour",
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Rgb, A::Error> {
                let mut n = || a.next_element()?.ok_or_else(|| de::Error::custom("missing"));
                Ok(Rgb(n()?, n()?, n()?))
            }
        );
        d.deserialize_tuple_struct("Rgb", 3, V)
    }
}

/// Leaves that only take what they ask for.
macro_rules! leaves {
    ($($name:ident, $in:ty, $ser:ident, $de:ident, $visit:ident, $arg:ty, $conv:expr;)*) => {$(
        #[derive(PartialEq)]
        struct $name($in);
        impl Serialize for $name {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.$ser((&self.0).into_arg())
            }
        }
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                only!(V, $name, stringify!($name),
                    fn $visit<E: de::Error>(self, v: $arg) -> Result<$name, E> {
                        let f: fn($arg) -> $in = $conv;
                        Ok($name(f(v)))
                    }
                );
                d.$de(V)
            }
        }
    )*};
}

trait IntoArg<T> {
    fn into_arg(self) -> T;
}
impl IntoArg<bool> for &bool {
    fn into_arg(self) -> bool {
        *self
    }
}
impl IntoArg<char> for &char {
    fn into_arg(self) -> char {
        *self
    }
}
impl IntoArg<f32> for &f32 {
    fn into_arg(self) -> f32 {
        *self
    }
}
impl IntoArg<f64> for &f64 {
    fn into_arg(self) -> f64 {
        *self
    }
}
impl<'a> IntoArg<&'a str> for &'a String {
    fn into_arg(self) -> &'a str {
        self
    }
}
impl<'a> IntoArg<&'a [u8]> for &'a Vec<u8> {
    fn into_arg(self) -> &'a [u8] {
        self
    }
}

leaves! {
    OnlyBool, bool, serialize_bool, deserialize_bool, visit_bool, bool, |x| x;
    OnlyChar, char, serialize_char, deserialize_char, visit_char, char, |x| x;
    OnlyF32, f32, serialize_f32, deserialize_f32, visit_f32, f32, |x| x;
    OnlyF64, f64, serialize_f64, deserialize_f64, visit_f64, f64, |x| x;
    // (visit_string and visit_byte_buf fall back on these)
    OnlyStr, String, serialize_str, deserialize_str, visit_str, &str, |x| x.to_string();
    OnlyString, String, serialize_str, deserialize_string, visit_str, &str, |x| x.to_string();
    OnlyBytes, Vec<u8>, serialize_bytes, deserialize_bytes, visit_bytes, &[u8], |x| x.to_vec();
    OnlyBuf, Vec<u8>, serialize_bytes, deserialize_byte_buf, visit_bytes, &[u8], |x| x.to_vec();
}

// ---- an enum whose visitor knows indices and names ----

#[derive(PartialEq)]
enum Op {
    Nop,
    Push(u32),
    Move(u8, u8),
    Call { name: String, far: bool },
}

impl Serialize for Op {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Op::Nop => s.serialize_unit_variant("Op", 0, "Nop"),
            Op::Push(x) => s.serialize_newtype_variant("Op", 1, "Push", x),
            Op::Move(a, b) => {
                let mut t = s.serialize_tuple_variant("Op", 2, "Move", 2)?;
                t.serialize_field(a)?;
                t.serialize_field(b)?;
                t.end()
            }
            Op::Call { name, far } => {
                let mut t = s.serialize_struct_variant("Op", 3, "Call", 2)?;
                t.serialize_field("name", name)?;
                t.serialize_field("far", far)?;
                t.end()
            }
        }
    }
}

impl<'de> Deserialize<'de> for Op {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Which(usize);
        const OPS: &[&str] = &["Nop", "Push", "Move", "Call"];
        only!(WhichVisitor, Which, "an op",
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<Which, E> {
                if v < 4 { Ok(Which(v as usize)) } else { Err(E::custom("no such op")) }
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Which, E> {
                OPS.iter().position(|x| *x == v).map(Which).ok_or_else(|| E::unknown_variant(v, OPS))
            }
        );
        impl<'de> Deserialize<'de> for Which {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Which, D::Error> {
                d.deserialize_identifier(WhichVisitor)
            }
        }
        only!(MoveVisitor, Op, "a move",
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Op, A::Error> {
                let mut n = || a.next_element()?.ok_or_else(|| de::Error::custom("missing"));
                Ok(Op::Move(n()?, n()?))
            }
        );
        only!(CallVisitor, Op, "a call",
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Op, A::Error> {
                let name = a.next_element()?.ok_or_else(|| de::Error::custom("missing"))?;
                let far = a.next_element()?.ok_or_else(|| de::Error::custom("missing"))?;
                Ok(Op::Call { name, far })
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Op, A::Error> {
                let (mut name, mut far) = (None, None);
                while let Some(k) = a.next_key::<OnlyStrKey>()? {
                    match k.0.as_str() {
                        "name" => name = Some(a.next_value()?),
                        "far" => far = Some(a.next_value()?),
                        x => return Err(de::Error::unknown_field(x, &["name", "far"])),
                    }
                }
                match (name, far) {
                    (Some(name), Some(far)) => Ok(Op::Call { name, far }),
                    _ => Err(de::Error::custom("missing")),
                }
            }
        );
        only!(OpVisitor, Op, "enum Op",
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Op, A::Error> {
                let (w, v) = a.variant::<Which>()?;
                match w.0 {
                    0 => v.unit_variant().map(|()| Op::Nop),
                    1 => v.newtype_variant().map(Op::Push),
                    2 => v.tuple_variant(2, MoveVisitor),
                    _ => v.struct_variant(&["name", "far"], CallVisitor),
                }
            }
        );
        d.deserialize_enum("Op", OPS, OpVisitor)
    }
}

struct OnlyStrKey(String);

impl<'de> Deserialize<'de> for OnlyStrKey {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        only!(V, OnlyStrKey, "a key",
            fn visit_str<E: de::Error>(self, v: &str) -> Result<OnlyStrKey, E> {
                Ok(OnlyStrKey(v.to_string()))
            }
        );
        d.deserialize_identifier(V)
    }
}

// ---- a map read by entries, by keys, or with a seed ----

#[derive(PartialEq)]
struct Bag(BTreeMap<String, u32>, u8);

impl Serialize for Bag {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (i, (k, v)) in self.0.iter().enumerate() {
            // both ways of writing an entry
            if i % 2 == 0 {
                m.serialize_entry(k, v)?;
            } else {
                m.serialize_key(k)?;
                m.serialize_value(v)?;
            }
        }
        m.end()
    }
}

impl<'de> Deserialize<'de> for Bag {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        only!(V, Bag, "a map",
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Bag, A::Error> {
                let mut out = BTreeMap::new();
                let mut i = 0usize;
                loop {
                    match i % 3 {
                        0 => match a.next_entry()? {
                            Some((k, v)) => { out.insert(k, v); }
                            None => break,
                        },
                        1 => match a.next_key::<String>()? {
                            Some(k) => { out.insert(k, a.next_value()?); }
                            None => break,
                        },
                        _ => match a.next_entry_seed(Plus(String::new()), PhantomData::<u32>)? {
                            Some((k, v)) => { out.insert(k, v); }
                            None => break,
                        },
                    }
                    i += 1;
                }
                // the end stays the end
                if a.next_key::<String>()?.is_some() {
                    return Err(de::Error::custom("entries after the last"));
                }
                Ok(Bag(out, 0))
            }
        );
        d.deserialize_map(V)
    }
}

/// A seed that appends to what it has.
struct Plus(String);

impl<'de> DeserializeSeed<'de> for Plus {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        let x = String::deserialize(d)?;
        Ok(self.0 + &x)
    }
}

/// Rows of numbers, flattened into one list by a seed that borrows it.
#[derive(PartialEq)]
struct Rows(Vec<u32>, Vec<usize>);

impl Serialize for Rows {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut at = 0;
        let mut q = s.serialize_seq(Some(self.1.len()))?;
        for n in &self.1 {
            q.serialize_element(&self.0[at..at + n])?;
            at += n;
        }
        q.end()
    }
}

struct Extend<'a>(&'a mut Vec<u32>);

impl<'de, 'a> DeserializeSeed<'de> for Extend<'a> {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        struct V<'a>(&'a mut Vec<u32>);
        impl<'de, 'a> Visitor<'de> for V<'a> {
            type Value = usize;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("numbers")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<usize, A::Error> {
                let mut n = 0;
                while let Some(x) = a.next_element()? {
                    self.0.push(x);
                    n += 1;
                }
                Ok(n)
            }
        }
        d.deserialize_seq(V(self.0))
    }
}

impl<'de> Deserialize<'de> for Rows {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        only!(V, Rows, "rows",
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Rows, A::Error> {
                let (mut all, mut lens) = (vec![], vec![]);
                while let Some(n) = a.next_element_seed(Extend(&mut all))? {
                    lens.push(n);
                }
                if a.next_element::<IgnoredAny>()?.is_some() {
                    return Err(de::Error::custom("elements after the last"));
                }
                Ok(Rows(all, lens))
            }
        );
        d.deserialize_seq(V)
    }
}

/// Allocates what the access says it will give, and takes it badly when it gives another number.
#[derive(PartialEq)]
struct Hinted(Vec<u16>);

impl Serialize for Hinted {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(&self.0)
    }
}

impl<'de> Deserialize<'de> for Hinted {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        only!(V, Hinted, "numbers",
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Hinted, A::Error> {
                let mut out = vec![];
                loop {
                    let hint = a.size_hint();
                    match a.next_element()? {
                        Some(x) => {
                            if hint == Some(0) {
                                return Err(de::Error::custom("an element where none was announced"));
                            }
                            out.push(x);
                        }
                        None => {
                            if hint.map_or(false, |n| n > 0) {
                                return Err(de::Error::custom("no element where some were announced"));
                            }
                            return Ok(Hinted(out));
                        }
                    }
                }
            }
        );
        d.deserialize_seq(V)
    }
}

// ---- serde attributes of reading and writing apart ----

#[derive(serde::Serialize, serde::Deserialize, PartialEq)]
#[serde(bound(serialize = "T: Serialize + Clone", deserialize = "T: Deserialize<'de> + Default"))]
struct Bounded<T> {
    #[serde(with = "plus_one")]
    n: u32,
    #[serde(default)]
    opt: Option<T>,
    #[serde(serialize_with = "text_of", deserialize_with = "of_text")]
    t: u16,
}

mod plus_one {
    use serde::*;
    pub fn serialize<S: Serializer>(x: &u32, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(x.wrapping_add(1))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u32, D::Error> {
        Ok(u32::deserialize(d)?.wrapping_sub(1))
    }
}

fn text_of<S: Serializer>(x: &u16, s: S) -> Result<S::Ok, S::Error> {
    s.collect_str(&format_args!("{:x}", x))
}

fn of_text<'de, D: Deserializer<'de>>(d: D) -> Result<u16, D::Error> {
    let s = String::deserialize(d)?;
    u16::from_str_radix(&s, 16).map_err(de::Error::custom)
}

pub(super) const BY_HAND: &[(&str, fn(&mut Trip) -> R)] = &[
    ("struct by hand", |t| {
        t.eq(&schema!(struct { (secs: u64), (nanos: u32) }), |r| {
            let (a, b) = (r.num(64) as u64, n32(r));
            (Span { secs: a, nanos: b }, st(vec![("secs", b64(a)), ("nanos", b32(b))]))
        })
    }),
    ("option by hand", |t| {
        t.eq(&schema!(seq(varlen)(option(option(u8)))), |r| {
            vec_of(r, |r| {
                let (x, v) = opt_of(r, |r| {
                    let (x, v) = opt_of(r, byte);
                    (Maybe(x), v)
                });
                (Maybe(x), v)
            })
        })
    }),
    ("units and newtypes by hand", |t| {
        t.eq(&schema!(tuple { (unit), (u32), (tuple { (u8), (u8), (u8) }), (unit) }), |r| {
            let (a, c) = (n32(r), (r.u64() as u8, r.u64() as u8, r.u64() as u8));
            (
                (Mark, Metres(a), Rgb(c.0, c.1, c.2), Mark),
                Value::Tuple(vec![Value::Unit, b32(a), Value::Tuple(vec![b8(c.0), b8(c.1), b8(c.2)]), Value::Unit]),
            )
        })
    }),
    ("leaves by hand", |t| {
        use binschema::value::ScalarValue as V;
        t.by(
            &schema!(tuple { (bool), (char), (f32), (f64), (str), (str), (bytes), (bytes) }),
            |x: &(OnlyBool, OnlyChar, OnlyF32, OnlyF64, OnlyStr, OnlyString, OnlyBytes, OnlyBuf)| {
                let f = (x.2 .0.to_bits(), x.3 .0.to_bits());
                (x.0 .0, x.1 .0, f, x.4 .0.clone(), x.5 .0.clone(), x.6 .0.clone(), x.7 .0.clone())
            },
            |r| {
                let (a, b, c, d) = (r.chance(1, 2), r.ch(), f32::from_bits(r.u64() as u32), f64::from_bits(r.u64()));
                let (e, f, g, h) = (text(r), text(r), r.bytes(40), r.bytes(200));
                let v = Value::Tuple(vec![
                    bool_(a),
                    Value::Scalar(V::Char(b)),
                    Value::Scalar(V::F32(c)),
                    Value::Scalar(V::F64(d)),
                    e.1,
                    f.1,
                    Value::Bytes(g.clone()),
                    Value::Bytes(h.clone()),
                ]);
                ((OnlyBool(a), OnlyChar(b), OnlyF32(c), OnlyF64(d), OnlyStr(e.0), OnlyString(f.0), OnlyBytes(g), OnlyBuf(h)), v)
            },
        )
    }),
    ("enum by hand", |t| {
        let sc = schema!(seq(varlen)(enum {
            Nop(unit), Push(u32), Move(tuple { (u8), (u8) }), Call(struct { (name: str), (far: bool) })
        }));
        t.eq(&sc, |r| {
            vec_of(r, |r| {
                let (a, b) = (r.u64() as u8, r.u64() as u8);
                match r.below(4) {
                    0 => (Op::Nop, v_enum(0, "Nop", Value::Unit)),
                    1 => {
                        let x = n32(r);
                        (Op::Push(x), v_enum(1, "Push", b32(x)))
                    }
                    2 => (Op::Move(a, b), v_enum(2, "Move", Value::Tuple(vec![b8(a), b8(b)]))),
                    _ => {
                        let (x, v) = text(r);
                        (Op::Call { name: x, far: a > b }, v_enum(3, "Call", st(vec![("name", v), ("far", bool_(a > b))])))
                    }
                }
            })
        })
    }),
    ("map by hand", |t| {
        t.eq(&schema!(tuple { (seq(varlen)(tuple { (str), (u32) })), (u8) }), |r| {
            let m: BTreeMap<String, u32> = (0..r.below(7)).map(|_| (r.string(4), n32(r))).collect();
            let v = m.iter().map(|(k, v)| Value::Tuple(vec![s(k), b32(*v)])).collect();
            let n = r.u64() as u8;
            ((Bag(m, 0), n), Value::Tuple(vec![Value::VarLenSeq(v), b8(n)]))
        })
    }),
    ("seeds by hand", |t| {
        t.eq(&schema!(tuple { (seq(varlen)(seq(varlen)(u32))), (bool) }), |r| {
            let lens: Vec<usize> = (0..r.below(5)).map(|_| r.below(4)).collect();
            let all: Vec<u32> = (0..lens.iter().sum()).map(|_| n32(r)).collect();
            let mut at = 0;
            let v = lens
                .iter()
                .map(|n| {
                    at += n;
                    Value::VarLenSeq(all[at - n..at].iter().map(|x| b32(*x)).collect())
                })
                .collect();
            ((Rows(all, lens), true), Value::Tuple(vec![Value::VarLenSeq(v), bool_(true)]))
        })
    }),
    ("size hints", |t| {
        t.eq(&schema!(tuple { (seq(varlen)(u16)), (seq(3)(u16)) }), |r| {
            let (a, b) = vec_of(r, |r| {
                let x = r.u64() as u16;
                (x, b16(x))
            });
            let c = vec![1, 2, r.u64() as u16];
            let d = Value::FixedLenSeq(c.iter().map(|x| b16(*x)).collect());
            ((Hinted(a), Hinted(c)), Value::Tuple(vec![b, d]))
        })
    }),
    ("written and read apart", |t| {
        let sc = schema!(struct { (n: u32), (opt: option(str)), (t: str) });
        let key = |x: &Bounded<String>| (x.n, x.opt.clone(), x.t);
        t.by(&sc, key, |r| {
            let (n, w, k) = (n32(r), opt_of(r, text), r.u64() as u16);
            let v = st(vec![("n", b32(n.wrapping_add(1))), ("opt", w.1), ("t", s(&format!("{:x}", k)))]);
            (Bounded { n, opt: w.0, t: k }, v)
        })
    }),
];
