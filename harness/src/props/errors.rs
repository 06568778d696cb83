//! C27: errors keep their kind and cause, and the user's own errors pass
//! through. C29: a message may be coded in pieces and by different means.

use crate::{api::*, check, dyns::*, gen, io::*, model::*, rng::Rng, run::*, session::*};
use binschema::{
    error::{Error, ErrorKind},
    value::{ScalarValue, Value},
    CoderState, CoderStateAlloc, Decoder, Encoder, ScalarType, Schema,
};
use serde::{
    de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor},
    ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, Serializer},
    Deserialize, Serialize,
};
use std::{
    cell::Cell,
    fmt::{self, Display},
    io::Write,
};

// ---- a user's type whose code fails at some point ----

/// Where the user's code gives up.
struct Trap {
    /// nodes still to be passed
    left: Cell<i64>,
    /// None: on entering the node, Some(j): after j of its parts
    mid: Option<usize>,
    how: usize,
    msg: String,
    hit: Cell<bool>,
}

impl Trap {
    /// Whether this node is the one.
    fn here(&self) -> bool {
        let n = self.left.get();
        self.left.set(n - 1);
        n == 0
    }
    fn ser<E: ser::Error>(&self) -> E {
        self.hit.set(true);
        E::custom(&self.msg)
    }
    fn de<E: de::Error>(&self) -> E {
        self.hit.set(true);
        de_error(self.how, &self.msg)
    }
}

fn de_error<E: de::Error>(how: usize, msg: &str) -> E {
    match how {
        0 => E::missing_field("fehlt"),
        1 => E::duplicate_field("doppelt"),
        2 => E::unknown_variant(msg, &["a", "b"]),
        3 => E::unknown_field(msg, &[]),
        4 => E::invalid_length(17, &msg),
        5 => E::invalid_value(de::Unexpected::Str(msg), &"something else"),
        6 => E::invalid_type(de::Unexpected::Map, &msg),
        _ => E::custom(msg),
    }
}

fn pairs(v: &[Value]) -> bool {
    !v.is_empty() && v.iter().all(|x| matches!(x, Value::Tuple(p) if p.len() == 2))
}

/// Number of parts a node has for the trap.
fn kids(v: &Value, maps: bool) -> Vec<&Value> {
    match v {
        Value::Option(Some(x)) => vec![x],
        Value::VarLenSeq(x) if maps && pairs(x) => x
            .iter()
            .flat_map(|y| match y {
                Value::Tuple(p) => p.iter(),
                _ => unreachable!(),
            })
            .collect(),
        Value::FixedLenSeq(x) | Value::VarLenSeq(x) | Value::Tuple(x) => x.iter().collect(),
        Value::Struct(x) => x.iter().map(|f| &f.value).collect(),
        Value::Enum(e) => vec![&e.value],
        _ => vec![],
    }
}

fn nodes<'v>(v: &'v Value, maps: bool, out: &mut Vec<&'v Value>) {
    out.push(v);
    for k in kids(v, maps) {
        nodes(k, maps, out);
    }
}

/// Counts the calls made until the trap. True: it was met.
fn calls_until(v: &Value, maps: bool, dec: bool, left: &mut i64, mid: Option<usize>, n: &mut usize) -> bool {
    let here = *left == 0;
    *left -= 1;
    if here && mid.is_none() {
        return true;
    }
    let stop = |j: usize| here && mid == Some(j);
    let k = kids(v, maps);
    match v {
        Value::Enum(_) => {
            *n += if dec { 2 } else { 1 };
            if stop(0) || calls_until(k[0], maps, dec, left, mid, n) {
                return true;
            }
            stop(1)
        }
        Value::Option(Some(_)) => {
            *n += 1;
            if stop(0) || calls_until(k[0], maps, dec, left, mid, n) {
                return true;
            }
            stop(1)
        }
        Value::FixedLenSeq(_) | Value::VarLenSeq(_) | Value::Tuple(_) | Value::Struct(_) => {
            *n += 1;
            let map = maps && matches!(v, Value::VarLenSeq(x) if pairs(x));
            for (j, x) in k.iter().enumerate() {
                if stop(j) {
                    return true;
                }
                *n += if map && j % 2 == 0 { 3 } else { 1 };
                if calls_until(x, maps, dec, left, mid, n) {
                    return true;
                }
                // (a decoder closes the pair along with its value)
                if map && j % 2 == 1 {
                    *n += 1;
                }
            }
            // (a decoder closes the container along with its last part)
            if dec {
                *n += 1;
            }
            if stop(k.len()) {
                return true;
            }
            if !dec {
                *n += 1;
            }
            stop(k.len() + 1)
        }
        _ => {
            *n += 1;
            stop(0)
        }
    }
}

/// Value of a user's type.
struct Tv<'a> {
    v: &'a Value,
    maps: bool,
    trap: &'a Trap,
}

impl<'a> Tv<'a> {
    fn of<'b>(&'b self, v: &'b Value) -> Tv<'b> {
        Tv { v, maps: self.maps, trap: self.trap }
    }
}

impl<'a> Serialize for Tv<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ScalarValue as V;
        let t = self.trap;
        let here = t.here();
        if here && t.mid.is_none() {
            return Err(t.ser());
        }
        let stop = |j: usize| here && t.mid == Some(j);
        // where to give up once all has been written
        let mut last = 0;
        let ok = match self.v {
            Value::Scalar(x) => match *x {
                V::U8(x) => s.serialize_u8(x),
                V::U16(x) => s.serialize_u16(x),
                V::U32(x) => s.serialize_u32(x),
                V::U64(x) => s.serialize_u64(x),
                V::U128(x) => s.serialize_u128(x),
                V::I8(x) => s.serialize_i8(x),
                V::I16(x) => s.serialize_i16(x),
                V::I32(x) => s.serialize_i32(x),
                V::I64(x) => s.serialize_i64(x),
                V::I128(x) => s.serialize_i128(x),
                V::F32(x) => s.serialize_f32(x),
                V::F64(x) => s.serialize_f64(x),
                V::Char(x) => s.serialize_char(x),
                V::Bool(x) => s.serialize_bool(x),
            },
            Value::Str(x) => s.serialize_str(x),
            Value::Bytes(x) => s.serialize_bytes(x),
            Value::Unit => s.serialize_unit(),
            Value::Option(None) => s.serialize_none(),
            Value::Option(Some(x)) => {
                last = 1;
                if stop(0) {
                    return s.serialize_some(&Bomb(t));
                }
                s.serialize_some(&self.of(x))
            }
            Value::VarLenSeq(x) if self.maps && pairs(x) => {
                let k = kids(self.v, true);
                last = k.len() + 1;
                let mut m = s.serialize_map(Some(x.len()))?;
                for (j, y) in k.iter().enumerate() {
                    if stop(j) {
                        return Err(t.ser());
                    }
                    if j % 2 == 0 {
                        m.serialize_key(&self.of(y))?;
                    } else {
                        m.serialize_value(&self.of(y))?;
                    }
                }
                if stop(k.len()) {
                    return Err(t.ser());
                }
                m.end()
            }
            Value::VarLenSeq(x) | Value::FixedLenSeq(x) => {
                last = x.len() + 1;
                let mut m = s.serialize_seq(Some(x.len()))?;
                for (j, y) in x.iter().enumerate() {
                    if stop(j) {
                        return Err(t.ser());
                    }
                    m.serialize_element(&self.of(y))?;
                }
                if stop(x.len()) {
                    return Err(t.ser());
                }
                m.end()
            }
            Value::Tuple(x) => {
                last = x.len() + 1;
                let mut m = s.serialize_tuple(x.len())?;
                for (j, y) in x.iter().enumerate() {
                    if stop(j) {
                        return Err(t.ser());
                    }
                    m.serialize_element(&self.of(y))?;
                }
                if stop(x.len()) {
                    return Err(t.ser());
                }
                m.end()
            }
            Value::Struct(x) => {
                last = x.len() + 1;
                let mut m = s.serialize_struct("S", x.len())?;
                for (j, y) in x.iter().enumerate() {
                    if stop(j) {
                        return Err(t.ser());
                    }
                    m.serialize_field(intern(&y.name), &self.of(&y.value))?;
                }
                if stop(x.len()) {
                    return Err(t.ser());
                }
                m.end()
            }
            Value::Enum(e) => {
                last = 1;
                let (i, n) = (e.variant_ord as u32, intern(&e.variant_name));
                if stop(0) {
                    return s.serialize_newtype_variant("E", i, n, &Bomb(t));
                }
                s.serialize_newtype_variant("E", i, n, &self.of(&e.value))
            }
        }?;
        if stop(last) {
            return Err(t.ser());
        }
        Ok(ok)
    }
}

/// Fails at once.
struct Bomb<'a>(&'a Trap);

impl<'a> Serialize for Bomb<'a> {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(self.0.ser())
    }
}

impl<'a, 'd> DeserializeSeed<'d> for Tv<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<(), D::Error> {
        use ScalarType as T;
        let here = self.trap.here();
        if here && self.trap.mid.is_none() {
            return Err(self.trap.de());
        }
        let v = TvVis { tv: &self, here };
        match self.v {
            Value::Scalar(x) => match scalar_type(x) {
                T::U8 => d.deserialize_u8(v),
                T::U16 => d.deserialize_u16(v),
                T::U32 => d.deserialize_u32(v),
                T::U64 => d.deserialize_u64(v),
                T::U128 => d.deserialize_u128(v),
                T::I8 => d.deserialize_i8(v),
                T::I16 => d.deserialize_i16(v),
                T::I32 => d.deserialize_i32(v),
                T::I64 => d.deserialize_i64(v),
                T::I128 => d.deserialize_i128(v),
                T::F32 => d.deserialize_f32(v),
                T::F64 => d.deserialize_f64(v),
                T::Char => d.deserialize_char(v),
                T::Bool => d.deserialize_bool(v),
            },
            Value::Str(_) => d.deserialize_string(v),
            Value::Bytes(_) => d.deserialize_byte_buf(v),
            Value::Unit => d.deserialize_unit(v),
            Value::Option(_) => d.deserialize_option(v),
            Value::VarLenSeq(x) if self.maps && pairs(x) => d.deserialize_map(v),
            Value::VarLenSeq(_) | Value::FixedLenSeq(_) => d.deserialize_seq(v),
            Value::Tuple(x) => d.deserialize_tuple(x.len(), v),
            Value::Struct(x) => {
                let names: Vec<String> = x.iter().map(|f| f.name.clone()).collect();
                d.deserialize_struct("S", intern_list(&names), v)
            }
            Value::Enum(e) => {
                let mut names: Vec<String> = (0..e.variant_ord).map(|i| i.to_string()).collect();
                names.push(e.variant_name.clone());
                d.deserialize_enum("E", intern_list(&names), v)
            }
        }
    }
}

struct TvVis<'a, 'b> {
    tv: &'b Tv<'a>,
    here: bool,
}

impl<'a, 'b> TvVis<'a, 'b> {
    fn stop<E: de::Error>(&self, j: usize) -> Result<(), E> {
        if self.here && self.tv.trap.mid == Some(j) {
            return Err(self.tv.trap.de());
        }
        Ok(())
    }
}

macro_rules! leaves {
    ($($m:ident $t:ty;)*) => {$(
        fn $m<E: de::Error>(self, _: $t) -> Result<(), E> {
            self.stop(0)
        }
    )*};
}

struct Name;

impl<'d> DeserializeSeed<'d> for Name {
    type Value = ();
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<(), D::Error> {
        IgnoredAny::deserialize(d).map(|_| ())
    }
}

impl<'a, 'b, 'd> Visitor<'d> for TvVis<'a, 'b> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a part")
    }
    leaves! {
        visit_bool bool; visit_i8 i8; visit_i16 i16; visit_i32 i32; visit_i64 i64; visit_i128 i128;
        visit_u8 u8; visit_u16 u16; visit_u32 u32; visit_u64 u64; visit_u128 u128; visit_f32 f32; visit_f64 f64;
        visit_char char; visit_str &str; visit_bytes &[u8];
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.stop(0)
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.stop(0)
    }
    fn visit_some<D: Deserializer<'d>>(self, d: D) -> Result<(), D::Error> {
        self.stop(0)?;
        self.tv.of(kids(self.tv.v, false)[0]).deserialize(d)?;
        self.stop(1)
    }
    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<(), A::Error> {
        let k = kids(self.tv.v, false);
        for (j, x) in k.iter().enumerate() {
            self.stop(j)?;
            if a.next_element_seed(self.tv.of(x))?.is_none() {
                return Err(de::Error::custom("monitor: too few elements"));
            }
        }
        self.stop(k.len())
    }
    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<(), A::Error> {
        let k = kids(self.tv.v, true);
        let st = matches!(self.tv.v, Value::Struct(_));
        for (j, x) in k.iter().enumerate() {
            self.stop(j)?;
            if st {
                a.next_key_seed(Name)?;
                a.next_value_seed(self.tv.of(x))?;
            } else if j % 2 == 0 {
                a.next_key_seed(self.tv.of(x))?;
            } else {
                a.next_value_seed(self.tv.of(x))?;
            }
        }
        self.stop(k.len())
    }
    fn visit_enum<A: EnumAccess<'d>>(self, a: A) -> Result<(), A::Error> {
        self.stop(0)?;
        let ((), va) = a.variant_seed(Name)?;
        va.newtype_variant_seed(self.tv.of(kids(self.tv.v, false)[0]))?;
        self.stop(1)
    }
}

const LONG: [u8; 5000] = [b'x'; 5000];
/// Too long for any buffer of a fixed size one might put a message into.
const LONG_TEXT: &str = match std::str::from_utf8(&LONG) {
    Ok(t) => t,
    Err(_) => "",
};

const TEXTS: &[&str] = &[
    LONG_TEXT,
    "boom", "", "two\nlines", "{} {0} {x} %s", "nul \0 and \u{7f}", "größer als möglich 😀", "API usage error", "IO error, pipe",
    "a b\tc ",
];

fn faithful(e: &Error, want: Option<(ErrorKind, &str)>) -> R {
    let shown = e.to_string();
    let cause = e.inner().to_string();
    let src = std::error::Error::source(e).map(|s| s.to_string());
    if let Some((k, m)) = want {
        check!(
            e.kind() == k && cause.contains(m),
            "user-error",
            "an error with the text {:?} of kind {:?} came out with kind {:?} and cause {:?}",
            m,
            k,
            e.kind(),
            cause
        );
    }
    check!(
        shown.contains(&e.kind().to_string()) && shown.contains(&cause),
        "error-text",
        "the text shown, {:?}, lacks the kind ({}) or the cause ({:?})",
        shown,
        e.kind(),
        cause
    );
    check!(src.as_deref() == Some(&cause), "error-source", "source() is {:?}, the cause is {:?}", src, cause);
    check!(!format!("{:?}", e).is_empty(), "error-debug", "no debug text for {}", shown);
    Ok(())
}

/// Every error the coders themselves report.
fn reported(e: Error, cx: &mut Cx, what: &str) -> R {
    check!(
        e.kind() != ErrorKind::Other,
        "other",
        "{} reported an error of kind Other: {}",
        what,
        e
    );
    faithful(&e, None)?;
    cx.count(
        match e.kind() {
            ErrorKind::Io => "errors seen: I/O",
            ErrorKind::MalformedData => "errors seen: malformed data",
            ErrorKind::SchemaNonConformance => "errors seen: schema non-conformance",
            ErrorKind::PlatformLimits => "errors seen: platform limits",
            ErrorKind::IllegalSchema => "errors seen: illegal schema",
            ErrorKind::ApiUsage => "errors seen: API usage",
            ErrorKind::Other => "errors seen: other",
        },
        1,
    );
    let cause = e.inner().to_string();
    let mut e = e;
    let m = e.inner_mut().to_string();
    let i = e.into_inner().to_string();
    check!(m == cause && i == cause, "error-inner", "inner_mut {:?}, into_inner {:?}, inner {:?}", m, i, cause);
    Ok(())
}

fn trapped(cx: &mut Cx, dec: bool) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    if vcount(&v) > 400 {
        return Err(Fail::Skip("large value"));
    }
    // structs whose fields have equal names cannot be told apart by name, but
    // nothing here looks at names
    let maps = cx.rng.chance(1, 2);
    let mut all = vec![];
    nodes(&v, maps, &mut all);
    let k = cx.rng.below(all.len());
    let parts = kids(all[k], maps).len();
    let leaf = parts == 0 && !matches!(all[k], Value::FixedLenSeq(_) | Value::VarLenSeq(_) | Value::Tuple(_) | Value::Struct(_));
    let mid = if cx.rng.chance(1, 2) {
        None
    } else if leaf {
        Some(0)
    } else {
        let whole = !dec && !matches!(all[k], Value::Option(_) | Value::Enum(_));
        Some(cx.rng.below(parts + 1 + whole as usize))
    };
    let text = if cx.rng.chance(1, 20) { cx.rng.string_of_len(300) } else { cx.rng.pick(TEXTS).to_string() };
    let trap = Trap { left: Cell::new(k as i64), mid, how: cx.rng.below(16), msg: text.clone(), hit: Cell::new(false) };
    let (mut left, mut n) = (k as i64, 0);
    let met = calls_until(&v, maps, dec, &mut left, mid, &mut n);
    assert!(met, "trap not met");
    let want = if dec { de_error::<de::value::Error>(trap.how, &text).to_string() } else { text.clone() };
    let plan = plan_value(if dec { Dir::Dec } else { Dir::Enc }, &t, &v, &b);
    let at = if n == 0 { 0 } else { plan.steps[n - 1].at.unwrap() };
    let tv = Tv { v: &v, maps, trap: &trap };
    let what = format!("{} with an error at part {} ({:?}) of {}; schema {}", if dec { "deserializing" } else { "serializing" }, k, mid, vshow(&v), outline(&s));
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = W::new();
    let mut rd = Rd::new(&b);
    let r = if dec {
        lib("deserialize", || tv.deserialize(&mut Decoder::new(&mut st, &mut rd)))?
    } else {
        lib("serialize", || tv.serialize(&mut Encoder::new(&mut st, &mut w)))?
    };
    check!(trap.hit.get(), "before-user-error", "{}: {:?} before the user's code failed", what, r.err().map(|e| e.to_string()));
    match r {
        Ok(()) => return violation("user-error-lost", format!("{}: succeeded", what)),
        Err(e) => faithful(&e, Some((ErrorKind::Other, &want)))?,
    }
    let pos = if dec { rd.pos } else { w.out.len() };
    check!(
        pos == at && (dec || w.out == b[..at]),
        "bytes-at-user-error",
        "{}: {} bytes coded, {} expected; written {}",
        what,
        pos,
        at,
        bshow(&w.out)
    );
    let rest = &plan.steps[n..];
    check!(
        st.is_finished() == rest.is_empty(),
        "finished-at-user-error",
        "{}: is_finished() = {} with {} calls to go",
        what,
        st.is_finished(),
        rest.len()
    );
    // the user goes on by calls
    for (i, step) in rest.iter().enumerate() {
        let d = if dec {
            lib("call", || did(dec_op(&mut st, &mut rd, &step.op)))?
        } else {
            lib("call", || did(enc_op(&mut st, &mut w, &step.op).map(|_| Got::Nothing)))?
        };
        judge(&plan, n + i, &d, ALL, &s).map_err(|f| match f {
            Fail::Violation { sig, detail } => {
                Fail::Violation { sig: format!("after-user-error:{}", sig), detail: format!("{}; then {}", what, detail) }
            }
            x => x,
        })?;
    }
    check!(
        st.is_finished() && if dec { rd.pos == b.len() } else { w.out == b },
        "end-after-user-error",
        "{}: finished {}, written {}, read {} of {}",
        what,
        st.is_finished(),
        bshow(&w.out),
        rd.pos,
        b.len()
    );
    cx.count(if dec { "errors raised while deserializing" } else { "errors raised while serializing" }, 1);
    cx.count("calls made after a user's error", rest.len() as u64);
    cx.sample(|| what.clone());
    if all.len() > 1 {
        cx.nontrivial((format!("{:?}", s), &b, k, mid, dec));
    }
    Ok(())
}

/// Errors of sessions with refused calls, faults and malformed data.
fn sessions(cx: &mut Cx) -> R {
    let mut g = cfg(&mut cx.rng);
    let bold = cx.rng.chance(1, 3);
    let dec = cx.rng.chance(1, 2);
    let (s, t) = if bold {
        g.illegal = true;
        let s = gen::any_schema(&mut cx.rng, g);
        let t = Tree::new(&s);
        (s, t)
    } else {
        gen::good_schema(&mut cx.rng, g)
    };
    if t.has_zero_byte_cycle() {
        return Err(Fail::Skip("values of endless depth"));
    }
    let pc = PlanCfg { doubt: *cx.rng.pick(&[20, 50, 80]), after: 2, max_steps: 30, bold, ..PlanCfg::default() };
    let fail_at = if cx.rng.chance(1, 3) { Some(cx.rng.below(12)) } else { None };
    let kind = *cx.rng.pick(FAULT_KINDS);
    let p = if dec {
        let n = cx.rng.below(60);
        let mut b: Vec<u8> = (0..n).map(|_| *cx.rng.pick(&[0u8, 1, 2, 3, 5, 0x80, 0xff, 0x41])).collect();
        if !bold && cx.rng.chance(1, 2) {
            let cost = t.min_cost();
            if cost[0] < INF {
                let v = gen::value(&mut cx.rng, &t, 20);
                if let Some(x) = enc(&t, &v) {
                    b = gen::mutate(&mut cx.rng, &x);
                }
            }
        }
        plan_dec(&mut cx.rng, &t, &b, pc)
    } else {
        plan_enc(&mut cx.rng, &t, pc)
    };
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = W::new();
    w.fail_at = fail_at;
    w.fail_kind = kind;
    let data = p.bytes.clone();
    let mut rd = Rd::new(&data);
    rd.fail_at = fail_at;
    rd.fail_kind = kind;
    let mut n = 0;
    for step in &p.steps {
        let r = if dec {
            lib(step.op.tag(), || dec_op(&mut st, &mut rd, &step.op).map(|_| ()))?
        } else {
            lib(step.op.tag(), || enc_op(&mut st, &mut w, &step.op))?
        };
        if let Err(e) = r {
            n += 1;
            reported(e, cx, step.op.tag())?;
        }
        if let Err(e) = lib("is_finished_or_err", || st.is_finished_or_err())? {
            reported(e, cx, "is_finished_or_err")?;
        }
        let need = lib("need", || Encoder::new(&mut st, &mut std::io::sink()).need().map(|_| ()))?;
        if let Err(e) = need {
            reported(e, cx, "need")?;
        }
    }
    if n > 0 {
        cx.nontrivial((format!("{:?}", s), format!("{:?}", p.steps), fail_at));
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
struct Own {
    n: u32,
    text: String,
}

impl Display for Own {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "own {} {}", self.n, self.text)
    }
}

impl std::error::Error for Own {}

/// Errors made by the user.
fn made(cx: &mut Cx) -> R {
    fn shared<T: Send + Sync + 'static + std::error::Error>(_: &T) {}
    let own = Own { n: cx.rng.u64() as u32, text: cx.rng.pick(TEXTS).to_string() };
    let kind = *cx.rng.pick(&[
        ErrorKind::Io,
        ErrorKind::MalformedData,
        ErrorKind::SchemaNonConformance,
        ErrorKind::PlatformLimits,
        ErrorKind::IllegalSchema,
        ErrorKind::ApiUsage,
        ErrorKind::Other,
    ]);
    let g = cfg(&mut cx.rng);
    let (s, t) = gen::good_schema(&mut cx.rng, g);
    let st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let (mut e, want) = match cx.rng.below(5) {
        0 => (lib("other", || Error::other(own.clone()))?, ErrorKind::Other),
        1 => (lib("new", || Error::new(kind, own.clone(), None))?, kind),
        2 => (lib("new", || Error::new(kind, Box::new(own.clone()) as Box<dyn std::error::Error + Send + Sync>, Some(&st)))?, kind),
        3 => {
            let io = std::io::Error::new(*cx.rng.pick(FAULT_KINDS), own.clone());
            let k = io.kind();
            let e: Error = lib("from", || io.into())?;
            let got = e.inner().downcast_ref::<std::io::Error>();
            check!(
                e.kind() == ErrorKind::Io
                    && got.map(|x| x.kind()) == Some(k)
                    && got.and_then(|x| x.get_ref()).and_then(|x| x.downcast_ref::<Own>()) == Some(&own),
                "io-error",
                "an I/O error of kind {:?} became {:?}",
                k,
                e
            );
            faithful(&e, None)?;
            cx.count("errors made by the user", 1);
            return Ok(());
        }
        _ => {
            let e = lib("new", || Error::new(kind, own.text.as_str(), Some(&st)))?;
            faithful(&e, Some((kind, &own.text)))?;
            cx.count("errors made by the user", 1);
            return Ok(());
        }
    };
    shared(&e);
    faithful(&e, Some((want, &own.to_string())))?;
    check!(e.inner().downcast_ref::<Own>() == Some(&own), "error-inner", "inner() of {:?} is not {:?}", e, own);
    let new = Own { n: own.n.wrapping_add(1), text: "changed".into() };
    match e.inner_mut().downcast_mut::<Own>() {
        Some(x) => *x = new.clone(),
        None => return violation("error-inner", format!("inner_mut() of {:?} is not {:?}", e, own)),
    }
    faithful(&e, Some((want, &new.to_string())))?;
    check!(e.into_inner().downcast::<Own>().ok().as_deref() == Some(&new), "error-inner", "into_inner() is not {:?}", new);
    let _ = t;
    cx.count("errors made by the user", 1);
    Ok(())
}

fn c27_case(cx: &mut Cx) -> R {
    match cx.rng.below(8) {
        0..=2 => trapped(cx, false),
        3..=5 => trapped(cx, true),
        6 => sessions(cx),
        _ => {
            if cx.rng.chance(1, 4) {
                made(cx)
            } else {
                sessions(cx)
            }
        }
    }
}

/// The texts of the kinds differ.
fn c27_kinds(cx: &mut Cx) -> R {
    use ErrorKind::*;
    let k = [Io, MalformedData, SchemaNonConformance, PlatformLimits, IllegalSchema, ApiUsage, Other];
    for (i, a) in k.iter().enumerate() {
        for b in &k[..i] {
            check!(a.to_string() != b.to_string() && a != b, "kind-text", "{:?} and {:?} both read {:?}", a, b, a.to_string());
        }
        check!(!a.to_string().is_empty(), "kind-text", "{:?} has no text", a);
    }
    cx.count("kinds compared", k.len() as u64);
    Ok(())
}

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        quick: 2_500_000,
        thorough: 80_000_000,
        directed: vec![("the kinds of error", c27_kinds)],
        case: c27_case,
        rule: "user types that fail at a chosen point while being serialized or deserialized, the rest of the message then coded \
               by calls; every error of random sessions with refused calls, faults, malformed data and illegal schemas; errors \
               made by the user. Non-trivial: the value has more than one part, or the session an error; distinct by schema, \
               bytes and place",
    }
}

// ---- C29 ----

/// A part of the message, coded by one means.
enum Piece<'v> {
    Call(Op, Got),
    Whole(usize, &'v Value),
}

fn pieces<'v>(r: &mut Rng, t: &Tree, id: usize, v: &'v Value, dec: bool, out: &mut Vec<Piece<'v>>) {
    let id = t.resolve(id).expect("legal");
    if r.chance(1, 4) {
        out.push(Piece::Whole(id, v));
        return;
    }
    let n = Got::Nothing;
    let mut call = |op: Op, got: Got| out.push(Piece::Call(op, got));
    match (t.kind(id), v) {
        (Kind::Option(i), Value::Option(Some(x))) => {
            if dec {
                call(Op::Option, Got::Opt(true));
            } else {
                call(Op::Some, n);
            }
            pieces(r, t, *i, x, dec, out);
        }
        (Kind::Seq(len, i), Value::FixedLenSeq(x)) | (Kind::Seq(len, i), Value::VarLenSeq(x)) => {
            match (len, dec) {
                (Some(l), _) => call(Op::FixedSeq(*l), n),
                (None, true) => call(Op::VarSeq(0), Got::Len(x.len())),
                (None, false) => call(Op::VarSeq(x.len()), n),
            }
            for y in x {
                out.push(Piece::Call(Op::SeqElem, Got::Nothing));
                pieces(r, t, *i, y, dec, out);
            }
            out.push(Piece::Call(Op::FinSeq, Got::Nothing));
        }
        (Kind::Tuple(is), Value::Tuple(x)) => {
            call(Op::Tuple, n);
            for (i, y) in is.iter().zip(x) {
                out.push(Piece::Call(Op::TupleElem, Got::Nothing));
                pieces(r, t, *i, y, dec, out);
            }
            out.push(Piece::Call(Op::FinTuple, Got::Nothing));
        }
        (Kind::Struct(fs), Value::Struct(x)) => {
            call(Op::Struct, n);
            for (f, y) in fs.iter().zip(x) {
                out.push(Piece::Call(Op::Field(f.0.clone()), Got::Nothing));
                pieces(r, t, f.1, &y.value, dec, out);
            }
            out.push(Piece::Call(Op::FinStruct, Got::Nothing));
        }
        (Kind::Enum(vars), Value::Enum(x)) => {
            if dec {
                call(Op::EnumOrd, Got::Ord(x.variant_ord));
                call(Op::EnumName(x.variant_name.clone()), n);
            } else {
                call(Op::Enum(x.variant_ord, x.variant_name.clone()), n);
            }
            pieces(r, t, vars[x.variant_ord].1, &x.value, dec, out);
        }
        _ if dec => {
            let mut ops = vec![];
            dec_script(v, &mut ops);
            out.extend(ops.into_iter().map(|(o, g)| Piece::Call(o, g)));
        }
        _ => {
            let mut ops = vec![];
            enc_script(v, &mut ops);
            out.extend(ops.into_iter().map(|o| Piece::Call(o, Got::Nothing)));
        }
    }
}

/// Writers of several types.
enum Out {
    Plain(Vec<u8>),
    Own(W),
    Cursor(std::io::Cursor<Vec<u8>>),
    Buf(std::io::BufWriter<Vec<u8>>),
    Dynamic(Box<dyn Write>, std::rc::Rc<std::cell::RefCell<Vec<u8>>>),
    Fixed([u8; 64], usize),
}

struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);

impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Out {
    fn new(r: &mut Rng) -> Out {
        match r.below(6) {
            0 => Out::Plain(vec![]),
            1 => {
                let mut w = W::chunked(r);
                w.no_flush = r.chance(1, 2);
                Out::Own(w)
            }
            2 => Out::Cursor(Default::default()),
            3 => Out::Buf(std::io::BufWriter::with_capacity(r.below(8), vec![])),
            4 => {
                let x: std::rc::Rc<std::cell::RefCell<Vec<u8>>> = Default::default();
                Out::Dynamic(Box::new(Shared(x.clone())), x)
            }
            _ => Out::Fixed([0; 64], 0),
        }
    }
    fn bytes(self) -> Vec<u8> {
        match self {
            Out::Plain(v) => v,
            Out::Own(w) => w.out,
            Out::Cursor(c) => c.into_inner(),
            Out::Buf(b) => b.into_inner().unwrap(),
            Out::Dynamic(_, x) => x.borrow().clone(),
            Out::Fixed(a, n) => a[..n].to_vec(),
        }
    }
}

fn enc_piece<Wr: Write>(r: &mut Rng, e: &mut Encoder<Wr>, t: &Tree, p: &Piece) -> Result<(), Error> {
    match p {
        Piece::Call(op, _) => enc_on(e, op),
        Piece::Whole(_, v) if r.chance(1, 2) => v.encode_to(e),
        Piece::Whole(id, v) => to_ds(r, t, *id, v).serialize(e),
    }
}

fn dec_piece<Rr: std::io::Read>(r: &mut Rng, d: &mut Decoder<Rr>, t: &Tree, p: &Piece) -> Result<Result<(), String>, Error> {
    let differ = |a: String, b: String| Ok(Err(format!("{} instead of {}", a, b)));
    match p {
        Piece::Call(op, got) => {
            let g = dec_on(d, op)?;
            if g != *got {
                return differ(format!("{:?}", g), format!("{:?}", got));
            }
        }
        Piece::Whole(id, v) => match r.below(4) {
            0 => {
                let x = value_from(d)?;
                if !veq(&x, v) {
                    return differ(vshow(&x), vshow(v));
                }
            }
            1 => {
                IgnoredAny::deserialize(&mut *d)?;
            }
            2 => {
                let x = de_any(d)?;
                if !same(&x, v) {
                    return differ(format!("{:?}", x), vshow(v));
                }
            }
            _ => {
                let sh = natural(r, t, *id, v);
                let x = de_shape(d, &sh)?;
                if !same(&x, v) {
                    return differ(format!("{:?}", x), vshow(v));
                }
            }
        },
    }
    Ok(Ok(()))
}

fn c29_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    if vcount(&v) > 600 {
        return Err(Fail::Skip("large value"));
    }
    let dec = cx.rng.chance(1, 2);
    c29_one(cx, s, t, v, b, dec)
}

fn c29_large(cx: &mut Cx) -> R {
    for (s, v) in super::format::edge_cases(&mut cx.rng, false) {
        let t = Tree::new(&s);
        let deep = t.has_recurse();
        if t.nodes.len() > 3000 || vcount(&v) > if deep { 1000 } else { 70_000 } {
            continue;
        }
        let b = enc(&t, &v).expect("edge value conforms");
        for dec in [false, true] {
            c29_one(cx, s.clone(), t.clone(), v.clone(), b.clone(), dec)?;
            cx.count("large values coded in pieces", 1);
        }
    }
    Ok(())
}

fn c29_one(cx: &mut Cx, s: Schema, t: Tree, v: Value, b: Vec<u8>, dec: bool) -> R {
    let mut ps = vec![];
    pieces(&mut cx.rng, &t, 0, &v, dec, &mut ps);
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut streams = 0u64;
    let mut coders = 0u64;
    let mut i = 0;
    let at = |i: usize| format!("piece {} of {} of {}; schema {}", i, ps.len(), vshow(&v), outline(&s));
    // pieces on one coder object
    let group = |r: &mut Rng| if r.chance(1, 3) { r.range(1, ps.len()) } else { r.range(1, 3) };
    if dec {
        let mut pos = 0;
        while i < ps.len() {
            coders += 1;
            streams += 1;
            let n = group(&mut cx.rng).min(ps.len() - i);
            let rest = &b[pos..];
            let rng = &mut cx.rng;
            let how = rng.below(4);
            let mut go = || -> Result<Result<usize, String>, Error> {
                macro_rules! run {
                    ($rd:expr) => {{
                        let mut d = Decoder::new(&mut st, $rd);
                        for p in &ps[i..i + n] {
                            if let Err(x) = dec_piece(rng, &mut d, &t, p)? {
                                return Ok(Err(x));
                            }
                        }
                    }};
                }
                Ok(Ok(match how {
                    0 => {
                        let mut x = rest;
                        run!(&mut x);
                        rest.len() - x.len()
                    }
                    1 => {
                        let mut x = std::io::Cursor::new(rest);
                        run!(&mut x);
                        x.position() as usize
                    }
                    2 => {
                        let mut x = Rd::chunked(rest, rng);
                        run!(&mut x);
                        x.pos
                    }
                    _ => {
                        let mut c = std::io::Cursor::new(rest);
                        {
                            let mut x: &mut dyn std::io::Read = &mut c;
                            run!(&mut x);
                        }
                        c.position() as usize
                    }
                }))
            };
            match lib("decoding a piece", || go())? {
                Ok(Ok(n)) => pos += n,
                Ok(Err(x)) => return violation("piece-value", format!("{}: {}", at(i), x)),
                Err(e) => return violation("piece-refused", format!("{}: {}", at(i), e)),
            }
            i += n;
            check!(st.is_finished() == (i == ps.len()), "piece-finished", "{}: is_finished() = {}", at(i), st.is_finished());
        }
        check!(pos == b.len(), "piece-extent", "{} of {} bytes consumed; {}", pos, b.len(), at(i));
    } else {
        let mut got = vec![];
        while i < ps.len() {
            coders += 1;
            streams += 1;
            let n = group(&mut cx.rng).min(ps.len() - i);
            let mut out = Out::new(&mut cx.rng);
            let rng = &mut cx.rng;
            let mut small = false;
            let mut go = |out: &mut Out| -> Result<(), Error> {
                macro_rules! run {
                    ($w:expr, $m:expr) => {{
                        let mut e = Encoder::new(&mut st, $w);
                        for p in &ps[i..i + $m] {
                            enc_piece(rng, &mut e, &t, p)?;
                        }
                        Ok(())
                    }};
                }
                match out {
                    Out::Plain(x) => run!(x, n),
                    Out::Own(x) => run!(x, n),
                    Out::Cursor(x) => run!(x, n),
                    Out::Buf(x) => run!(x, n),
                    Out::Dynamic(x, _) => run!(x, n),
                    Out::Fixed(a, used) => {
                        // a slice as writer, for one small call
                        if !matches!(ps[i], Piece::Call(Op::Scalar(_), _) | Piece::Call(Op::SeqElem, _) | Piece::Call(Op::VarSeq(_), _)) {
                            let mut v = vec![];
                            let x: Result<(), Error> = run!(&mut v, n);
                            *out = Out::Plain(v);
                            return x;
                        }
                        small = true;
                        let mut left: &mut [u8] = &mut a[..];
                        let x = run!(&mut left, 1);
                        *used = 64 - left.len();
                        x
                    }
                }
            };
            if let Err(e) = lib("encoding a piece", || go(&mut out))? {
                return violation("piece-refused", format!("{}: {}", at(i), e));
            }
            got.extend(out.bytes());
            i += if small { 1 } else { n };
            check!(st.is_finished() == (i == ps.len()), "piece-finished", "{}: is_finished() = {}", at(i), st.is_finished());
        }
        check!(got == b, "piece-bytes", "written {}, documented {}; {}", bshow(&got), bshow(&b), at(i));
    }
    cx.count(if dec { "pieces decoded" } else { "pieces encoded" }, ps.len() as u64);
    cx.count("coder objects", coders);
    cx.count("streams", streams);
    cx.count("whole values among the pieces", ps.iter().filter(|p| matches!(p, Piece::Whole(..))).count() as u64);
    cx.sample(|| format!("{} pieces on {} coders: {}", ps.len(), coders, vshow(&v)));
    if ps.len() > 1 {
        cx.nontrivial((format!("{:?}", s), &b, ps.len(), coders, dec));
    }
    Ok(())
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        quick: 8_000_000,
        thorough: 320_000_000,
        directed: vec![("large values", c29_large)],
        case: c29_case,
        rule: "random messages cut into pieces, each coded by calls, as a dynamic value or through serde, with new encoders, \
               decoders and streams of several types between them on one coder state; bytes, values, extent and the finished \
               report compared to the reference. Non-trivial: more than one piece; distinct by schema, bytes and cut",
    }
}

