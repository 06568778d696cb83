//! Types with declared schemas, described independently: the shape each must
//! have (a graph, so that recursion is exact), the data-model value of each
//! Rust value, and arbitrary values. Shared by the checks of std types, of
//! derived types (generated programs link this crate), and of hostile input.

use crate::{check, io::*, model::*, rng::Rng, run::*, session::*};
use binschema::{
    error::Error,
    value::{EnumValue, ScalarValue, StructValueField, Value},
    Decoder, Encoder, KnownSchema, ScalarType, Schema,
};
use serde::{de::DeserializeOwned, Serialize};
use std::{
    any::TypeId,
    borrow::Cow,
    collections::*,
    hash::Hash,
    ops::{Bound, Range, RangeInclusive},
    sync::OnceLock,
};

/// Shape of a type. Children are nodes of the graph.
#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Pending,
    Scalar(ScalarType),
    Str,
    Unit,
    Option(usize),
    Seq(Option<usize>, usize),
    Tuple(Vec<usize>),
    Struct(Vec<(&'static str, usize)>),
    Enum(Vec<(&'static str, usize)>),
}

#[derive(Default, Debug)]
pub struct Graph {
    pub nodes: Vec<Shape>,
    memo: HashMap<TypeId, usize>,
}

impl Graph {
    pub fn add(&mut self, s: Shape) -> usize {
        self.nodes.push(s);
        self.nodes.len() - 1
    }
    pub fn option_of(&mut self, f: impl FnOnce(&mut Graph) -> usize) -> usize {
        let i = f(self);
        self.add(Shape::Option(i))
    }
    /// Node of a type which has a level of its own.
    pub fn ty<T: 'static>(&mut self, f: impl FnOnce(&mut Graph) -> Shape) -> usize {
        if let Some(&i) = self.memo.get(&TypeId::of::<T>()) {
            return i;
        }
        let i = self.add(Shape::Pending);
        self.memo.insert(TypeId::of::<T>(), i);
        let s = f(self);
        self.nodes[i] = s;
        i
    }
}

/// Does the schema describe the same unfolded tree as the graph?
pub fn matches_graph(t: &Tree, g: &Graph, root: usize) -> Result<(), String> {
    let mut seen = HashSet::new();
    let mut todo = vec![(0usize, root, String::from("root"))];
    while let Some((x, y, path)) = todo.pop() {
        let rx = match t.resolve(x) {
            Some(r) => r,
            None => return Err(format!("at {}: illegal reference {:?}", path, t.kind(x))),
        };
        if !seen.insert((rx, y)) {
            continue;
        }
        let bad = || Err(format!("at {}: declared {:?}, the type is {:?}", path, t.kind(rx), g.nodes[y]));
        match (t.kind(rx), &g.nodes[y]) {
            (Kind::Scalar(a), Shape::Scalar(b)) if a == b => {}
            (Kind::Str, Shape::Str) | (Kind::Unit, Shape::Unit) => {}
            (Kind::Option(p), Shape::Option(q)) => todo.push((*p, *q, format!("{}/some", path))),
            (Kind::Seq(l, p), Shape::Seq(m, q)) if l == m => todo.push((*p, *q, format!("{}/elem", path))),
            (Kind::Tuple(p), Shape::Tuple(q)) if p.len() == q.len() => {
                for (i, (p, q)) in p.iter().zip(q).enumerate() {
                    todo.push((*p, *q, format!("{}/{}", path, i)));
                }
            }
            (Kind::Struct(p), Shape::Struct(q)) | (Kind::Enum(p), Shape::Enum(q))
                if p.iter().map(|x| x.0.as_str()).eq(q.iter().map(|x| x.0)) =>
            {
                for (p, q) in p.iter().zip(q) {
                    todo.push((p.1, q.1, format!("{}/{}", path, q.0)));
                }
            }
            _ => return bad(),
        }
    }
    Ok(())
}

pub trait Probe: KnownSchema + Serialize + Sized + 'static {
    fn node(g: &mut Graph) -> usize;
    fn arb(r: &mut Rng, size: &mut i64) -> Self;
    /// What is to be on the wire. With `canon`, unordered collections are put
    /// in a fixed order, for comparison.
    fn val(&self, canon: bool) -> Value;
}

pub fn spend(size: &mut i64) -> bool {
    *size -= 1;
    *size >= 0
}

pub fn count(r: &mut Rng, size: &mut i64, max: usize) -> usize {
    let n = if spend(size) { r.below(max + 1) } else { 0 };
    *size -= n as i64;
    n
}

macro_rules! scalars {
    ($($t:ty, $k:ident, $as:ty, |$r:ident| $arb:expr;)*) => {$(
        impl Probe for $t {
            fn node(g: &mut Graph) -> usize { g.ty::<$t>(|_| Shape::Scalar(ScalarType::$k)) }
            fn arb($r: &mut Rng, _: &mut i64) -> Self { $arb }
            fn val(&self, _: bool) -> Value { Value::Scalar(ScalarValue::$k(*self as $as)) }
        }
    )*};
}

scalars! {
    u8, U8, u8, |r| r.num(8) as u8;
    u16, U16, u16, |r| r.num(16) as u16;
    u32, U32, u32, |r| r.num(32) as u32;
    u64, U64, u64, |r| r.num(64) as u64;
    u128, U128, u128, |r| r.num(128);
    usize, U64, u64, |r| r.num(64) as usize;
    i8, I8, i8, |r| r.num(8) as i8;
    i16, I16, i16, |r| r.num(16) as i16;
    i32, I32, i32, |r| { let n = r.num(32) as i32; if r.chance(1, 2) { n } else { n.wrapping_neg() } };
    i64, I64, i64, |r| { let n = r.num(64) as i64; if r.chance(1, 2) { n } else { n.wrapping_neg() } };
    i128, I128, i128, |r| { let n = r.num(127) as i128; if r.chance(1, 2) { n } else { -n } };
    isize, I64, i64, |r| { let n = r.num(64) as isize; if r.chance(1, 2) { n } else { n.wrapping_neg() } };
    f32, F32, f32, |r| f32::from_bits(r.num(32) as u32);
    f64, F64, f64, |r| f64::from_bits(r.num(64) as u64);
    char, Char, char, |r| r.ch();
    bool, Bool, bool, |r| r.chance(1, 2);
}

impl Probe for String {
    fn node(g: &mut Graph) -> usize {
        g.ty::<String>(|_| Shape::Str)
    }
    fn arb(r: &mut Rng, _: &mut i64) -> Self {
        if r.chance(1, 20) {
            let n = *r.pick(&[127usize, 128, 129, 300]);
            return "x".repeat(n);
        }
        r.string(6)
    }
    fn val(&self, _: bool) -> Value {
        Value::Str(self.clone())
    }
}

impl Probe for () {
    fn node(g: &mut Graph) -> usize {
        g.ty::<()>(|_| Shape::Unit)
    }
    fn arb(_: &mut Rng, _: &mut i64) -> Self {}
    fn val(&self, _: bool) -> Value {
        Value::Unit
    }
}

impl<T: Probe> Probe for Option<T> {
    fn node(g: &mut Graph) -> usize {
        g.ty::<Self>(|g| Shape::Option(T::node(g)))
    }
    fn arb(r: &mut Rng, size: &mut i64) -> Self {
        if spend(size) && r.chance(2, 3) {
            Some(T::arb(r, size))
        } else {
            None
        }
    }
    fn val(&self, c: bool) -> Value {
        Value::Option(self.as_ref().map(|x| Box::new(x.val(c))))
    }
}

fn sorted(mut v: Vec<Value>) -> Vec<Value> {
    v.sort_by_cached_key(|x| format!("{:?}", x));
    v
}

macro_rules! seqs {
    ($($c:ident [$($b:tt)*] $unordered:expr;)*) => {$(
        impl<T: Probe + $($b)*> Probe for $c<T> {
            fn node(g: &mut Graph) -> usize { g.ty::<Self>(|g| Shape::Seq(None, T::node(g))) }
            fn arb(r: &mut Rng, size: &mut i64) -> Self {
                let n = count(r, size, 4);
                let big = std::mem::size_of::<T>() < 16 && *size > 0 && r.chance(1, 30);
                let n = if big { *r.pick(&[126usize, 127, 128, 129]) } else { n };
                (0..n).map(|_| T::arb(r, size)).collect()
            }
            fn val(&self, c: bool) -> Value {
                let v: Vec<Value> = self.iter().map(|x| x.val(c)).collect();
                Value::VarLenSeq(if c && $unordered { sorted(v) } else { v })
            }
        }
    )*};
}

seqs! {
    Vec [Sized] false;
    VecDeque [Sized] false;
    LinkedList [Sized] false;
    BTreeSet [Ord] false;
    HashSet [Eq + Hash] true;
    BinaryHeap [Ord] true;
}

macro_rules! maps {
    ($($c:ident [$($b:tt)*] $unordered:expr;)*) => {$(
        impl<K: Probe + $($b)*, V: Probe> Probe for $c<K, V> {
            fn node(g: &mut Graph) -> usize {
                g.ty::<Self>(|g| {
                    let kv = vec![K::node(g), V::node(g)];
                    Shape::Seq(None, g.add(Shape::Tuple(kv)))
                })
            }
            fn arb(r: &mut Rng, size: &mut i64) -> Self {
                let n = count(r, size, 3);
                (0..n).map(|_| (K::arb(r, size), V::arb(r, size))).collect()
            }
            fn val(&self, c: bool) -> Value {
                let v: Vec<Value> = self.iter().map(|(k, v)| Value::Tuple(vec![k.val(c), v.val(c)])).collect();
                Value::VarLenSeq(if c && $unordered { sorted(v) } else { v })
            }
        }
    )*};
}

maps! {
    BTreeMap [Ord] false;
    HashMap [Eq + Hash] true;
}

impl<T: Probe, const N: usize> Probe for [T; N]
where
    [T; N]: Serialize,
{
    fn node(g: &mut Graph) -> usize {
        g.ty::<Self>(|g| {
            // (serde writes arrays, empty ones too, as tuples of their length)
            Shape::Seq(Some(N), T::node(g))
        })
    }
    fn arb(r: &mut Rng, size: &mut i64) -> Self {
        std::array::from_fn(|_| T::arb(r, size))
    }
    fn val(&self, c: bool) -> Value {
        Value::FixedLenSeq(self.iter().map(|x| x.val(c)).collect())
    }
}

macro_rules! tuples {
    ($(($($t:ident $i:tt),*))*) => {$(
        impl<$($t: Probe),*> Probe for ($($t,)*) {
            fn node(g: &mut Graph) -> usize { g.ty::<Self>(|g| Shape::Tuple(vec![$($t::node(g)),*])) }
            fn arb(r: &mut Rng, size: &mut i64) -> Self { ($($t::arb(r, size),)*) }
            fn val(&self, c: bool) -> Value { Value::Tuple(vec![$(self.$i.val(c)),*]) }
        }
    )*};
}

tuples! {
    (A 0)
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
}

fn field(n: &str, v: Value) -> StructValueField {
    StructValueField { name: n.into(), value: v }
}

impl<T: Probe> Probe for Range<T> {
    fn node(g: &mut Graph) -> usize {
        g.ty::<Self>(|g| Shape::Struct(vec![("start", T::node(g)), ("end", T::node(g))]))
    }
    fn arb(r: &mut Rng, size: &mut i64) -> Self {
        T::arb(r, size)..T::arb(r, size)
    }
    fn val(&self, c: bool) -> Value {
        Value::Struct(vec![field("start", self.start.val(c)), field("end", self.end.val(c))])
    }
}

impl<T: Probe> Probe for RangeInclusive<T> {
    fn node(g: &mut Graph) -> usize {
        g.ty::<Self>(|g| Shape::Struct(vec![("start", T::node(g)), ("end", T::node(g))]))
    }
    fn arb(r: &mut Rng, size: &mut i64) -> Self {
        T::arb(r, size)..=T::arb(r, size)
    }
    fn val(&self, c: bool) -> Value {
        Value::Struct(vec![field("start", self.start().val(c)), field("end", self.end().val(c))])
    }
}

impl<T: Probe> Probe for Bound<T> {
    fn node(g: &mut Graph) -> usize {
        g.ty::<Self>(|g| {
            let (u, t) = (<()>::node(g), T::node(g));
            Shape::Enum(vec![("Unbounded", u), ("Included", t), ("Excluded", t)])
        })
    }
    fn arb(r: &mut Rng, size: &mut i64) -> Self {
        match r.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::arb(r, size)),
            _ => Bound::Excluded(T::arb(r, size)),
        }
    }
    fn val(&self, c: bool) -> Value {
        let (o, n, v) = match self {
            Bound::Unbounded => (0, "Unbounded", Value::Unit),
            Bound::Included(x) => (1, "Included", x.val(c)),
            Bound::Excluded(x) => (2, "Excluded", x.val(c)),
        };
        Value::Enum(EnumValue { variant_ord: o, variant_name: n.into(), value: Box::new(v) })
    }
}

impl<T: Probe> Probe for Box<T> {
    fn node(g: &mut Graph) -> usize {
        T::node(g)
    }
    fn arb(r: &mut Rng, size: &mut i64) -> Self {
        Box::new(T::arb(r, size))
    }
    fn val(&self, c: bool) -> Value {
        (**self).val(c)
    }
}

impl<T: Probe + Clone> Probe for Cow<'static, T> {
    fn node(g: &mut Graph) -> usize {
        T::node(g)
    }
    fn arb(r: &mut Rng, size: &mut i64) -> Self {
        Cow::Owned(T::arb(r, size))
    }
    fn val(&self, c: bool) -> Value {
        (**self).val(c)
    }
}

pub fn v_struct(f: Vec<(&str, Value)>) -> Value {
    Value::Struct(f.into_iter().map(|(n, v)| field(n, v)).collect())
}

pub fn v_enum(ord: usize, name: &str, v: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.into(), value: Box::new(v) })
}

// ---- what the checks do with such a type ----

pub struct TypeOps {
    pub name: &'static str,
    pub roundtrip: CaseFn,
    pub declared: CaseFn,
    /// a valid message of an arbitrary value
    pub message: fn(&mut Rng) -> R<(Schema, Vec<u8>)>,
    pub decode: for<'a, 'b, 'c, 'd> fn(&'c mut Decoder<'a, 'b, Rd<'d>>) -> Result<(), Error>,
}

pub fn declared_schema<T: KnownSchema + ?Sized>() -> R<Schema> {
    small_stack(&|| T::schema(Default::default()))
}

/// A schema declared on a stack of the size that a program has, so that a type that is declared without end is soon
/// found out.
fn small_stack(f: &(dyn Fn() -> Schema + Sync)) -> R<Schema> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || lib("KnownSchema::schema", f))
            .expect("thread")
            .join()
            .expect("join")
    })
}

fn show(s: &Schema) -> String {
    crate::api::outline(s)
}

/// What the checks need of a type, without its type.
pub struct Pieces<'f> {
    pub name: &'static str,
    pub schema: &'f (dyn Fn() -> Schema + Sync),
    pub inside: &'f (dyn Fn() -> Schema + Sync),
    pub graph: &'f dyn Fn(&mut Graph) -> usize,
    pub graph_inside: &'f dyn Fn(&mut Graph) -> usize,
}

pub fn declared<T: Probe>(cx: &mut Cx) -> R {
    declared_dyn(
        cx,
        Pieces {
            name: std::any::type_name::<T>(),
            schema: &|| T::schema(Default::default()),
            inside: &|| Option::<Box<T>>::schema(Default::default()),
            graph: &T::node,
            graph_inside: &|g| g.option_of(T::node),
        },
    )
}

fn declared_dyn(cx: &mut Cx, p: Pieces) -> R {
    let name = p.name;
    let s = small_stack(p.schema)?;
    let t = Tree::new(&s);
    cx.count("declared schemas compared", 1);
    cx.count("max:nodes in a declared schema", t.nodes.len() as u64);
    check!(t.is_legal(), "declared-illegal", "{} declares {}", name, show(&s));
    let mut g = Graph::default();
    let root = (p.graph)(&mut g);
    if let Err(e) = matches_graph(&t, &g, root) {
        return violation("declared", format!("{} declares {}: {}", name, show(&s), e));
    }
    // declared the same every time, and under other types it means the same
    let again = small_stack(p.schema)?;
    check!(again == s, "declared-differs", "{} declares different schemas", name);
    let o = small_stack(p.inside)?;
    let ot = Tree::new(&o);
    let mut g = Graph::default();
    let root = (p.graph_inside)(&mut g);
    if let Err(e) = matches_graph(&ot, &g, root) {
        return violation("declared-inside", format!("Option<Box<{}>> declares {}: {}", name, show(&o), e));
    }
    cx.nontrivial(("declared", name));
    Ok(())
}

pub fn message<T: Probe>(r: &mut Rng) -> R<(Schema, Vec<u8>)> {
    let mut size = *r.pick(&[0i64, 3, 12, 40]);
    let v = T::arb(r, &mut size).val(false);
    let s = declared_schema::<T>()?;
    match enc(&Tree::new(&s), &v) {
        Some(b) => Ok((s, b)),
        None => Err(Fail::Skip("declared schema does not fit the type")),
    }
}

pub fn roundtrip<T: Probe + DeserializeOwned>(cx: &mut Cx) -> R {
    let mut size = *cx.rng.pick(&[0i64, 2, 6, 20, 60]);
    let x = T::arb(&mut cx.rng, &mut size);
    roundtrip_of(cx, x)
}

/// There and back of that value.
pub fn roundtrip_of<T: Probe + DeserializeOwned>(cx: &mut Cx, x: T) -> R {
    let (v, canon) = (x.val(false), x.val(true));
    roundtrip_dyn(
        cx,
        std::any::type_name::<T>(),
        declared_schema::<T>()?,
        v,
        canon,
        &mut |e| x.serialize(e),
        &mut |d| T::deserialize(d).map(|y| y.val(true)),
    )
}

fn roundtrip_dyn(
    cx: &mut Cx,
    name: &'static str,
    s: Schema,
    v: Value,
    canon: Value,
    ser: &mut dyn FnMut(&mut Encoder<W>) -> Result<(), Error>,
    de: &mut dyn FnMut(&mut Decoder<Rd>) -> Result<Value, Error>,
) -> R {
    let t = Tree::new(&s);
    let mut w = if cx.rng.chance(1, 4) { W::chunked(&mut cx.rng) } else { W::new() };
    let e = encode_with(&s, &mut w, "serialize", ser)?;
    check!(
        e.res.is_ok() && e.finished,
        "serialize",
        "{} {}: serialize under its own schema: {:?}, finished {}; schema {}",
        name,
        vshow(&v),
        e.res,
        e.finished,
        show(&s)
    );
    let want = enc(&t, &v);
    check!(want.is_some(), "declared-value", "{} {} does not fit its declared schema {}", name, vshow(&v), show(&s));
    let want = want.unwrap();
    check!(
        w.out == want,
        "bytes",
        "{} {}: written {}, documented {}; schema {}",
        name,
        vshow(&v),
        bshow(&w.out),
        bshow(&want),
        show(&s)
    );
    let mut m = want.clone();
    let tail = cx.rng.below(4);
    for _ in 0..tail {
        m.push(cx.rng.u64() as u8);
    }
    let mut rd = if cx.rng.chance(1, 4) { Rd::chunked(&m, &mut cx.rng) } else { Rd::new(&m) };
    let (r, fin) = decode_with(&s, &mut rd, "deserialize", de)?;
    let y = match r {
        Ok(y) => y,
        Err(e) => {
            return violation(
                "deserialize",
                format!("{} {}: deserializing what was serialized: {}; schema {}", name, vshow(&v), e, show(&s)),
            )
        }
    };
    check!(fin, "unfinished", "{} {}: coder not finished after deserializing", name, vshow(&v));
    check!(
        rd.pos == want.len(),
        "extent",
        "{} {}: {} of {} bytes consumed",
        name,
        vshow(&v),
        rd.pos,
        want.len()
    );
    let (a, b) = (canon, y);
    check!(veq(&a, &b), "value", "{}: {} came back as {}", name, vshow(&a), vshow(&b));
    cx.count("round trips", 1);
    cx.count("bytes of round trips", want.len() as u64);
    if vcount(&v) > 1 || want.len() > 1 {
        cx.nontrivial((name, &want));
    }
    cx.sample(|| format!("{} {} <-> {} under {}", name, vshow(&v), bshow(&want), show(&s)));
    Ok(())
}

/// Serialize only.
pub fn written<T: Serialize + KnownSchema + ?Sized>(cx: &mut Cx, x: &T, v: Value, shape: &Tree) -> R {
    let name = std::any::type_name::<T>();
    let s = declared_schema::<T>()?;
    let t = Tree::new(&s);
    if let Err(e) = equivalent(&t, shape) {
        return violation("declared", format!("{} declares {}: {}", name, show(&s), e));
    }
    let want = enc(&t, &v).expect("equivalent");
    let mut w = W::new();
    let e = encode_with(&s, &mut w, "serialize", |e| x.serialize(e))?;
    check!(
        e.res.is_ok() && e.finished && w.out == want,
        "serialize",
        "{} {}: {:?}, finished {}, written {}, documented {}",
        name,
        vshow(&v),
        e.res,
        e.finished,
        bshow(&w.out),
        bshow(&want)
    );
    cx.count("values of unsized and reference types", 1);
    cx.nontrivial((name, &want));
    Ok(())
}

#[macro_export]
macro_rules! type_ops {
    ($($t:ty),* $(,)?) => {
        vec![$($crate::probe::TypeOps {
            name: stringify!($t),
            roundtrip: $crate::probe::roundtrip::<$t>,
            declared: $crate::probe::declared::<$t>,
            message: $crate::probe::message::<$t>,
            decode: |d| <$t as ::serde::Deserialize>::deserialize(d).map(|_| ()),
        }),*]
    };
}

#[cfg(not(feature = "catalog"))]
pub fn types() -> &'static [TypeOps] {
    static T: OnceLock<Vec<TypeOps>> = OnceLock::new();
    T.get_or_init(|| {
        type_ops![u8, String, Vec<()>, Vec<Option<u32>>, BTreeMap<String, Vec<u8>>, HashMap<u8, (u8, String)>, [u16; 3], Bound<Range<u8>>]
    })
}

#[cfg(feature = "catalog")]
pub fn types() -> &'static [TypeOps] {
    static T: OnceLock<Vec<TypeOps>> = OnceLock::new();
    T.get_or_init(|| {
        type_ops![
            u8, u16, u32, u64, u128, usize,
            i8, i16, i32, i64, i128, isize,
            f32, f64, char, bool, String, (),
            Option<u8>, Option<()>, Option<Option<bool>>, Option<String>, Option<Vec<u16>>, Option<(u8, char)>,
            Vec<u8>, Vec<()>, Vec<bool>, Vec<u64>, Vec<String>, Vec<Vec<u8>>, Vec<Vec<Vec<i32>>>, Vec<Option<u32>>,
            Vec<(String, f64)>, Vec<[u8; 3]>, Vec<char>, Vec<Bound<u8>>, Vec<HashMap<u8, String>>,
            VecDeque<i16>, VecDeque<Option<String>>, VecDeque<()>,
            LinkedList<i64>, LinkedList<LinkedList<u8>>, LinkedList<(u8, u8)>,
            BTreeSet<u32>, BTreeSet<String>, BTreeSet<Vec<u8>>, BTreeSet<()>, BTreeSet<(char, Option<bool>)>,
            HashSet<u8>, HashSet<String>, HashSet<(u8, bool)>, HashSet<Option<char>>,
            BinaryHeap<u32>, BinaryHeap<String>, BinaryHeap<(u8, Vec<u8>)>,
            BTreeMap<u8, u8>, BTreeMap<String, Vec<u8>>, BTreeMap<(), u8>, BTreeMap<char, ()>,
            BTreeMap<u16, BTreeMap<u16, String>>, BTreeMap<Option<u8>, Option<u8>>, BTreeMap<String, [u32; 2]>,
            HashMap<u8, u8>, HashMap<String, f32>, HashMap<(u8, u8), ()>, HashMap<u64, HashMap<bool, i8>>,
            HashMap<String, Option<Box<u8>>>, HashMap<i32, BTreeSet<char>>,
            [u8; 0], [u8; 1], [u8; 3], [String; 2], [(); 4], [[u16; 2]; 3], [Option<u8>; 32], [Vec<u8>; 2],
            [(u8, String); 2], [u64; 17], [HashMap<u8, bool>; 2],
            (u8,), (u8, u8), (u8, (), u8), ((),), ((), ()), (u8, String, bool, char), (u8, (u16, (u32, (u64,)))),
            (u8, u16, u32, u64, u128), (i8, i16, i32, i64, i128, isize), (f32, f64, u8, u8, u8, u8, bool),
            (u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, String),
            (u8, u8, u8, u8, u8, u8, u8, u8, u8, ()), (char, u8, i8, u16, i16, u32, i32, u64, i64, String, Vec<u8>),
            Range<u8>, Range<i64>, Range<String>, Range<(u8, u8)>, Range<Range<u8>>, Range<Option<u8>>,
            RangeInclusive<u8>, RangeInclusive<i32>, RangeInclusive<char>, RangeInclusive<Vec<u8>>,
            Bound<u8>, Bound<()>, Bound<String>, Bound<Bound<u16>>, Bound<(u8, Option<bool>)>, Bound<Vec<char>>,
            (Bound<u32>, Bound<u32>), Range<Bound<i8>>, Option<Bound<Range<u8>>>,
            Box<u8>, Box<String>, Box<Vec<Box<u8>>>, Option<Box<Option<Box<u8>>>>, Box<(Box<u8>, Box<()>)>, Box<Box<bool>>,
            Cow<'static, u8>, Cow<'static, String>, Cow<'static, Vec<u8>>, Vec<Cow<'static, (u8, String)>>,
            Cow<'static, [u8; 2]>, Option<Cow<'static, Box<char>>>,
            BTreeMap<String, Vec<(Option<Bound<u8>>, [Range<i16>; 2])>>,
            Vec<(HashMap<String, BTreeSet<u8>>, Option<[bool; 3]>)>,
            [BTreeMap<u8, VecDeque<LinkedList<Option<()>>>>; 1],
        ]
    })
}
