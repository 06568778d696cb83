//! Reference model of the data format, written from FORMAT.txt: static schema
//! tree, encoder, decoder, conformance, equivalence of schemas.

use binschema::{
    value::{EnumValue, ScalarValue, StructValueField, Value},
    EnumSchemaVariant, ScalarType, Schema, SeqSchema, StructSchemaField,
};
use std::collections::HashSet;

#[derive(Debug, Clone, PartialEq)]
pub enum Kind {
    Scalar(ScalarType),
    Str,
    Bytes,
    Unit,
    Option(usize),
    Seq(Option<usize>, usize),
    Tuple(Vec<usize>),
    Struct(Vec<(String, usize)>),
    Enum(Vec<(String, usize)>),
    Recurse(usize),
}

#[derive(Debug, Clone)]
pub struct Node {
    pub parent: Option<usize>,
    pub kind: Kind,
    /// Encoded size is certainly at least this (saturating, 0 if unknown).
    pub depth: usize,
}

/// A schema as a tree with parent links; node 0 is the root.
#[derive(Debug, Clone)]
pub struct Tree {
    pub nodes: Vec<Node>,
}

pub const INF: u64 = u64::MAX / 4;

impl Tree {
    pub fn new(s: &Schema) -> Tree {
        let mut t = Tree { nodes: Vec::new() };
        t.add(s, None, 0);
        t
    }

    fn add(&mut self, s: &Schema, parent: Option<usize>, depth: usize) -> usize {
        let id = self.nodes.len();
        self.nodes.push(Node { parent, kind: Kind::Unit, depth });
        let d = depth + 1;
        let kind = match s {
            Schema::Scalar(st) => Kind::Scalar(*st),
            Schema::Str => Kind::Str,
            Schema::Bytes => Kind::Bytes,
            Schema::Unit => Kind::Unit,
            Schema::Option(i) => Kind::Option(self.add(i, Some(id), d)),
            Schema::Seq(SeqSchema { len, inner }) => Kind::Seq(*len, self.add(inner, Some(id), d)),
            Schema::Tuple(v) => Kind::Tuple(v.iter().map(|s| self.add(s, Some(id), d)).collect()),
            Schema::Struct(v) => Kind::Struct(
                v.iter().map(|f| (f.name.clone(), self.add(&f.inner, Some(id), d))).collect(),
            ),
            Schema::Enum(v) => Kind::Enum(
                v.iter().map(|f| (f.name.clone(), self.add(&f.inner, Some(id), d))).collect(),
            ),
            Schema::Recurse(n) => Kind::Recurse(*n),
        };
        self.nodes[id].kind = kind;
        id
    }

    pub fn kind(&self, id: usize) -> &Kind {
        &self.nodes[id].kind
    }

    /// The schema meant by node `id`: itself, or what its recurse level leads
    /// to. `None` if the reference is illegal.
    pub fn resolve(&self, id: usize) -> Option<usize> {
        match *self.kind(id) {
            Kind::Recurse(0) => None,
            Kind::Recurse(n) => {
                let mut cur = id;
                for _ in 0..n {
                    cur = self.nodes[cur].parent?;
                }
                Some(cur)
            }
            _ => Some(id),
        }
    }

    pub fn is_legal(&self) -> bool {
        (0..self.nodes.len()).all(|i| self.resolve(i).is_some())
    }

    pub fn has_recurse(&self) -> bool {
        self.nodes.iter().any(|n| matches!(n.kind, Kind::Recurse(_)))
    }

    pub fn schema(&self, id: usize) -> Schema {
        match self.kind(id) {
            Kind::Scalar(s) => Schema::Scalar(*s),
            Kind::Str => Schema::Str,
            Kind::Bytes => Schema::Bytes,
            Kind::Unit => Schema::Unit,
            Kind::Option(i) => Schema::Option(Box::new(self.schema(*i))),
            Kind::Seq(len, i) => Schema::Seq(SeqSchema { len: *len, inner: Box::new(self.schema(*i)) }),
            Kind::Tuple(v) => Schema::Tuple(v.iter().map(|&i| self.schema(i)).collect()),
            Kind::Struct(v) => Schema::Struct(
                v.iter()
                    .map(|(n, i)| StructSchemaField { name: n.clone(), inner: self.schema(*i) })
                    .collect(),
            ),
            Kind::Enum(v) => Schema::Enum(
                v.iter()
                    .map(|(n, i)| EnumSchemaVariant { name: n.clone(), inner: self.schema(*i) })
                    .collect(),
            ),
            Kind::Recurse(n) => Schema::Recurse(*n),
        }
    }

    pub fn children(&self, id: usize) -> Vec<usize> {
        match self.kind(id) {
            Kind::Option(i) | Kind::Seq(_, i) => vec![*i],
            Kind::Tuple(v) => v.clone(),
            Kind::Struct(v) | Kind::Enum(v) => v.iter().map(|x| x.1).collect(),
            _ => vec![],
        }
    }

    /// Size (in values) of the smallest value of each node, INF if it has no
    /// finite value (or needs an illegal reference).
    pub fn min_cost(&self) -> Vec<u64> {
        let n = self.nodes.len();
        let mut c = vec![INF; n];
        loop {
            let mut changed = false;
            for i in (0..n).rev() {
                let new = match self.kind(i) {
                    Kind::Scalar(_) | Kind::Str | Kind::Bytes | Kind::Unit => 1,
                    Kind::Option(_) | Kind::Seq(None, _) | Kind::Seq(Some(0), _) => 1,
                    Kind::Seq(Some(l), x) => (*l as u64).saturating_mul(c[*x]).saturating_add(1).min(INF),
                    Kind::Tuple(v) => v.iter().fold(1u64, |a, &x| a.saturating_add(c[x]).min(INF)),
                    Kind::Struct(v) => v.iter().fold(1u64, |a, x| a.saturating_add(c[x.1]).min(INF)),
                    Kind::Enum(v) => v.iter().map(|x| c[x.1].saturating_add(1).min(INF)).min().unwrap_or(INF),
                    Kind::Recurse(_) => self.resolve(i).map(|t| c[t]).unwrap_or(INF),
                };
                if new < c[i] {
                    c[i] = new;
                    changed = true;
                }
            }
            if !changed {
                return c;
            }
        }
    }

    /// Whether decoding can descend for ever without reading a byte.
    /// Is there a sequence of variable length whose elements take no bytes?
    /// A message may then claim any number of them.
    pub fn has_free_seq(&self) -> bool {
        let mut zero = vec![true; self.nodes.len()];
        loop {
            let next: Vec<bool> = (0..zero.len())
                .map(|i| match self.kind(i) {
                    Kind::Unit => true,
                    Kind::Seq(Some(l), x) => *l == 0 || zero[*x],
                    Kind::Tuple(v) => v.iter().all(|&x| zero[x]),
                    Kind::Struct(v) => v.iter().all(|x| zero[x.1]),
                    Kind::Enum(v) => v.len() == 1 && zero[v[0].1],
                    Kind::Recurse(_) => self.resolve(i).map_or(false, |x| zero[x]),
                    _ => false,
                })
                .collect();
            if next == zero {
                break;
            }
            zero = next;
        }
        (0..zero.len()).any(|i| matches!(self.kind(i), Kind::Seq(None, x) if zero[*x]))
    }

    pub fn has_zero_byte_cycle(&self) -> bool {
        // edges that consume nothing
        let n = self.nodes.len();
        let edges = |i: usize| -> Vec<usize> {
            let v = match self.kind(i) {
                Kind::Seq(Some(l), x) if *l > 0 => vec![*x],
                Kind::Tuple(v) => v.clone(),
                Kind::Struct(v) => v.iter().map(|x| x.1).collect(),
                Kind::Enum(v) if v.len() == 1 => vec![v[0].1],
                _ => vec![],
            };
            v.into_iter().filter_map(|x| self.resolve(x)).collect()
        };
        // colour DFS
        let mut col = vec![0u8; n];
        fn dfs(i: usize, col: &mut Vec<u8>, edges: &dyn Fn(usize) -> Vec<usize>) -> bool {
            col[i] = 1;
            for e in edges(i) {
                if col[e] == 1 || (col[e] == 0 && dfs(e, col, edges)) {
                    return true;
                }
            }
            col[i] = 2;
            false
        }
        (0..n).any(|i| col[i] == 0 && dfs(i, &mut col, &edges))
    }
}

// ---- integers ----

pub fn put_uint(out: &mut Vec<u8>, n: u128) {
    let bits = 128 - n.leading_zeros();
    let groups = std::cmp::max(1, (bits + 6) / 7);
    for g in 0..groups {
        let b = ((n >> (7 * g)) & 0x7f) as u8;
        out.push(if g + 1 < groups { b | 0x80 } else { b });
    }
}

pub fn put_sint(out: &mut Vec<u8>, n: i128) {
    let (neg, m) = if n < 0 { (0x40u8, (!n) as u128) } else { (0, n as u128) };
    let rest = m >> 6;
    let first = neg | (m & 0x3f) as u8;
    if rest == 0 {
        out.push(first);
    } else {
        out.push(first | 0x80);
        put_uint(out, rest);
    }
}

/// Bytes of an ordinal whose maximum is `max`.
pub fn ord_len(max: usize) -> usize {
    let mut k = 0;
    while k < 8 && (max as u128) >= 1u128 << (8 * k) {
        k += 1;
    }
    k
}

pub fn put_ord(out: &mut Vec<u8>, ord: usize, variants: usize) {
    let k = ord_len(variants - 1);
    for i in 0..k {
        out.push((ord >> (8 * i)) as u8);
    }
}

pub fn scalar_type(s: &ScalarValue) -> ScalarType {
    use ScalarValue as V;
    match s {
        V::U8(_) => ScalarType::U8,
        V::U16(_) => ScalarType::U16,
        V::U32(_) => ScalarType::U32,
        V::U64(_) => ScalarType::U64,
        V::U128(_) => ScalarType::U128,
        V::I8(_) => ScalarType::I8,
        V::I16(_) => ScalarType::I16,
        V::I32(_) => ScalarType::I32,
        V::I64(_) => ScalarType::I64,
        V::I128(_) => ScalarType::I128,
        V::F32(_) => ScalarType::F32,
        V::F64(_) => ScalarType::F64,
        V::Char(_) => ScalarType::Char,
        V::Bool(_) => ScalarType::Bool,
    }
}

pub const SCALARS: [ScalarType; 14] = [
    ScalarType::U8,
    ScalarType::U16,
    ScalarType::U32,
    ScalarType::U64,
    ScalarType::U128,
    ScalarType::I8,
    ScalarType::I16,
    ScalarType::I32,
    ScalarType::I64,
    ScalarType::I128,
    ScalarType::F32,
    ScalarType::F64,
    ScalarType::Char,
    ScalarType::Bool,
];

pub fn put_scalar(out: &mut Vec<u8>, s: &ScalarValue) {
    use ScalarValue as V;
    match *s {
        V::U8(n) => out.push(n),
        V::I8(n) => out.push(n as u8),
        V::U16(n) => {
            out.push(n as u8);
            out.push((n >> 8) as u8)
        }
        V::I16(n) => {
            out.push(n as u16 as u8);
            out.push((n as u16 >> 8) as u8)
        }
        V::U32(n) => put_uint(out, n as u128),
        V::U64(n) => put_uint(out, n as u128),
        V::U128(n) => put_uint(out, n),
        V::I32(n) => put_sint(out, n as i128),
        V::I64(n) => put_sint(out, n as i128),
        V::I128(n) => put_sint(out, n),
        V::F32(f) => {
            let b = f.to_bits();
            for i in 0..4 {
                out.push((b >> (8 * i)) as u8)
            }
        }
        V::F64(f) => {
            let b = f.to_bits();
            for i in 0..8 {
                out.push((b >> (8 * i)) as u8)
            }
        }
        V::Char(c) => put_uint(out, c as u32 as u128),
        V::Bool(b) => out.push(if b { 1 } else { 0 }),
    }
}

// ---- values ----

/// Equality with floats compared bit for bit.
pub fn veq(a: &Value, b: &Value) -> bool {
    use Value as V;
    match (a, b) {
        (V::Scalar(x), V::Scalar(y)) => match (x, y) {
            (ScalarValue::F32(x), ScalarValue::F32(y)) => x.to_bits() == y.to_bits(),
            (ScalarValue::F64(x), ScalarValue::F64(y)) => x.to_bits() == y.to_bits(),
            _ => x == y,
        },
        (V::Str(x), V::Str(y)) => x == y,
        (V::Bytes(x), V::Bytes(y)) => x == y,
        (V::Unit, V::Unit) => true,
        (V::Option(None), V::Option(None)) => true,
        (V::Option(Some(x)), V::Option(Some(y))) => veq(x, y),
        (V::FixedLenSeq(x), V::FixedLenSeq(y))
        | (V::VarLenSeq(x), V::VarLenSeq(y))
        | (V::Tuple(x), V::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| veq(a, b)),
        (V::Struct(x), V::Struct(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.name == b.name && veq(&a.value, &b.value))
        }
        (V::Enum(x), V::Enum(y)) => {
            x.variant_ord == y.variant_ord && x.variant_name == y.variant_name && veq(&x.value, &y.value)
        }
        _ => false,
    }
}

pub fn vcount(v: &Value) -> usize {
    use Value as V;
    1 + match v {
        V::Option(Some(x)) => vcount(x),
        V::FixedLenSeq(x) | V::VarLenSeq(x) | V::Tuple(x) => x.iter().map(vcount).sum(),
        V::Struct(x) => x.iter().map(|f| vcount(&f.value)).sum(),
        V::Enum(x) => vcount(&x.value),
        _ => 0,
    }
}

/// Reference encoder. `None` if the value does not conform to the schema.
pub fn encode(t: &Tree, id: usize, v: &Value, out: &mut Vec<u8>) -> Option<()> {
    let id = t.resolve(id)?;
    match (t.kind(id), v) {
        (Kind::Scalar(st), Value::Scalar(s)) if scalar_type(s) == *st => put_scalar(out, s),
        (Kind::Str, Value::Str(s)) => {
            put_uint(out, s.len() as u128);
            out.extend_from_slice(s.as_bytes());
        }
        (Kind::Bytes, Value::Bytes(s)) => {
            put_uint(out, s.len() as u128);
            out.extend_from_slice(s);
        }
        (Kind::Unit, Value::Unit) => {}
        (Kind::Option(_), Value::Option(None)) => out.push(0),
        (Kind::Option(i), Value::Option(Some(v))) => {
            out.push(1);
            encode(t, *i, v, out)?;
        }
        (Kind::Seq(Some(len), i), Value::FixedLenSeq(vs)) if vs.len() == *len => {
            for v in vs {
                encode(t, *i, v, out)?;
            }
        }
        (Kind::Seq(None, i), Value::VarLenSeq(vs)) => {
            put_uint(out, vs.len() as u128);
            for v in vs {
                encode(t, *i, v, out)?;
            }
        }
        (Kind::Tuple(is), Value::Tuple(vs)) if is.len() == vs.len() => {
            for (i, v) in is.iter().zip(vs) {
                encode(t, *i, v, out)?;
            }
        }
        (Kind::Struct(fs), Value::Struct(vs)) if fs.len() == vs.len() => {
            for ((n, i), v) in fs.iter().zip(vs) {
                if n != &v.name {
                    return None;
                }
                encode(t, *i, &v.value, out)?;
            }
        }
        (Kind::Enum(vars), Value::Enum(e)) => {
            let (n, i) = vars.get(e.variant_ord)?;
            if n != &e.variant_name {
                return None;
            }
            put_ord(out, e.variant_ord, vars.len());
            encode(t, *i, &e.value, out)?;
        }
        _ => return None,
    }
    Some(())
}

pub fn enc(t: &Tree, v: &Value) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    encode(t, 0, v, &mut out)?;
    Some(out)
}

/// Why the reference decoder refuses a byte string.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum DErr {
    /// Bytes end too early.
    Eof,
    /// Bytes end too early, and those present cannot be completed either:
    /// both errors are right.
    EofMalformed,
    /// A byte is invalid at its place.
    Malformed,
    /// A length does not fit usize.
    Platform,
    /// Needs an illegal schema reference.
    Illegal,
    /// Enum without variants: no message is valid.
    Uninhabited,
    /// FORMAT.txt does not say what this means (bits beyond 128).
    Unspecified,
    /// The model gave up: too many steps.
    Budget,
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub budget: u64,
    /// values decoded so far
    pub values: u64,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, pos: 0, budget: 200_000, values: 0 }
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], DErr> {
        if self.b.len() - self.pos < n {
            self.pos = self.b.len();
            return Err(DErr::Eof);
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn byte(&mut self) -> Result<u8, DErr> {
        Ok(self.take(1)?[0])
    }
    /// Continuation groups; `shift` is where the first of them goes. `max`
    /// is the largest number the type being read can take.
    fn groups(&mut self, mut n: u128, mut shift: u32, max: u128) -> Result<u128, DErr> {
        let mut lost = false;
        loop {
            if shift >= 128 {
                return Err(DErr::Malformed);
            }
            let b = match self.byte() {
                Ok(b) => b,
                Err(_) if lost || n > max => return Err(DErr::EofMalformed),
                Err(e) => return Err(e),
            };
            let g = (b & 0x7f) as u128;
            if (g << shift) >> shift != g {
                lost = true;
            }
            n |= g << shift;
            shift += 7;
            if b & 0x80 == 0 {
                return if lost { Err(DErr::Unspecified) } else { Ok(n) };
            }
        }
    }
    pub fn uint(&mut self, max: u128) -> Result<u128, DErr> {
        self.groups(0, 0, max)
    }
    pub fn sint(&mut self, max: u128) -> Result<i128, DErr> {
        let b = self.byte()?;
        let mut n = (b & 0x3f) as u128;
        if b & 0x80 != 0 {
            n = self.groups(n, 6, max)?;
        }
        if n > i128::MAX as u128 {
            return Err(DErr::Unspecified);
        }
        Ok(if b & 0x40 != 0 { !(n as i128) } else { n as i128 })
    }
    pub fn len(&mut self) -> Result<usize, DErr> {
        usize::try_from(self.uint(u128::MAX)?).map_err(|_| DErr::Platform)
    }
    pub fn ord(&mut self, variants: usize) -> Result<usize, DErr> {
        if variants == 0 {
            return Err(DErr::Uninhabited);
        }
        let b = self.take(ord_len(variants - 1))?;
        let mut n = 0u64;
        for (i, &x) in b.iter().enumerate() {
            n |= (x as u64) << (8 * i);
        }
        if n >= variants as u64 {
            return Err(DErr::Malformed);
        }
        Ok(n as usize)
    }
    pub fn flag(&mut self) -> Result<bool, DErr> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(DErr::Malformed),
        }
    }
    pub fn scalar(&mut self, st: ScalarType) -> Result<ScalarValue, DErr> {
        use ScalarType as T;
        use ScalarValue as V;
        fn le(b: &[u8]) -> u64 {
            b.iter().enumerate().fold(0, |a, (i, &x)| a | (x as u64) << (8 * i))
        }
        fn fit<T, N: TryInto<T>>(n: N) -> Result<T, DErr> {
            n.try_into().map_err(|_| DErr::Malformed)
        }
        Ok(match st {
            T::U8 => V::U8(self.byte()?),
            T::I8 => V::I8(self.byte()? as i8),
            T::U16 => V::U16(le(self.take(2)?) as u16),
            T::I16 => V::I16(le(self.take(2)?) as u16 as i16),
            T::U32 => V::U32(fit(self.uint(u32::MAX as u128)?)?),
            T::U64 => V::U64(fit(self.uint(u64::MAX as u128)?)?),
            T::U128 => V::U128(self.uint(u128::MAX)?),
            T::I32 => V::I32(fit(self.sint(i32::MAX as u128)?)?),
            T::I64 => V::I64(fit(self.sint(i64::MAX as u128)?)?),
            T::I128 => V::I128(self.sint(i128::MAX as u128)?),
            T::F32 => V::F32(f32::from_bits(le(self.take(4)?) as u32)),
            T::F64 => V::F64(f64::from_bits(le(self.take(8)?))),
            T::Char => V::Char(fit::<u32, _>(self.uint(0x10ffff)?).and_then(|n| char::from_u32(n).ok_or(DErr::Malformed))?),
            T::Bool => V::Bool(self.flag()?),
        })
    }
    pub fn str(&mut self) -> Result<String, DErr> {
        let n = self.len()?;
        let left = &self.b[self.pos..];
        if left.len() < n {
            self.pos = self.b.len();
            return Err(match std::str::from_utf8(left) {
                Err(e) if e.error_len().is_some() => DErr::EofMalformed,
                _ => DErr::Eof,
            });
        }
        String::from_utf8(self.take(n)?.to_vec()).map_err(|_| DErr::Malformed)
    }
    pub fn bytes(&mut self) -> Result<Vec<u8>, DErr> {
        let n = self.len()?;
        Ok(self.take(n)?.to_vec())
    }

    /// What the bytes say. Where the format leaves open how to go on, and
    /// going on may come upon a claim of any number of elements without
    /// bytes, that is over budget.
    pub fn value(&mut self, t: &Tree, id: usize) -> Result<Value, DErr> {
        match self.val(t, id) {
            Err(DErr::Unspecified) if t.has_free_seq() => Err(DErr::Budget),
            x => x,
        }
    }

    fn val(&mut self, t: &Tree, id: usize) -> Result<Value, DErr> {
        if self.budget == 0 {
            return Err(DErr::Budget);
        }
        self.budget -= 1;
        self.values += 1;
        let id = t.resolve(id).ok_or(DErr::Illegal)?;
        Ok(match t.kind(id) {
            Kind::Scalar(st) => Value::Scalar(self.scalar(*st)?),
            Kind::Str => Value::Str(self.str()?),
            Kind::Bytes => Value::Bytes(self.bytes()?),
            Kind::Unit => Value::Unit,
            Kind::Option(i) => Value::Option(if self.flag()? { Some(Box::new(self.val(t, *i)?)) } else { None }),
            Kind::Seq(Some(len), i) => {
                Value::FixedLenSeq((0..*len).map(|_| self.val(t, *i)).collect::<Result<_, _>>()?)
            }
            Kind::Seq(None, i) => {
                let len = self.len()?;
                let mut v = Vec::new();
                for _ in 0..len {
                    v.push(self.val(t, *i)?);
                }
                Value::VarLenSeq(v)
            }
            Kind::Tuple(is) => Value::Tuple(is.iter().map(|&i| self.val(t, i)).collect::<Result<_, _>>()?),
            Kind::Struct(fs) => {
                let mut v = Vec::new();
                for (n, i) in fs {
                    v.push(StructValueField { name: n.clone(), value: self.val(t, *i)? });
                }
                Value::Struct(v)
            }
            Kind::Enum(vars) => {
                let o = self.ord(vars.len())?;
                Value::Enum(EnumValue {
                    variant_ord: o,
                    variant_name: vars[o].0.clone(),
                    value: Box::new(self.val(t, vars[o].1)?),
                })
            }
            Kind::Recurse(_) => unreachable!(),
        })
    }
}

/// Whether two schemas define the same values and bytes: equality of their
/// unfoldings (coinductive). Illegal references are only equal to themselves.
pub fn equivalent(a: &Tree, b: &Tree) -> Result<(), String> {
    let mut seen = HashSet::new();
    let mut todo = vec![(0usize, 0usize, String::from("root"))];
    while let Some((x, y, path)) = todo.pop() {
        let (rx, ry) = match (a.resolve(x), b.resolve(y)) {
            (Some(rx), Some(ry)) => (rx, ry),
            (None, None) => continue,
            (p, q) => {
                return Err(format!(
                    "at {}: left {:?} ({}), right {:?} ({})",
                    path,
                    a.kind(x),
                    if p.is_some() { "legal" } else { "illegal" },
                    b.kind(y),
                    if q.is_some() { "legal" } else { "illegal" },
                ))
            }
        };
        if !seen.insert((rx, ry)) {
            continue;
        }
        let names = |v: &Vec<(String, usize)>| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
        let ok = match (a.kind(rx), b.kind(ry)) {
            (Kind::Option(p), Kind::Option(q)) => {
                todo.push((*p, *q, format!("{}/some", path)));
                true
            }
            (Kind::Seq(l, p), Kind::Seq(m, q)) if l == m => {
                todo.push((*p, *q, format!("{}/elem", path)));
                true
            }
            (Kind::Tuple(p), Kind::Tuple(q)) if p.len() == q.len() => {
                for (i, (p, q)) in p.iter().zip(q).enumerate() {
                    todo.push((*p, *q, format!("{}/{}", path, i)));
                }
                true
            }
            (Kind::Struct(p), Kind::Struct(q)) | (Kind::Enum(p), Kind::Enum(q)) if names(p) == names(q) => {
                for (p, q) in p.iter().zip(q) {
                    todo.push((p.1, q.1, format!("{}/{}", path, p.0)));
                }
                true
            }
            (p, q) => {
                !matches!(p, Kind::Option(_) | Kind::Seq(..) | Kind::Tuple(_) | Kind::Struct(_) | Kind::Enum(_))
                    && p == q
            }
        };
        if !ok {
            return Err(format!("at {}: left {:?}, right {:?}", path, a.kind(rx), b.kind(ry)));
        }
    }
    Ok(())
}
