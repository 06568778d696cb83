//! Generators: schemas, values, hostile bytes.

use crate::{
    model::*,
    rng::Rng,
};
use binschema::{
    value::{EnumValue, ScalarValue, StructValueField, Value},
    EnumSchemaVariant, ScalarType, Schema, SeqSchema, StructSchemaField,
};

#[derive(Clone, Copy, Debug)]
pub struct SGen {
    pub max_depth: usize,
    pub max_nodes: usize,
    /// weight of recurse nodes (0: none)
    pub recurse: usize,
    /// allow illegal recurse levels
    pub illegal: bool,
    /// ASCII identifier-like names only
    pub plain_names: bool,
    /// weight of big fan-outs (many variants / long fixed seqs)
    pub wide: bool,
}

impl Default for SGen {
    fn default() -> Self {
        SGen { max_depth: 6, max_nodes: 24, recurse: 3, illegal: false, plain_names: false, wide: true }
    }
}

/// The interpreter is too slow for large things.
pub const BIG: bool = !cfg!(miri);

pub fn name(r: &mut Rng, plain: bool) -> String {
    const POOL: &[&str] = &["a", "b", "c", "left", "right", "value", "next", "x", "kind", "type", "r#type", "Foo", "Bar"];
    if r.chance(1, 24) && BIG {
        // long names which differ only at their ends
        let n = *r.pick(&[15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300]);
        return format!("{}{}", "n".repeat(n), ["", "a", "b", "ab"][r.below(4)]);
    }
    match r.below(8) {
        0 if !plain => r.string(6),
        1 if !plain => String::new(),
        2 if plain => format!("n{}", r.below(1000)),
        _ => r.pick(POOL).to_string(),
    }
}

pub fn scalar_ty(r: &mut Rng) -> ScalarType {
    *r.pick(&SCALARS)
}

struct G<'a> {
    r: &'a mut Rng,
    cfg: SGen,
    left: isize,
}

impl<'a> G<'a> {
    fn go(&mut self, depth: usize) -> Schema {
        self.left -= 1;
        let leaf_only = depth >= self.cfg.max_depth || self.left <= 0;
        let rec = if depth == 0 && !self.cfg.illegal { 0 } else { self.cfg.recurse };
        let w: [usize; 10] = if leaf_only {
            [6, 2, 2, 2, 0, 0, 0, 0, 0, rec]
        } else if depth == 0 {
            [1, 1, 1, 1, 4, 5, 5, 6, 6, rec.min(1)]
        } else {
            [6, 2, 2, 2, 4, 4, 4, 4, 4, rec]
        };
        match self.r.weighted(&w) {
            0 => Schema::Scalar(scalar_ty(self.r)),
            1 => Schema::Str,
            2 => Schema::Bytes,
            3 => Schema::Unit,
            4 => Schema::Option(Box::new(self.go(depth + 1))),
            5 => {
                let len = match self.r.below(8) {
                    0 => Some(0),
                    1 => Some(1),
                    2 | 3 => Some(self.r.below(5)),
                    4 if self.cfg.wide && self.r.chance(1, 20) => Some(self.r.range(5, 40)),
                    _ => None,
                };
                Schema::Seq(SeqSchema { len, inner: Box::new(self.go(depth + 1)) })
            }
            6 => {
                let n = self.fan();
                Schema::Tuple((0..n).map(|_| self.go(depth + 1)).collect())
            }
            7 => {
                let n = self.fan();
                Schema::Struct(
                    (0..n)
                        .map(|_| StructSchemaField {
                            name: name(self.r, self.cfg.plain_names),
                            inner: self.go(depth + 1),
                        })
                        .collect(),
                )
            }
            8 => {
                let n = if self.cfg.wide && self.r.chance(1, 40) {
                    *self.r.pick(&[255usize, 256, 257, 300])
                } else if self.cfg.illegal && self.r.chance(1, 12) {
                    0
                } else {
                    self.r.range(1, 4)
                };
                Schema::Enum(
                    (0..n)
                        .map(|i| EnumSchemaVariant {
                            name: name(self.r, self.cfg.plain_names),
                            inner: if i < 4 { self.go(depth + 1) } else { Schema::Scalar(scalar_ty(self.r)) },
                        })
                        .collect(),
                )
            }
            _ => {
                let n = if self.cfg.illegal && self.r.chance(1, 3) {
                    match self.r.below(4) {
                        0 => 0,
                        1 => usize::MAX - self.r.below(3),
                        _ => depth + 1 + self.r.below(3),
                    }
                } else if depth == 0 {
                    self.r.below(3)
                } else {
                    self.r.range(1, depth)
                };
                Schema::Recurse(n)
            }
        }
    }

    fn fan(&mut self) -> usize {
        match self.r.below(6) {
            0 => 0,
            1 => 1,
            _ => self.r.range(1, 4),
        }
    }
}

/// Any schema of the configured family.
pub fn any_schema(r: &mut Rng, cfg: SGen) -> Schema {
    let mut cfg = cfg;
    let mut left = r.range(1, cfg.max_nodes) as isize;
    if r.chance(1, 16) && cfg.max_depth >= 4 {
        // few nodes, nested deeply
        cfg.max_depth *= 4;
        left += left / 2;
    }
    G { r, cfg, left }.go(0)
}

/// Legal schema with at least one finite value and no way to descend for
/// ever without consuming bytes.
pub fn good_schema(r: &mut Rng, cfg: SGen) -> (Schema, Tree) {
    loop {
        let s = any_schema(r, cfg);
        let t = Tree::new(&s);
        if t.is_legal() && t.min_cost()[0] < 500 && !t.has_zero_byte_cycle() {
            return (s, t);
        }
    }
}

pub fn scalar(r: &mut Rng, st: ScalarType) -> ScalarValue {
    use ScalarType as T;
    use ScalarValue as V;
    fn sint(r: &mut Rng, bits: u32) -> i128 {
        let m = r.num(bits - 1) as i128;
        if r.chance(1, 2) { !m } else { m }
    }
    match st {
        T::U8 => V::U8(r.num(8) as u8),
        T::U16 => V::U16(r.num(16) as u16),
        T::U32 => V::U32(r.num(32) as u32),
        T::U64 => V::U64(r.num(64) as u64),
        T::U128 => V::U128(r.num(128)),
        T::I8 => V::I8(sint(r, 8) as i8),
        T::I16 => V::I16(sint(r, 16) as i16),
        T::I32 => V::I32(sint(r, 32) as i32),
        T::I64 => V::I64(sint(r, 64) as i64),
        T::I128 => V::I128(sint(r, 128)),
        T::F32 => V::F32(match r.below(4) {
            0 => *r.pick(&[0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1.5]),
            // NaNs with payloads, quiet and signalling
            1 => f32::from_bits(0x7f80_0001 | (r.u64() as u32 & 0x807f_ffff)),
            2 => (r.num(24) as i64 - r.num(24) as i64) as f32,
            _ => f32::from_bits(r.u64() as u32),
        }),
        T::F64 => V::F64(match r.below(4) {
            0 => *r.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 1.5]),
            1 => f64::from_bits(0x7ff0_0000_0000_0001 | (r.u64() & 0x800f_ffff_ffff_ffff)),
            2 => (r.num(53) as i64 - r.num(53) as i64) as f64,
            _ => f64::from_bits(r.u64()),
        }),
        T::Char => V::Char(r.ch()),
        T::Bool => V::Bool(r.chance(1, 2)),
    }
}

fn seq_len(r: &mut Rng, budget: i64) -> usize {
    if budget <= 0 {
        return 0;
    }
    let b = budget as usize;
    match r.below(12) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 if b >= 130 => *r.pick(&[127usize, 128, 129]),
        _ => r.below(b.min(6) + 1),
    }
}

/// Random value of node `id`; stays close to `budget` values.
pub fn value_at(r: &mut Rng, t: &Tree, cost: &[u64], id: usize, budget: &mut i64) -> Value {
    *budget -= 1;
    let id = t.resolve(id).expect("value of illegal schema");
    match t.kind(id) {
        Kind::Scalar(st) => Value::Scalar(scalar(r, *st)),
        Kind::Str => {
            if r.chance(1, 100) && BIG {
                let n = r.edge_len();
                return Value::Str(r.string_of_len(n));
            }
            let m = if r.chance(1, 60) { 200 } else { 8 };
            Value::Str(r.string(m))
        }
        Kind::Bytes => {
            if r.chance(1, 100) && BIG {
                let n = r.edge_len();
                return Value::Bytes((0..n).map(|i| (i ^ (i >> 8)) as u8).collect());
            }
            let m = if r.chance(1, 60) { 400 } else { 10 };
            Value::Bytes(r.bytes(m))
        }
        Kind::Unit => Value::Unit,
        Kind::Option(i) => {
            let some = cost[*i] < INF && (*budget > 0 || false) && r.chance(2, 3);
            Value::Option(if some { Some(Box::new(value_at(r, t, cost, *i, budget))) } else { None })
        }
        Kind::Seq(Some(len), i) => {
            Value::FixedLenSeq((0..*len).map(|_| value_at(r, t, cost, *i, budget)).collect())
        }
        Kind::Seq(None, i) => {
            let leaf = t.resolve(*i).map_or(false, |x| t.children(x).is_empty());
            let n = if cost[*i] >= INF {
                0
            } else if leaf && r.chance(1, 2000) && BIG {
                *r.pick(&[1000usize, 4096, 16383, 16384, 16385])
            } else if leaf && r.chance(1, 40) {
                *r.pick(&[127usize, 128, 129, 255, 256, 300])
            } else {
                seq_len(r, *budget)
            };
            Value::VarLenSeq(
                (0..n)
                    .map(|_| value_at(r, t, cost, *i, budget))
                    .collect(),
            )
        }
        Kind::Tuple(is) => Value::Tuple(is.iter().map(|&i| value_at(r, t, cost, i, budget)).collect()),
        Kind::Struct(fs) => Value::Struct(
            fs.iter()
                .map(|(n, i)| StructValueField { name: n.clone(), value: value_at(r, t, cost, *i, budget) })
                .collect(),
        ),
        Kind::Enum(vars) => {
            let best = (0..vars.len()).min_by_key(|&k| cost[vars[k].1]).unwrap();
            let mut k = if *budget > 0 { r.below(vars.len()) } else { best };
            if vars.len() > 4 && r.chance(1, 3) && *budget > 0 {
                k = vars.len() - 1;
            }
            if cost[vars[k].1] >= INF {
                k = best;
            }
            Value::Enum(EnumValue {
                variant_ord: k,
                variant_name: vars[k].0.clone(),
                value: Box::new(value_at(r, t, cost, vars[k].1, budget)),
            })
        }
        Kind::Recurse(_) => unreachable!(),
    }
}

pub fn value(r: &mut Rng, t: &Tree, budget: i64) -> Value {
    let cost = t.min_cost();
    let mut b = budget;
    value_at(r, t, &cost, 0, &mut b)
}

/// A schema and a conforming value with its reference encoding.
pub fn case(r: &mut Rng, cfg: SGen) -> (Schema, Tree, Value, Vec<u8>) {
    loop {
        let (s, t) = good_schema(r, cfg);
        let budget = *r.pick(&[3i64, 10, 30, 80]);
        let v = value(r, &t, budget);
        if vcount(&v) > 20000 {
            continue;
        }
        let b = enc(&t, &v).expect("reference value conforms");
        return (s, t, v, b);
    }
}

/// Derive hostile bytes from a valid message.
pub fn mutate(r: &mut Rng, valid: &[u8]) -> Vec<u8> {
    let mut b = valid.to_vec();
    let n = match r.below(6) {
        0 => 0,
        1..=3 => 1,
        _ => r.range(1, 4),
    };
    if n == 0 {
        let l = r.below(24);
        return (0..l).map(|_| hostile_byte(r)).collect();
    }
    for _ in 0..n {
        let p = r.below(b.len() + 1);
        match r.below(9) {
            0 => b.truncate(p),
            1 if p < b.len() => b[p] ^= 1 << r.below(8),
            2 if p < b.len() => b[p] = hostile_byte(r),
            3 => b.insert(p, hostile_byte(r)),
            4 if p < b.len() => {
                b.remove(p);
            }
            5 => {
                // a variable-length integer of boundary size
                let mut x = Vec::new();
                let bits = *r.pick(&[7u32, 8, 16, 21, 31, 32, 33, 63, 64, 65, 127, 128]);
                if r.chance(1, 2) {
                    put_uint(&mut x, r.num(bits));
                } else {
                    put_sint(&mut x, r.num(bits.min(127)) as i128);
                }
                let e = (p + r.below(3)).min(b.len());
                b.splice(p..e, x);
            }
            6 => {
                // over-long encodings
                let k = r.range(1, 22);
                let x: Vec<u8> = (0..k).map(|_| if r.chance(1, 2) { 0x80 } else { 0x80 | r.u64() as u8 }).collect();
                let e = (p + r.below(2)).min(b.len());
                b.splice(p..e, x);
            }
            7 if p < b.len() => {
                b[p] = if r.chance(1, 2) { b[p].wrapping_add(1) } else { b[p].wrapping_sub(1) };
            }
            _ => {
                let k = r.below(4);
                for _ in 0..k {
                    b.push(hostile_byte(r));
                }
            }
        }
    }
    b
}

fn hostile_byte(r: &mut Rng) -> u8 {
    match r.below(5) {
        0 => *r.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff, 0x40, 0xc0, 0xed, 0xa0]),
        1 => r.below(4) as u8,
        _ => r.u64() as u8,
    }
}
