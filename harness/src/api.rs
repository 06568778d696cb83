//! Model of the encoder/decoder API: which call is the next step of coding a
//! value, and the means to make the calls.

use crate::{gen, model::*, rng::Rng};
use binschema::{
    error::{Error, ErrorKind},
    value::{ScalarValue, Value},
    CoderState, Decoder, Encoder, ScalarType, Schema,
};
use std::io::{Read, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    /// encoder
    None,
    Some,
    /// decoder
    Option,
    FixedSeq(usize),
    /// the length counts for the encoder only
    VarSeq(usize),
    SeqElem,
    FinSeq,
    Tuple,
    TupleElem,
    FinTuple,
    Struct,
    Field(String),
    FinStruct,
    /// encoder
    Enum(usize, String),
    /// decoder
    EnumOrd,
    EnumName(String),
}

impl Op {
    pub fn tag(&self) -> &'static str {
        match self {
            Op::Scalar(s) => match scalar_type(s) {
                ScalarType::U8 => "u8",
                ScalarType::U16 => "u16",
                ScalarType::U32 => "u32",
                ScalarType::U64 => "u64",
                ScalarType::U128 => "u128",
                ScalarType::I8 => "i8",
                ScalarType::I16 => "i16",
                ScalarType::I32 => "i32",
                ScalarType::I64 => "i64",
                ScalarType::I128 => "i128",
                ScalarType::F32 => "f32",
                ScalarType::F64 => "f64",
                ScalarType::Char => "char",
                ScalarType::Bool => "bool",
            },
            Op::Str(_) => "str",
            Op::Bytes(_) => "bytes",
            Op::Unit => "unit",
            Op::None => "none",
            Op::Some => "some",
            Op::Option => "option",
            Op::FixedSeq(_) => "fixed_seq",
            Op::VarSeq(_) => "var_seq",
            Op::SeqElem => "seq_elem",
            Op::FinSeq => "finish_seq",
            Op::Tuple => "tuple",
            Op::TupleElem => "tuple_elem",
            Op::FinTuple => "finish_tuple",
            Op::Struct => "struct",
            Op::Field(_) => "struct_field",
            Op::FinStruct => "finish_struct",
            Op::Enum(..) => "enum",
            Op::EnumOrd => "enum_ord",
            Op::EnumName(_) => "enum_name",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rej {
    /// schema non-conformance
    Snc,
    /// API usage
    Api,
    /// either of the two
    Either,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Ok,
    Reject(Rej),
    /// fatal: needs an illegal schema reference
    Illegal,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Need,
    Auto,
    Seq { len: usize, next: usize },
    Tuple { next: usize },
    Struct { next: usize },
    /// decoder: ordinal read, name not yet given
    EnumNamed { ord: usize },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Frame {
    /// resolved node (or an illegal root)
    pub node: usize,
    pub st: St,
}

#[derive(Clone, Debug)]
pub struct Model<'t> {
    pub t: &'t Tree,
    pub stack: Vec<Frame>,
    pub broken: bool,
}

impl<'t> Model<'t> {
    pub fn new(t: &'t Tree) -> Self {
        Model { t, stack: vec![Frame { node: t.resolve(0).unwrap_or(0), st: St::Need }], broken: false }
    }

    pub fn finished(&self) -> bool {
        self.stack.is_empty() && !self.broken
    }

    pub fn top(&self) -> Option<Frame> {
        self.stack.last().copied()
    }

    /// The node needed next, if a value is needed.
    pub fn need(&self) -> Option<usize> {
        match self.top() {
            Some(Frame { node, st: St::Need }) => Some(node),
            _ => None,
        }
    }

    fn child(&self, c: usize) -> Verdict {
        if self.t.resolve(c).is_some() { Verdict::Ok } else { Verdict::Illegal }
    }

    /// What the call must do, by its shape alone.
    pub fn verdict(&self, op: &Op) -> Verdict {
        use Verdict::*;
        if self.broken {
            return Reject(Rej::Api);
        }
        let f = match self.top() {
            Some(f) => f,
            None => return Reject(Rej::Api),
        };
        let k = self.t.kind(f.node);
        let starter = !matches!(
            op,
            Op::SeqElem | Op::FinSeq | Op::TupleElem | Op::FinTuple | Op::Field(_) | Op::FinStruct | Op::EnumName(_)
        );
        if starter {
            if f.st != St::Need {
                return Reject(Rej::Api);
            }
            if let Kind::Recurse(_) = k {
                return Illegal;
            }
            return match (op, k) {
                (Op::Scalar(s), Kind::Scalar(st)) if scalar_type(s) == *st => Ok,
                (Op::Str(_), Kind::Str) | (Op::Bytes(_), Kind::Bytes) | (Op::Unit, Kind::Unit) => Ok,
                (Op::None, Kind::Option(_)) | (Op::Option, Kind::Option(_)) => Ok,
                (Op::Some, Kind::Option(i)) => self.child(*i),
                (Op::FixedSeq(n), Kind::Seq(Some(len), _)) if n == len => Ok,
                (Op::VarSeq(_), Kind::Seq(None, _)) => Ok,
                (Op::Tuple, Kind::Tuple(_)) | (Op::Struct, Kind::Struct(_)) => Ok,
                (Op::Enum(o, n), Kind::Enum(v)) if v.get(*o).map_or(false, |x| &x.0 == n) => self.child(v[*o].1),
                (Op::EnumOrd, Kind::Enum(_)) => Ok,
                _ => Reject(Rej::Snc),
            };
        }
        match (op, f.st, k) {
            (Op::SeqElem, St::Seq { len, next }, Kind::Seq(_, i)) if next < len => self.child(*i),
            (Op::FinSeq, St::Seq { len, next }, _) if next == len => Ok,
            (Op::TupleElem, St::Tuple { next }, Kind::Tuple(v)) if next < v.len() => self.child(v[next]),
            (Op::FinTuple, St::Tuple { next }, Kind::Tuple(v)) if next == v.len() => Ok,
            (Op::Field(n), St::Struct { next }, Kind::Struct(v)) if next < v.len() => {
                if &v[next].0 == n {
                    self.child(v[next].1)
                } else {
                    Reject(Rej::Snc)
                }
            }
            (Op::FinStruct, St::Struct { next }, Kind::Struct(v)) if next == v.len() => Ok,
            (Op::EnumName(n), St::EnumNamed { ord }, Kind::Enum(v)) => {
                if &v[ord].0 == n {
                    self.child(v[ord].1)
                } else {
                    Reject(Rej::Snc)
                }
            }
            (_, St::Need, Kind::Recurse(_)) => Illegal,
            _ => Reject(Rej::Either),
        }
    }

    fn pop(&mut self) {
        self.stack.pop();
        while let Some(Frame { st: St::Auto, .. }) = self.stack.last() {
            self.stack.pop();
        }
    }

    fn push(&mut self, c: usize) {
        let node = self.t.resolve(c).expect("model: push of illegal node");
        self.stack.push(Frame { node, st: St::Need });
    }

    fn set(&mut self, st: St) {
        self.stack.last_mut().unwrap().st = st;
    }

    /// Effect of an accepted call. `got` is what a decoder call read.
    /// Returns false if it turns out to need an illegal reference.
    pub fn apply(&mut self, op: &Op, got: &Got) -> bool {
        let f = self.top().unwrap();
        let k = self.t.kind(f.node).clone();
        match (op, &k) {
            (Op::Scalar(_), _) | (Op::Str(_), _) | (Op::Bytes(_), _) | (Op::Unit, _) | (Op::None, _) => self.pop(),
            (Op::Some, Kind::Option(i)) => {
                self.set(St::Auto);
                self.push(*i);
            }
            (Op::Option, Kind::Option(i)) => match got {
                Got::Opt(true) => {
                    if self.t.resolve(*i).is_none() {
                        self.broken = true;
                        return false;
                    }
                    self.set(St::Auto);
                    self.push(*i);
                }
                _ => self.pop(),
            },
            (Op::FixedSeq(n), _) => self.set(St::Seq { len: *n, next: 0 }),
            (Op::VarSeq(n), _) => {
                let len = if let Got::Len(l) = got { *l } else { *n };
                self.set(St::Seq { len, next: 0 })
            }
            (Op::Tuple, _) => self.set(St::Tuple { next: 0 }),
            (Op::Struct, _) => self.set(St::Struct { next: 0 }),
            (Op::SeqElem, Kind::Seq(_, i)) => {
                if let St::Seq { len, next } = f.st {
                    self.set(St::Seq { len, next: next + 1 });
                }
                self.push(*i);
            }
            (Op::TupleElem, Kind::Tuple(v)) => {
                if let St::Tuple { next } = f.st {
                    self.set(St::Tuple { next: next + 1 });
                    self.push(v[next]);
                }
            }
            (Op::Field(_), Kind::Struct(v)) => {
                if let St::Struct { next } = f.st {
                    self.set(St::Struct { next: next + 1 });
                    self.push(v[next].1);
                }
            }
            (Op::FinSeq, _) | (Op::FinTuple, _) | (Op::FinStruct, _) => self.pop(),
            (Op::Enum(o, _), Kind::Enum(v)) => {
                self.set(St::Auto);
                self.push(v[*o].1);
            }
            (Op::EnumOrd, _) => {
                if let Got::Ord(o) = got {
                    self.set(St::EnumNamed { ord: *o });
                }
            }
            (Op::EnumName(_), Kind::Enum(v)) => {
                if let St::EnumNamed { ord } = f.st {
                    self.set(St::Auto);
                    self.push(v[ord].1);
                }
            }
            x => unreachable!("model: {:?}", x),
        }
        true
    }

    /// Bytes the encoder must write for an accepted call.
    pub fn bytes(&self, op: &Op, out: &mut Vec<u8>) {
        match op {
            Op::Scalar(s) => put_scalar(out, s),
            Op::Str(s) => {
                put_uint(out, s.len() as u128);
                out.extend_from_slice(s.as_bytes());
            }
            Op::Bytes(s) => {
                put_uint(out, s.len() as u128);
                out.extend_from_slice(s);
            }
            Op::None => out.push(0),
            Op::Some => out.push(1),
            Op::VarSeq(n) => put_uint(out, *n as u128),
            Op::Enum(o, _) => {
                if let Some(Frame { node, .. }) = self.top() {
                    if let Kind::Enum(v) = self.t.kind(node) {
                        put_ord(out, *o, v.len());
                    }
                }
            }
            _ => {}
        }
    }

    /// What the decoder must read for an accepted call.
    pub fn read(&self, op: &Op, c: &mut Cur) -> Result<Got, DErr> {
        Ok(match op {
            Op::Scalar(s) => Got::Scalar(c.scalar(scalar_type(s))?),
            Op::Str(_) => Got::Str(c.str()?),
            Op::Bytes(_) => Got::Bytes(c.bytes()?),
            Op::Option => Got::Opt(c.flag()?),
            Op::VarSeq(_) => Got::Len(c.len()?),
            Op::EnumOrd => {
                let n = match self.t.kind(self.top().unwrap().node) {
                    Kind::Enum(v) => v.len(),
                    _ => unreachable!(),
                };
                Got::Ord(c.ord(n)?)
            }
            _ => Got::Nothing,
        })
    }
}

#[derive(Clone, Debug)]
pub enum Got {
    Nothing,
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    Opt(bool),
    Len(usize),
    Ord(usize),
}

impl PartialEq for Got {
    fn eq(&self, o: &Got) -> bool {
        match (self, o) {
            (Got::Nothing, Got::Nothing) => true,
            (Got::Scalar(a), Got::Scalar(b)) => veq(&Value::Scalar(*a), &Value::Scalar(*b)),
            (Got::Str(a), Got::Str(b)) => a == b,
            (Got::Bytes(a), Got::Bytes(b)) => a == b,
            (Got::Opt(a), Got::Opt(b)) => a == b,
            (Got::Len(a), Got::Len(b)) => a == b,
            (Got::Ord(a), Got::Ord(b)) => a == b,
            _ => false,
        }
    }
}

/// Make one encoder call.
pub fn enc_op<W: Write>(st: &mut CoderState, w: &mut W, op: &Op) -> Result<(), Error> {
    enc_on(&mut Encoder::new(st, w), op)
}

pub fn enc_on<W: Write>(e: &mut Encoder<W>, op: &Op) -> Result<(), Error> {
    use ScalarValue as V;
    match op {
        Op::Scalar(s) => match *s {
            V::U8(n) => e.encode_u8(n),
            V::U16(n) => e.encode_u16(n),
            V::U32(n) => e.encode_u32(n),
            V::U64(n) => e.encode_u64(n),
            V::U128(n) => e.encode_u128(n),
            V::I8(n) => e.encode_i8(n),
            V::I16(n) => e.encode_i16(n),
            V::I32(n) => e.encode_i32(n),
            V::I64(n) => e.encode_i64(n),
            V::I128(n) => e.encode_i128(n),
            V::F32(n) => e.encode_f32(n),
            V::F64(n) => e.encode_f64(n),
            V::Char(n) => e.encode_char(n),
            V::Bool(n) => e.encode_bool(n),
        },
        Op::Str(s) => e.encode_str(s),
        Op::Bytes(s) => e.encode_bytes(s),
        Op::Unit => e.encode_unit(),
        Op::None => e.encode_none(),
        Op::Some => e.begin_some(),
        Op::FixedSeq(n) => e.begin_fixed_len_seq(*n),
        Op::VarSeq(n) => e.begin_var_len_seq(*n),
        Op::SeqElem => e.begin_seq_elem(),
        Op::FinSeq => e.finish_seq(),
        Op::Tuple => e.begin_tuple(),
        Op::TupleElem => e.begin_tuple_elem(),
        Op::FinTuple => e.finish_tuple(),
        Op::Struct => e.begin_struct(),
        Op::Field(n) => e.begin_struct_field(n),
        Op::FinStruct => e.finish_struct(),
        Op::Enum(o, n) => e.begin_enum(*o, n),
        Op::Option | Op::EnumOrd | Op::EnumName(_) => panic!("monitor: decoder op on encoder"),
    }
}

/// Make one decoder call.
pub fn dec_op<R: Read>(st: &mut CoderState, r: &mut R, op: &Op) -> Result<Got, Error> {
    dec_on(&mut Decoder::new(st, r), op)
}

/// A `String` which is not UTF-8 is undefined behaviour; its first user would
/// fall over it somewhere. (Panics in calls of the library are violations.)
pub fn sound_str<S: AsRef<str>>(s: S) -> S {
    if std::str::from_utf8(std::hint::black_box(s.as_ref().as_bytes())).is_err() {
        panic!("the library made a str which is not UTF-8");
    }
    s
}

/// `Value::decode_from`, every string in it looked at.
pub fn value_from<R: Read>(d: &mut Decoder<R>) -> Result<Value, Error> {
    fn look(v: &Value) {
        match v {
            Value::Str(s) => drop(sound_str(s)),
            Value::Option(Some(x)) => look(x),
            Value::FixedLenSeq(x) | Value::VarLenSeq(x) | Value::Tuple(x) => x.iter().for_each(look),
            Value::Struct(x) => x.iter().for_each(|x| look(&x.value)),
            Value::Enum(x) => look(&x.value),
            _ => {}
        }
    }
    let v = Value::decode_from(d)?;
    look(&v);
    Ok(v)
}

pub fn dec_on<R: Read>(d: &mut Decoder<R>, op: &Op) -> Result<Got, Error> {
    use ScalarValue as V;
    Ok(match op {
        Op::Scalar(s) => Got::Scalar(match s {
            V::U8(_) => V::U8(d.decode_u8()?),
            V::U16(_) => V::U16(d.decode_u16()?),
            V::U32(_) => V::U32(d.decode_u32()?),
            V::U64(_) => V::U64(d.decode_u64()?),
            V::U128(_) => V::U128(d.decode_u128()?),
            V::I8(_) => V::I8(d.decode_i8()?),
            V::I16(_) => V::I16(d.decode_i16()?),
            V::I32(_) => V::I32(d.decode_i32()?),
            V::I64(_) => V::I64(d.decode_i64()?),
            V::I128(_) => V::I128(d.decode_i128()?),
            V::F32(_) => V::F32(d.decode_f32()?),
            V::F64(_) => V::F64(d.decode_f64()?),
            V::Char(_) => V::Char(d.decode_char()?),
            V::Bool(_) => V::Bool(d.decode_bool()?),
        }),
        Op::Str(_) => Got::Str(sound_str(d.decode_str()?)),
        Op::Bytes(_) => Got::Bytes(d.decode_bytes()?),
        Op::Unit => {
            d.decode_unit()?;
            Got::Nothing
        }
        Op::Option => Got::Opt(d.begin_option()?),
        Op::FixedSeq(n) => {
            d.begin_fixed_len_seq(*n)?;
            Got::Nothing
        }
        Op::VarSeq(_) => Got::Len(d.begin_var_len_seq()?),
        Op::SeqElem => {
            d.begin_seq_elem()?;
            Got::Nothing
        }
        Op::FinSeq => {
            d.finish_seq()?;
            Got::Nothing
        }
        Op::Tuple => {
            d.begin_tuple()?;
            Got::Nothing
        }
        Op::TupleElem => {
            d.begin_tuple_elem()?;
            Got::Nothing
        }
        Op::FinTuple => {
            d.finish_tuple()?;
            Got::Nothing
        }
        Op::Struct => {
            d.begin_struct()?;
            Got::Nothing
        }
        Op::Field(n) => {
            d.begin_struct_field(n)?;
            Got::Nothing
        }
        Op::FinStruct => {
            d.finish_struct()?;
            Got::Nothing
        }
        Op::EnumOrd => Got::Ord(d.begin_enum()?),
        Op::EnumName(n) => {
            d.begin_enum_variant(n)?;
            Got::Nothing
        }
        Op::None | Op::Some | Op::Enum(..) => panic!("monitor: encoder op on decoder"),
    })
}

/// The calls that encode `v`.
pub fn enc_script(v: &Value, out: &mut Vec<Op>) {
    match v {
        Value::Scalar(s) => out.push(Op::Scalar(*s)),
        Value::Str(s) => out.push(Op::Str(s.clone())),
        Value::Bytes(s) => out.push(Op::Bytes(s.clone())),
        Value::Unit => out.push(Op::Unit),
        Value::Option(None) => out.push(Op::None),
        Value::Option(Some(v)) => {
            out.push(Op::Some);
            enc_script(v, out);
        }
        Value::FixedLenSeq(vs) | Value::VarLenSeq(vs) => {
            out.push(if matches!(v, Value::FixedLenSeq(_)) { Op::FixedSeq(vs.len()) } else { Op::VarSeq(vs.len()) });
            for v in vs {
                out.push(Op::SeqElem);
                enc_script(v, out);
            }
            out.push(Op::FinSeq);
        }
        Value::Tuple(vs) => {
            out.push(Op::Tuple);
            for v in vs {
                out.push(Op::TupleElem);
                enc_script(v, out);
            }
            out.push(Op::FinTuple);
        }
        Value::Struct(vs) => {
            out.push(Op::Struct);
            for f in vs {
                out.push(Op::Field(f.name.clone()));
                enc_script(&f.value, out);
            }
            out.push(Op::FinStruct);
        }
        Value::Enum(e) => {
            out.push(Op::Enum(e.variant_ord, e.variant_name.clone()));
            enc_script(&e.value, out);
        }
    }
}

/// The calls that decode `v`, with what each must return.
pub fn dec_script(v: &Value, out: &mut Vec<(Op, Got)>) {
    let n = Got::Nothing;
    match v {
        Value::Scalar(s) => out.push((Op::Scalar(*s), Got::Scalar(*s))),
        Value::Str(s) => out.push((Op::Str(String::new()), Got::Str(s.clone()))),
        Value::Bytes(s) => out.push((Op::Bytes(vec![]), Got::Bytes(s.clone()))),
        Value::Unit => out.push((Op::Unit, n)),
        Value::Option(None) => out.push((Op::Option, Got::Opt(false))),
        Value::Option(Some(v)) => {
            out.push((Op::Option, Got::Opt(true)));
            dec_script(v, out);
        }
        Value::FixedLenSeq(vs) | Value::VarLenSeq(vs) => {
            out.push(if matches!(v, Value::FixedLenSeq(_)) {
                (Op::FixedSeq(vs.len()), n.clone())
            } else {
                (Op::VarSeq(0), Got::Len(vs.len()))
            });
            for v in vs {
                out.push((Op::SeqElem, n.clone()));
                dec_script(v, out);
            }
            out.push((Op::FinSeq, n));
        }
        Value::Tuple(vs) => {
            out.push((Op::Tuple, n.clone()));
            for v in vs {
                out.push((Op::TupleElem, n.clone()));
                dec_script(v, out);
            }
            out.push((Op::FinTuple, n));
        }
        Value::Struct(vs) => {
            out.push((Op::Struct, n.clone()));
            for f in vs {
                out.push((Op::Field(f.name.clone()), n.clone()));
                dec_script(&f.value, out);
            }
            out.push((Op::FinStruct, n));
        }
        Value::Enum(e) => {
            out.push((Op::EnumOrd, Got::Ord(e.variant_ord)));
            out.push((Op::EnumName(e.variant_name.clone()), n));
            dec_script(&e.value, out);
        }
    }
}

/// Some call, made up without regard to the state.
pub fn wild_op(r: &mut Rng, decoder: bool) -> Op {
    match r.below(18) {
        0 | 1 => {
            let st = gen::scalar_ty(r);
            Op::Scalar(gen::scalar(r, st))
        }
        2 => Op::Str(r.string(4)),
        3 => Op::Bytes(r.bytes(4)),
        4 => Op::Unit,
        5 if decoder => Op::Option,
        5 => Op::None,
        6 if decoder => Op::Option,
        6 => Op::Some,
        7 => Op::FixedSeq(r.below(4)),
        8 => Op::VarSeq(r.below(4)),
        9 => Op::SeqElem,
        10 => Op::FinSeq,
        11 => Op::Tuple,
        12 => Op::TupleElem,
        13 => Op::FinTuple,
        14 => Op::Struct,
        15 => Op::Field(gen::name(r, false)),
        16 => Op::FinStruct,
        _ if decoder => {
            if r.chance(1, 2) {
                Op::EnumOrd
            } else {
                Op::EnumName(gen::name(r, false))
            }
        }
        _ => Op::Enum(r.below(5), gen::name(r, false)),
    }
}

/// A different name, close to the right one.
pub fn other_name(r: &mut Rng, n: &str) -> String {
    let mut c = match r.below(8) {
        5 => format!("x{}", n),
        6 => {
            // another character in one place
            let mut v: Vec<char> = n.chars().collect();
            if !v.is_empty() {
                let k = if r.chance(1, 2) { v.len() - 1 } else { r.below(v.len()) };
                v[k] = if v[k].is_ascii_alphabetic() && r.chance(1, 2) { (v[k] as u8 ^ 32) as char } else { r.ch() };
            }
            v.into_iter().collect()
        }
        7 => format!("{}{}", n, ["\0", " ", "\u{301}", "#"][r.below(4)]),
        0 => format!("{}x", n),
        1 => {
            let mut s = n.to_string();
            s.pop();
            s
        }
        2 => n.to_uppercase(),
        3 => format!("r#{}", n),
        _ => gen::name(r, false),
    };
    if c == n {
        c.push('_');
    }
    c
}

/// A call that is close to being right in this state, but possibly wrong.
pub fn near_op(r: &mut Rng, m: &Model, decoder: bool) -> Op {
    let f = match m.top() {
        Some(f) => f,
        None => return wild_op(r, decoder),
    };
    if r.chance(1, 5) {
        return wild_op(r, decoder);
    }
    let off = |r: &mut Rng, n: usize| -> usize {
        match r.below(5) {
            0 => n.wrapping_add(1),
            1 => n.wrapping_sub(1),
            2 => n.wrapping_add(256),
            3 => n ^ 1 << r.below(usize::BITS as usize),
            _ => r.below(6),
        }
    };
    match (f.st, m.t.kind(f.node)) {
        (St::Need, Kind::Scalar(_)) => {
            let st = gen::scalar_ty(r);
            Op::Scalar(gen::scalar(r, st))
        }
        (St::Need, Kind::Str) => Op::Bytes(r.bytes(3)),
        (St::Need, Kind::Bytes) => Op::Str(r.string(3)),
        (St::Need, Kind::Unit) => {
            if r.chance(1, 2) {
                Op::Tuple
            } else {
                Op::Struct
            }
        }
        (St::Need, Kind::Option(i)) => {
            // code the inner value directly
            match m.t.resolve(*i).map(|x| m.t.kind(x).clone()) {
                Some(Kind::Scalar(st)) => Op::Scalar(gen::scalar(r, st)),
                Some(Kind::Str) => Op::Str(r.string(3)),
                _ => wild_op(r, decoder),
            }
        }
        (St::Need, Kind::Seq(Some(n), _)) => {
            if r.chance(1, 3) {
                Op::VarSeq(*n)
            } else {
                Op::FixedSeq(off(r, *n))
            }
        }
        (St::Need, Kind::Seq(None, _)) => {
            if r.chance(1, 2) {
                Op::FixedSeq(r.below(4))
            } else {
                Op::Tuple
            }
        }
        (St::Need, Kind::Tuple(v)) => match r.below(3) {
            0 => Op::FixedSeq(v.len()),
            1 => Op::Struct,
            _ => Op::TupleElem,
        },
        (St::Need, Kind::Struct(v)) => match r.below(3) {
            0 => Op::Tuple,
            1 if !v.is_empty() => Op::Field(v[0].0.clone()),
            _ => Op::FinStruct,
        },
        (St::Need, Kind::Enum(v)) if !decoder => {
            let k = r.below(v.len().max(1));
            let n = v.get(k).map(|x| x.0.clone()).unwrap_or_default();
            match r.below(3) {
                0 => {
                    let o = other_name(r, &n);
                    Op::Enum(k, o)
                }
                1 => Op::Enum(off(r, k), n),
                _ => Op::Enum(v.len(), n),
            }
        }
        (St::Need, Kind::Enum(v)) => {
            let n = v.first().map(|x| x.0.clone()).unwrap_or_default();
            Op::EnumName(n)
        }
        (St::Seq { .. }, Kind::Seq(_, i)) => match r.below(5) {
            0 => Op::SeqElem,
            1 => Op::FinSeq,
            2 => Op::TupleElem,
            3 => Op::FinTuple,
            _ => match m.t.resolve(*i).map(|x| m.t.kind(x).clone()) {
                Some(Kind::Scalar(st)) => Op::Scalar(gen::scalar(r, st)),
                _ => Op::Unit,
            },
        },
        (St::Tuple { next }, Kind::Tuple(v)) => match r.below(5) {
            0 => Op::TupleElem,
            1 => Op::FinTuple,
            2 => Op::SeqElem,
            3 => Op::FinStruct,
            _ => match v.get(next).and_then(|i| m.t.resolve(*i)).map(|x| m.t.kind(x).clone()) {
                Some(Kind::Scalar(st)) => Op::Scalar(gen::scalar(r, st)),
                _ => Op::Unit,
            },
        },
        (St::Struct { next }, Kind::Struct(v)) => match r.below(6) {
            0 => Op::FinStruct,
            1 => Op::FinTuple,
            2 => Op::TupleElem,
            3 if !v.is_empty() => {
                // some other field of this struct
                let k = r.below(v.len());
                Op::Field(v[k].0.clone())
            }
            4 => {
                let n = v.get(next).map(|x| x.0.clone()).unwrap_or_default();
                Op::Field(other_name(r, &n))
            }
            _ => match v.get(next).and_then(|i| m.t.resolve(i.1)).map(|x| m.t.kind(x).clone()) {
                Some(Kind::Scalar(st)) => Op::Scalar(gen::scalar(r, st)),
                _ => Op::Unit,
            },
        },
        (St::EnumNamed { ord }, Kind::Enum(v)) => match r.below(4) {
            0 => Op::EnumOrd,
            1 => {
                let k = r.below(v.len());
                Op::EnumName(v[k].0.clone())
            }
            2 => Op::EnumName(other_name(r, &v[ord].0)),
            _ => match m.t.resolve(v[ord].1).map(|x| m.t.kind(x).clone()) {
                Some(Kind::Scalar(st)) => Op::Scalar(gen::scalar(r, st)),
                _ => Op::Unit,
            },
        },
        _ => wild_op(r, decoder),
    }
}

/// A right call in this state; None if the coder has finished. `finish`
/// steers towards the end.
pub fn right_op(r: &mut Rng, m: &Model, cost: &[u64], finish: bool, decoder: bool) -> Option<Op> {
    let f = m.top()?;
    Some(match (f.st, m.t.kind(f.node)) {
        (St::Need, k) => match k {
            Kind::Scalar(st) => Op::Scalar(gen::scalar(r, *st)),
            Kind::Str => Op::Str(r.string(5)),
            Kind::Bytes => Op::Bytes(r.bytes(5)),
            Kind::Unit => Op::Unit,
            Kind::Option(_) if decoder => Op::Option,
            Kind::Option(i) => {
                if !finish && cost[*i] < INF && r.chance(2, 3) {
                    Op::Some
                } else {
                    Op::None
                }
            }
            Kind::Seq(Some(n), _) => Op::FixedSeq(*n),
            Kind::Seq(None, i) => {
                Op::VarSeq(if finish || cost[*i] >= INF {
                    0
                } else if !decoder && r.chance(1, 50) {
                    // more than can ever be coded
                    r.num(usize::BITS) as usize
                } else {
                    r.below(4)
                })
            }
            Kind::Tuple(_) => Op::Tuple,
            Kind::Struct(_) => Op::Struct,
            Kind::Enum(_) if decoder => Op::EnumOrd,
            Kind::Enum(v) => {
                if v.is_empty() {
                    return Option::None;
                }
                let best = (0..v.len()).min_by_key(|&k| cost[v[k].1]).unwrap();
                let mut k = if finish { best } else { r.below(v.len()) };
                if cost[v[k].1] >= INF {
                    k = best;
                }
                Op::Enum(k, v[k].0.clone())
            }
            Kind::Recurse(_) => return Option::None,
        },
        (St::Seq { len, next }, _) => {
            if next < len {
                Op::SeqElem
            } else {
                Op::FinSeq
            }
        }
        (St::Tuple { next }, Kind::Tuple(v)) => {
            if next < v.len() {
                Op::TupleElem
            } else {
                Op::FinTuple
            }
        }
        (St::Struct { next }, Kind::Struct(v)) => {
            if next < v.len() {
                Op::Field(v[next].0.clone())
            } else {
                Op::FinStruct
            }
        }
        (St::EnumNamed { ord }, Kind::Enum(v)) => Op::EnumName(v[ord].0.clone()),
        x => unreachable!("model: {:?}", x),
    })
}

pub fn rej_matches(j: Rej, k: ErrorKind) -> bool {
    match j {
        Rej::Snc => k == ErrorKind::SchemaNonConformance,
        Rej::Api => k == ErrorKind::ApiUsage,
        Rej::Either => matches!(k, ErrorKind::SchemaNonConformance | ErrorKind::ApiUsage),
    }
}

pub fn derr_matches(d: DErr, k: ErrorKind) -> bool {
    match d {
        DErr::Eof => k == ErrorKind::Io,
        DErr::Malformed => k == ErrorKind::MalformedData,
        DErr::EofMalformed => matches!(k, ErrorKind::Io | ErrorKind::MalformedData),
        DErr::Platform => k == ErrorKind::PlatformLimits,
        DErr::Illegal => k == ErrorKind::IllegalSchema,
        DErr::Uninhabited => matches!(k, ErrorKind::MalformedData | ErrorKind::IllegalSchema),
        DErr::Unspecified | DErr::Budget => true,
    }
}

pub fn is_fatal(k: ErrorKind) -> bool {
    matches!(k, ErrorKind::Io | ErrorKind::MalformedData | ErrorKind::PlatformLimits | ErrorKind::IllegalSchema)
}

/// Do the finished reports and `need` agree with the model? Returns what is
/// wrong.
pub fn reports(st: &mut CoderState, m: &Model) -> Option<(String, String)> {
    let fin = st.is_finished();
    if fin != m.finished() {
        return Some(("is_finished".into(), format!("is_finished() = {}, model says {}", fin, m.finished())));
    }
    // (an error comes with the text of the whole stack: far down, not after every call)
    thread_local!(static ASKED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
    let asked = ASKED.with(|a| {
        a.set(a.get() + 1);
        a.get()
    });
    let dear = m.stack.len() > 150 && asked % 29 != 0;
    if dear && (m.broken || m.need().is_none()) {
        return None;
    }
    let or_err = if dear { Ok(()) } else { st.is_finished_or_err() };
    match or_err {
        Ok(()) if dear => {}
        Ok(()) if !m.finished() => return Some(("is_finished_or_err".into(), "Ok but not finished".into())),
        Err(e) if m.finished() => {
            return Some(("is_finished_or_err".into(), format!("error though finished: {}", e)))
        }
        Err(e) if e.kind() != ErrorKind::ApiUsage => {
            return Some(("is_finished_or_err-kind".into(), format!("kind {:?}", e.kind())))
        }
        _ => {}
    }
    if m.broken {
        return None;
    }
    let mut sink = Vec::<u8>::new();
    let e = Encoder::new(st, &mut sink);
    let need: Result<&Schema, Error> = e.need();
    match (need, m.need()) {
        (Ok(s), Some(id)) => {
            if let Kind::Recurse(_) = m.t.kind(id) {
                return Some(("need-illegal".into(), format!("need() = {:?} for an illegal root", s)));
            }
            // compare the outline first: schemas can be large
            if *s != m.t.schema(id) {
                return Some(("need".into(), format!("need() = {:?}, model {:?}", s, m.t.schema(id))));
            }
        }
        (Err(e), None) => {
            if e.kind() != ErrorKind::ApiUsage {
                return Some(("need-kind".into(), format!("need() fails with {:?} while nothing is needed", e.kind())));
            }
        }
        (Err(e), Some(id)) => {
            if !matches!(m.t.kind(id), Kind::Recurse(_)) {
                return Some(("need-refused".into(), format!("need() fails: {}", e)));
            }
            if e.kind() != ErrorKind::IllegalSchema {
                return Some(("need-illegal-kind".into(), format!("need() fails with {:?}", e.kind())));
            }
        }
        (Ok(s), None) => {
            return Some(("need-ok".into(), format!("need() = {:?} while nothing is needed", s)));
        }
    }
    None
}

pub fn outline(s: &Schema) -> String {
    let x = format!("{:?}", s);
    if x.len() > 500 {
        let mut i = 500;
        while !x.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}...", &x[..i])
    } else {
        x
    }
}
