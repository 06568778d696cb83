//! C28: coding element by element costs no memory per element.

use crate::{alloc, api::*, check, dyns::*, gen, model::*, run::*, session::*};
use binschema::{
    error::Error,
    schema,
    value::{ScalarValue, Value},
    CoderState, CoderStateAlloc, Decoder, Encoder, Schema, SeqSchema,
};
use serde::{
    de::{DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor},
    ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, Serializer},
    Deserialize, Serialize,
};
use std::{
    fmt,
    io::{self, Read, Write},
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Wrap {
    Some,
    Tuple,
    Struct,
    Enum,
    One,
}

fn wrap_schema(w: Wrap, x: Schema) -> Schema {
    match w {
        Wrap::Some => schema!(option(%x)),
        Wrap::Tuple => schema!(tuple { (u8), (%x), (str) }),
        Wrap::Struct => schema!(struct { (a: u8), (x: %x), (z: bool) }),
        Wrap::Enum => schema!(enum { A(unit), X(%x) }),
        Wrap::One => schema!(seq(varlen)(%x)),
    }
}

/// Calls before and after the content.
fn wrap_calls(w: Wrap, dec: bool) -> (Vec<(Op, Got)>, Vec<(Op, Got)>) {
    let n = || Got::Nothing;
    let sc = |s: ScalarValue| (Op::Scalar(s), if dec { Got::Scalar(s) } else { Got::Nothing });
    match w {
        Wrap::Some if dec => (vec![(Op::Option, Got::Opt(true))], vec![]),
        Wrap::Some => (vec![(Op::Some, n())], vec![]),
        Wrap::Tuple => (
            vec![(Op::Tuple, n()), (Op::TupleElem, n()), sc(ScalarValue::U8(7)), (Op::TupleElem, n())],
            vec![
                (Op::TupleElem, n()),
                if dec { (Op::Str(String::new()), Got::Str("end".into())) } else { (Op::Str("end".into()), n()) },
                (Op::FinTuple, n()),
            ],
        ),
        Wrap::Struct => (
            vec![(Op::Struct, n()), (Op::Field("a".into()), n()), sc(ScalarValue::U8(8)), (Op::Field("x".into()), n())],
            vec![(Op::Field("z".into()), n()), sc(ScalarValue::Bool(true)), (Op::FinStruct, n())],
        ),
        Wrap::Enum if dec => (vec![(Op::EnumOrd, Got::Ord(1)), (Op::EnumName("X".into()), n())], vec![]),
        Wrap::Enum => (vec![(Op::Enum(1, "X".into()), n())], vec![]),
        Wrap::One => (
            vec![if dec { (Op::VarSeq(0), Got::Len(1)) } else { (Op::VarSeq(1), n()) }, (Op::SeqElem, n())],
            vec![(Op::FinSeq, n())],
        ),
    }
}

fn wrap_bytes(w: Wrap) -> (Vec<u8>, Vec<u8>) {
    match w {
        Wrap::Some => (vec![1], vec![]),
        Wrap::Tuple => (vec![7], b"\x03end".to_vec()),
        Wrap::Struct => (vec![8], vec![1]),
        Wrap::Enum => (vec![1], vec![]),
        Wrap::One => (vec![1], vec![]),
    }
}

/// Takes bytes and keeps none.
struct Sink {
    n: usize,
    hash: u64,
}

impl Sink {
    fn new() -> Sink {
        Sink { n: 0, hash: 0xcbf29ce484222325 }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        for &x in b {
            self.hash = (self.hash ^ x as u64).wrapping_mul(0x100000001b3);
        }
        self.n += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Makes bytes up as they are read: `pre`, `cycle` so many times, `post`.
struct Source<'a> {
    pre: &'a [u8],
    cycle: &'a [u8],
    times: usize,
    post: &'a [u8],
    pos: usize,
}

impl<'a> Source<'a> {
    fn len(&self) -> usize {
        self.pre.len() + self.cycle.len() * self.times + self.post.len()
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let (a, c) = (self.pre.len(), self.cycle.len() * self.times);
        let from: &[u8] = if self.pos < a {
            &self.pre[self.pos..]
        } else if self.pos < a + c {
            &self.cycle[(self.pos - a) % self.cycle.len()..]
        } else {
            &self.post[(self.pos - a - c).min(self.post.len())..]
        };
        let n = b.len().min(from.len());
        b[..n].copy_from_slice(&from[..n]);
        self.pos += n;
        Ok(n)
    }
}

/// Serializes the cycle of elements so many times, one at a time.
struct Lazy<'a> {
    wraps: &'a [Wrap],
    elems: &'a [Ds],
    times: usize,
    map: bool,
    fixed: bool,
}

impl<'a> Lazy<'a> {
    fn inner(&self) -> Lazy<'a> {
        Lazy { wraps: &self.wraps[1..], ..*self }
    }
}

impl<'a> Serialize for Lazy<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.wraps.first() {
            Some(Wrap::Some) => s.serialize_some(&self.inner()),
            Some(Wrap::Tuple) => {
                let mut t = s.serialize_tuple(3)?;
                t.serialize_element(&7u8)?;
                t.serialize_element(&self.inner())?;
                t.serialize_element("end")?;
                t.end()
            }
            Some(Wrap::Struct) => {
                let mut t = s.serialize_struct("W", 3)?;
                t.serialize_field("a", &8u8)?;
                t.serialize_field("x", &self.inner())?;
                t.serialize_field("z", &true)?;
                t.end()
            }
            Some(Wrap::Enum) => s.serialize_newtype_variant("W", 1, "X", &self.inner()),
            Some(Wrap::One) => {
                let mut t = s.serialize_seq(Some(1))?;
                t.serialize_element(&self.inner())?;
                t.end()
            }
            None => {
                let n = self.elems.len() * self.times;
                if self.map {
                    let mut t = s.serialize_map(Some(n))?;
                    for _ in 0..self.times {
                        for e in self.elems {
                            match e {
                                Ds::Tuple(_, p) => t.serialize_entry(&p[0], &p[1])?,
                                _ => unreachable!(),
                            }
                        }
                    }
                    t.end()
                } else {
                    let mut t = s.serialize_seq(if self.fixed { None } else { Some(n) })?;
                    for _ in 0..self.times {
                        for e in self.elems {
                            t.serialize_element(e)?;
                        }
                    }
                    t.end()
                }
            }
        }
    }
}

/// Visits the elements one at a time and keeps none.
#[derive(Clone, Copy)]
struct Drain<'a> {
    wraps: &'a [Wrap],
    map: bool,
    /// what each element is taken as
    how: usize,
    seen: &'a std::cell::Cell<usize>,
}

impl<'a> Drain<'a> {
    fn inner(&self) -> Drain<'a> {
        Drain { wraps: &self.wraps[1..], ..*self }
    }
}

impl<'a, 'd> DeserializeSeed<'d> for Drain<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<(), D::Error> {
        match self.wraps.first() {
            Some(Wrap::Some) => d.deserialize_option(self),
            Some(Wrap::Tuple) => d.deserialize_tuple(3, self),
            Some(Wrap::Struct) => d.deserialize_struct("W", &["a", "x", "z"], self),
            Some(Wrap::Enum) => d.deserialize_enum("W", &["A", "X"], self),
            Some(Wrap::One) => d.deserialize_seq(self),
            None if self.map => d.deserialize_map(self),
            None => d.deserialize_seq(self),
        }
    }
}

struct Part(usize);

impl<'d> DeserializeSeed<'d> for Part {
    type Value = ();
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<(), D::Error> {
        match self.0 {
            0 => IgnoredAny::deserialize(d).map(|_| ()),
            _ => Seed(&Sh::Any).deserialize(d).map(|_| ()),
        }
    }
}

impl<'a, 'd> Visitor<'d> for Drain<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a stream")
    }
    fn visit_some<D: Deserializer<'d>>(self, d: D) -> Result<(), D::Error> {
        self.inner().deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<(), A::Error> {
        match self.wraps.first() {
            Some(Wrap::Tuple) => {
                a.next_element::<u8>()?;
                a.next_element_seed(self.inner())?;
                a.next_element_seed(Part(0))?;
            }
            Some(_) => {
                a.next_element_seed(self.inner())?;
            }
            None => {
                while a.next_element_seed(Part(self.how))?.is_some() {
                    self.seen.set(self.seen.get() + 1);
                }
            }
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<(), A::Error> {
        if let Some(Wrap::Struct) = self.wraps.first() {
            for i in 0..3 {
                a.next_key_seed(Part(0))?;
                if i == 1 {
                    a.next_value_seed(self.inner())?;
                } else {
                    a.next_value_seed(Part(0))?;
                }
            }
            return Ok(());
        }
        while a.next_key_seed(Part(self.how))?.is_some() {
            a.next_value_seed(Part(self.how))?;
            self.seen.set(self.seen.get() + 1);
        }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'d>>(self, a: A) -> Result<(), A::Error> {
        let ((), va) = a.variant_seed(Part(0))?;
        va.newtype_variant_seed(self.inner())
    }
}

const WAYS: &[&str] = &[
    "encoder calls",
    "encoding dynamic values one by one",
    "serializing",
    "decoder calls",
    "decoding dynamic values one by one",
    "deserializing, elements ignored",
    "deserializing, elements taken",
    "ignoring all",
];

struct Stream {
    wraps: Vec<Wrap>,
    inner: Tree,
    elems: Vec<Value>,
    /// the cycle in several forms
    ds: Vec<Ds>,
    enc: Vec<Vec<Op>>,
    dec: Vec<Vec<(Op, Got)>>,
    cycle: Vec<u8>,
    fixed: bool,
    map: bool,
    log: bool,
}

impl Stream {
    fn schema(&self, n: usize) -> Schema {
        let mut s = Schema::Seq(SeqSchema { len: if self.fixed { Some(n) } else { None }, inner: Box::new(self.inner.schema(0)) });
        for &w in self.wraps.iter().rev() {
            s = wrap_schema(w, s);
        }
        s
    }

    fn bytes(&self, n: usize) -> (Vec<u8>, Vec<u8>) {
        let (mut pre, mut post) = (vec![], vec![]);
        for &w in &self.wraps {
            let (a, b) = wrap_bytes(w);
            pre.extend(a);
            post.splice(0..0, b);
        }
        if !self.fixed {
            put_uint(&mut pre, n as u128);
        }
        (pre, post)
    }

    /// Codes the stream and returns the peak of memory above the start, and
    /// what was still held when all was coded.
    fn run(&self, way: usize, times: usize, al: CoderStateAlloc) -> R<(isize, isize, CoderStateAlloc)> {
        let n = self.elems.len() * times;
        let s = self.schema(n);
        let (pre, post) = self.bytes(n);
        let dec = way >= 3;
        let (mut before, mut after) = (vec![], vec![]);
        for &w in &self.wraps {
            let (a, b) = wrap_calls(w, dec);
            before.extend(a);
            after.splice(0..0, b);
        }
        before.push(match (self.fixed, dec) {
            (true, _) => (Op::FixedSeq(n), Got::Nothing),
            (false, true) => (Op::VarSeq(0), Got::Len(n)),
            (false, false) => (Op::VarSeq(n), Got::Nothing),
        });
        after.insert(0, (Op::FinSeq, Got::Nothing));
        let mut sink = Sink::new();
        let mut src = Source { pre: &pre, cycle: &self.cycle, times, post: &post, pos: 0 };
        let seen = std::cell::Cell::new(0);
        let mut log = io::sink();
        let lz = Lazy { wraps: &self.wraps, elems: &self.ds, times, map: self.map, fixed: self.fixed };
        let dr = Drain { wraps: &self.wraps, map: self.map, how: if way == 5 { 0 } else { 1 }, seen: &seen };
        let at = alloc::snap();
        alloc::reset_peak();
        let mut st = lib("CoderState::new", || CoderState::new(&s, al, if self.log { Some(&mut log) } else { None }))?;
        let res: Result<(), Error> = lib(WAYS[way], || {
            if dec {
                let mut d = Decoder::new(&mut st, &mut src);
                match way {
                    3 | 4 => {
                        for (op, got) in &before {
                            assert!(dec_on(&mut d, op)? == *got);
                        }
                        for _ in 0..times {
                            for (e, v) in self.dec.iter().zip(&self.elems) {
                                d.begin_seq_elem()?;
                                if way == 4 {
                                    assert!(veq(&Value::decode_from(&mut d)?, v));
                                } else {
                                    for (op, got) in e {
                                        assert!(dec_on(&mut d, op)? == *got);
                                    }
                                }
                            }
                        }
                        for (op, got) in &after {
                            assert!(dec_on(&mut d, op)? == *got);
                        }
                        Ok(())
                    }
                    5 | 6 => dr.deserialize(&mut d),
                    _ => IgnoredAny::deserialize(&mut d).map(|_| ()),
                }
            } else {
                let mut e = Encoder::new(&mut st, &mut sink);
                if way == 2 {
                    return lz.serialize(&mut e);
                }
                for (op, _) in &before {
                    enc_on(&mut e, op)?;
                }
                for _ in 0..times {
                    for (ops, v) in self.enc.iter().zip(&self.elems) {
                        e.begin_seq_elem()?;
                        if way == 1 {
                            v.encode_to(&mut e)?;
                        } else {
                            for op in ops {
                                enc_on(&mut e, op)?;
                            }
                        }
                    }
                }
                for (op, _) in &after {
                    enc_on(&mut e, op)?;
                }
                Ok(())
            }
        })?;
        let (peak, _) = alloc::peak_over(&at);
        let held = alloc::snap().live_bytes - at.live_bytes;
        let fin = st.is_finished();
        let total = src.len();
        let pos = if dec { src.pos } else { sink.n };
        check!(
            res.is_ok() && fin && pos == total && (way < 5 || way == 7 || seen.get() == n),
            format!("stream:{}", WAYS[way]),
            "{} a stream of {} elements: {:?}, finished {}, {} of {} bytes, {} elements seen; schema {}",
            WAYS[way],
            n,
            res,
            fin,
            pos,
            total,
            seen.get(),
            outline(&s)
        );
        if !dec {
            let mut h = Sink::new();
            h.write_all(&pre).unwrap();
            for _ in 0..times {
                h.write_all(&self.cycle).unwrap();
            }
            h.write_all(&post).unwrap();
            check!(h.hash == sink.hash, format!("stream-bytes:{}", WAYS[way]), "{} wrote other bytes than documented; schema {}", WAYS[way], outline(&s));
        }
        Ok((peak, held, lib("into_alloc", || st.into_alloc())?))
    }
}

/// What may come on top for the length of the stream itself.
const SLACK: isize = 2048;

fn flat(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let small = gen::SGen { max_depth: 4, max_nodes: 10, wide: false, ..g };
    let (mut inner, mut t) = gen::good_schema(&mut cx.rng, small);
    let map = cx.rng.chance(1, 4);
    if map {
        inner = schema!(tuple { (u16), (%inner) });
        t = Tree::new(&inner);
        if !t.is_legal() {
            return Err(Fail::Skip("schema"));
        }
    }
    let k = cx.rng.range(1, 3);
    let cost = t.min_cost();
    let mut elems = vec![];
    for _ in 0..k {
        let mut b = *cx.rng.pick(&[1i64, 4, 12]);
        elems.push(gen::value_at(&mut cx.rng, &t, &cost, 0, &mut b));
    }
    let total: usize = elems.iter().map(vcount).sum();
    if total > 200 {
        return Err(Fail::Skip("large element"));
    }
    let mut ds = vec![];
    let mut cycle = vec![];
    let (mut es, mut dsc) = (vec![], vec![]);
    for v in &elems {
        ds.push(match v {
            Value::Tuple(p) if map => {
                let c = t.children(0);
                Ds::Tuple(2, vec![to_ds(&mut cx.rng, &t, c[0], &p[0]), to_ds(&mut cx.rng, &t, c[1], &p[1])])
            }
            _ => to_ds(&mut cx.rng, &t, 0, v),
        });
        cycle.extend(enc(&t, v).unwrap());
        let mut o = vec![];
        enc_script(v, &mut o);
        es.push(o);
        let mut o = vec![];
        dec_script(v, &mut o);
        dsc.push(o);
    }
    let wraps: Vec<Wrap> = (0..cx.rng.below(4))
        .map(|_| *cx.rng.pick(&[Wrap::Some, Wrap::Tuple, Wrap::Struct, Wrap::Enum, Wrap::One]))
        .collect();
    let st = Stream {
        wraps,
        inner: t,
        elems,
        ds,
        enc: es,
        dec: dsc,
        cycle,
        fixed: !map && cx.rng.chance(1, 3),
        map,
        log: cx.rng.chance(1, 8),
    };
    let way = cx.rng.below(WAYS.len());
    let work = *cx.rng.pick(&[10_000usize, 20_000, 60_000]);
    let times = (work / total.max(1)).max(2_000 / k);
    // (the first run may fill caches of the monitor and the program)
    let (_, _, a) = st.run(way, 4, CoderStateAlloc::new())?;
    let reuse = cx.rng.chance(1, 2);
    let (p1, h1, b) = st.run(way, 4, if reuse { a } else { CoderStateAlloc::new() })?;
    let (p2, h2, _) = st.run(way, times, if reuse { b } else { CoderStateAlloc::new() })?;
    let (n1, n2) = (4 * k, times * k);
    check!(
        p2 <= p1 + SLACK && h2 <= h1 + SLACK,
        format!("grows:{}", WAYS[way]),
        "{}: {} elements took {} bytes of memory at most and {} at the end, {} elements took {} and {}; schema {}",
        WAYS[way],
        n1,
        p1,
        h1,
        n2,
        p2,
        h2,
        outline(&st.schema(n2))
    );
    cx.count(WAYS[way], n2 as u64);
    cx.count("elements streamed", n2 as u64);
    cx.count("max: bytes held while streaming", p2.max(0) as u64);
    cx.sample(|| format!("{}: {} elements {} bytes, {} elements {} bytes of memory", WAYS[way], n1, p1, n2, p2));
    cx.nontrivial((way, &st.cycle, &st.wraps.len(), times));
    Ok(())
}

/// A retired allocation as deep as before spares a new one.
fn reuse(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    if vcount(&v) > 400 {
        return Err(Fail::Skip("large value"));
    }
    let dec = cx.rng.chance(1, 2);
    let mut ops = vec![];
    if dec {
        let mut o = vec![];
        dec_script(&v, &mut o);
        ops.extend(o.into_iter().map(|x| x.0));
    } else {
        enc_script(&v, &mut ops);
    }
    let _ = t;
    let go = |a: CoderStateAlloc, upto: usize| -> R<(usize, usize, CoderStateAlloc)> {
        let mut sink = Sink::new();
        let mut src: &[u8] = &b;
        let at = alloc::snap();
        let mut st = CoderState::new(&s, a, None);
        let mut ok = 0;
        lib("calls", || {
            for op in &ops[..upto] {
                ok += if dec { dec_op(&mut st, &mut src, op).is_ok() } else { enc_op(&mut st, &mut sink, op).is_ok() } as usize;
            }
        })?;
        let total = alloc::snap().total - at.total;
        Ok((total, ok, lib("into_alloc", || st.into_alloc())?))
    };
    let (_, ok, _) = go(CoderStateAlloc::new(), ops.len())?;
    if ok != ops.len() {
        return violation("reuse-calls", format!("{} of {} calls succeeded; {}", ok, ops.len(), outline(&s)));
    }
    // warmed by a whole session, or by one that was given up at the same depth
    let upto = ops.len();
    let (fresh, _, a) = go(CoderStateAlloc::new(), upto)?;
    // in between, smaller work
    let mut a = a;
    for _ in 0..cx.rng.below(3) {
        let small = schema!(u8);
        a = lib("reuse", || {
            let mut st = CoderState::new(&small, a, None);
            let mut w = Sink::new();
            let _ = Encoder::new(&mut st, &mut w).encode_u8(1);
            if w.n == 0 {
                let _ = Encoder::new(&mut st, &mut w).encode_bool(true);
            }
            st.into_alloc()
        })?;
    }
    let cut = cx.rng.chance(1, 3);
    if cut {
        a = go(a, cx.rng.below(upto + 1))?.2;
    }
    let (warm, _, _) = go(a, upto)?;
    check!(
        fresh == 0 || warm < fresh,
        "reuse-allocates",
        "{} calls on a fresh allocation took {} bytes, on one used for the same before {}; {}; schema {}",
        upto,
        fresh,
        warm,
        vshow(&v),
        outline(&s)
    );
    cx.count("sessions on reused allocations", 1);
    cx.count("bytes spared", (fresh - warm) as u64);
    Ok(())
}

/// Depth costs memory in proportion.
fn deep(cx: &mut Cx) -> R {
    let n = *cx.rng.pick(&[10usize, 100, 1000, 5000]);
    let kind = cx.rng.below(4);
    let s = match kind {
        0 => schema!(option(recurse(1))),
        1 => schema!(struct { (v: u8), (next: option(recurse(2))) }),
        2 => schema!(seq(varlen)(recurse(1))),
        _ => schema!(enum { End(unit), More(tuple { (recurse(2)), (u8) }) }),
    };
    let dec = cx.rng.chance(1, 2);
    let mut ops: Vec<Op> = vec![];
    let mut b: Vec<u8> = vec![];
    for i in 0..=n {
        let last = i == n;
        match kind {
            0 => {
                ops.push(if dec { Op::Option } else if last { Op::None } else { Op::Some });
                b.push(!last as u8);
            }
            1 => {
                ops.extend([Op::Struct, Op::Field("v".into()), Op::Scalar(ScalarValue::U8(9)), Op::Field("next".into())]);
                ops.push(if dec { Op::Option } else if last { Op::None } else { Op::Some });
                b.extend([9, !last as u8]);
            }
            2 => {
                ops.push(Op::VarSeq(!last as usize));
                if !last {
                    ops.push(Op::SeqElem);
                }
                b.push(!last as u8);
            }
            _ => {
                let name = if last { "End" } else { "More" };
                if dec {
                    ops.extend([Op::EnumOrd, Op::EnumName(name.into())]);
                } else {
                    ops.push(Op::Enum(!last as usize, name.into()));
                }
                if last {
                    ops.push(Op::Unit);
                } else {
                    ops.extend([Op::Tuple, Op::TupleElem]);
                }
                b.push(!last as u8);
            }
        }
    }
    // and out again
    match kind {
        1 => ops.extend((0..=n).map(|_| Op::FinStruct)),
        2 => ops.extend((0..=n).map(|_| Op::FinSeq)),
        3 => {
            for _ in 0..n {
                ops.extend([Op::TupleElem, Op::Scalar(ScalarValue::U8(4)), Op::FinTuple]);
                b.push(4);
            }
        }
        _ => {}
    }
    let mut sink = Sink::new();
    let mut src: &[u8] = &b;
    let at = alloc::snap();
    alloc::reset_peak();
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let bad = lib("deep calls", || {
        for (i, op) in ops.iter().enumerate() {
            let r = if dec { dec_op(&mut st, &mut src, op).map(|_| ()) } else { enc_op(&mut st, &mut sink, op) };
            if let Err(e) = r {
                return Some((i, e.inner().to_string()));
            }
        }
        None
    })?;
    let (peak, _) = alloc::peak_over(&at);
    check!(
        bad.is_none() && st.is_finished() && if dec { src.is_empty() } else { sink.n == b.len() },
        "deep-calls",
        "{} levels of {}: {:?}, finished {}",
        n,
        outline(&s),
        bad,
        st.is_finished()
    );
    // a struct, an option and an enum per level, and room for growing
    check!(
        peak <= 16384 + 1024 * n as isize,
        "deep-memory",
        "{} levels of {} took {} bytes",
        n,
        outline(&s),
        peak
    );
    cx.count("levels gone down", n as u64);
    cx.nontrivial((kind, n, dec));
    Ok(())
}

fn c28_case(cx: &mut Cx) -> R {
    if super::mem::plain() {
        return Err(Fail::Skip("no counting allocator"));
    }
    match cx.rng.below(16) {
        0..=3 => reuse(cx),
        4 => deep(cx),
        _ => flat(cx),
    }
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        quick: 48_000,
        thorough: 2_880_000,
        directed: vec![],
        case: c28_case,
        rule: "streams of thousands of elements, coded one at a time by calls, dynamic values and serde or ignored, from a reader \
               and into a writer that hold nothing, against a stream of a few elements of the same kind; calls on retired \
               allocations against fresh ones; deep values by calls. Distinct by way, elements and length",
    }
}
