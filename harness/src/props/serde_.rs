//! C12, C14, C15, C20, C22: the serde side. (C13 lives in generated programs.)

use crate::{api::*, check, dyns::*, gen, io::*, model::*, probe, probe::*, rng::Rng, run::*, session::*};
use binschema::{
    error::Error,
    schema,
    value::{EnumValue, ScalarValue, StructValueField, Value},
    CoderStateAlloc, Decoder, Encoder, EnumSchemaVariant, KnownSchema, RecurseStack, ScalarType, Schema, SeqSchema,
    StructSchemaField,
};
use serde::{de::IgnoredAny, Deserialize, Serialize};
use std::collections::*;

// ---- C12 ----

fn c12_case(cx: &mut Cx) -> R {
    let ts = probe::types();
    let t = cx.rng.pick(ts);
    (t.roundtrip)(cx)
}

fn c12_declared(cx: &mut Cx) -> R {
    for t in probe::types() {
        (t.declared)(cx)?;
    }
    Ok(())
}

fn c12_each(cx: &mut Cx) -> R {
    for t in probe::types() {
        for _ in 0..20 {
            (t.roundtrip)(cx)?;
        }
    }
    Ok(())
}

fn c12_unsized(cx: &mut Cx) -> R {
    let tree = |s: Schema| Tree::new(&s);
    let u8s = || Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Scalar(ScalarType::U8)) });
    let n8 = |n: u8| Value::Scalar(ScalarValue::U8(n));
    written::<str>(cx, "hé", Value::Str("hé".into()), &tree(Schema::Str))?;
    written::<str>(cx, "", Value::Str("".into()), &tree(Schema::Str))?;
    let long = "a".repeat(300);
    written::<str>(cx, &long, Value::Str(long.clone()), &tree(Schema::Str))?;
    for n in [0usize, 1, 2, 127, 128, 300] {
        let v: Vec<u8> = (0..n).map(|i| i as u8).collect();
        written::<[u8]>(cx, &v, Value::VarLenSeq(v.iter().map(|&x| n8(x)).collect()), &tree(u8s()))?;
    }
    written::<&u8>(cx, &&7, n8(7), &tree(Schema::Scalar(ScalarType::U8)))?;
    written::<&&u8>(cx, &&&7, n8(7), &tree(Schema::Scalar(ScalarType::U8)))?;
    written::<&mut u8>(cx, &&mut 9, n8(9), &tree(Schema::Scalar(ScalarType::U8)))?;
    written::<&Vec<u8>>(cx, &&vec![1, 2], Value::VarLenSeq(vec![n8(1), n8(2)]), &tree(u8s()))?;
    written::<Vec<&u8>>(cx, &vec![&1, &2], Value::VarLenSeq(vec![n8(1), n8(2)]), &tree(u8s()))?;
    written::<[&String]>(
        cx,
        &[&"x".to_string()],
        Value::VarLenSeq(vec![Value::Str("x".into())]),
        &tree(Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Str) })),
    )?;
    written::<Option<&()>>(
        cx,
        &Some(&()),
        Value::Option(Some(Box::new(Value::Unit))),
        &tree(Schema::Option(Box::new(Schema::Unit))),
    )?;
    written::<(&u8, &mut bool)>(
        cx,
        &(&3, &mut true),
        Value::Tuple(vec![n8(3), Value::Scalar(ScalarValue::Bool(true))]),
        &tree(Schema::Tuple(vec![Schema::Scalar(ScalarType::U8), Schema::Scalar(ScalarType::Bool)])),
    )?;
    let b = std::borrow::Cow::Borrowed(&5u8);
    written::<std::borrow::Cow<u8>>(cx, &b, n8(5), &tree(Schema::Scalar(ScalarType::U8)))?;
    Ok(())
}

/// Collections of more than a few elements: about where counters turn over
/// and beyond what a reader may set aside room for on a claim alone.
fn c12_large(cx: &mut Cx) -> R {
    if !gen::BIG {
        return Ok(());
    }
    for n in [127usize, 128, 255, 256, 257, 1023, 1025, 4095, 4096, 4097, 16383, 16385, 65535, 65536, 65537, 70_000] {
        let key = |i: usize| (i as u32).wrapping_mul(2654435761);
        roundtrip_of(cx, (0..n).map(|i| i as u8).collect::<Vec<u8>>())?;
        roundtrip_of(cx, (0..n).map(|i| i as u8).collect::<VecDeque<u8>>())?;
        roundtrip_of(cx, (0..n).map(|i| i as i16).collect::<LinkedList<i16>>())?;
        roundtrip_of(cx, (0..n).map(|i| key(i)).collect::<BTreeSet<u32>>())?;
        roundtrip_of(cx, (0..n).map(|i| key(i)).collect::<HashSet<u32>>())?;
        roundtrip_of(cx, (0..n).map(|i| key(i)).collect::<BinaryHeap<u32>>())?;
        roundtrip_of(cx, (0..n).map(|i| (key(i), i as u8)).collect::<BTreeMap<u32, u8>>())?;
        roundtrip_of(cx, (0..n).map(|i| (key(i), i % 3 == 0)).collect::<HashMap<u32, bool>>())?;
        roundtrip_of(cx, (0..n).map(|i| i.to_string()).collect::<Vec<String>>())?;
        roundtrip_of(cx, (0..n).map(|i| if i % 2 == 0 { None } else { Some(()) }).collect::<Vec<Option<()>>>())?;
        roundtrip_of(cx, vec![(); n])?;
        roundtrip_of(cx, "\u{e9}".repeat(n) + "x")?;
        let mut d: VecDeque<u32> = (0..n as u32).collect();
        d.rotate_left(n / 3);
        roundtrip_of(cx, d)?;
        roundtrip_of(cx, Some(Box::new((0..n).map(|i| i as u64).collect::<Vec<u64>>())))?;
        cx.count("collections of many elements", 14);
    }
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        quick: 1_500_000,
        thorough: 90_000_000,
        directed: vec![
            ("declared schemas", c12_declared),
            ("each type", c12_each),
            ("unsized and reference types", c12_unsized),
            ("large collections", c12_large),
        ],
        case: c12_case,
        rule: "a catalogue of std types and compositions; declared schema against an independent shape graph; arbitrary \
               values written, compared to the reference encoding, read back. Non-trivial: more than one node or byte; \
               distinct by type and bytes",
    }
}

/// The check of derived types; the types are those of a generated program.
pub fn c13_of(ops: &'static [probe::TypeOps], case: CaseFn) -> Prop {
    Prop {
        id: "C13",
        quick: 250_000,
        thorough: 15_000_000,
        directed: ops.iter().map(|t| (t.name, t.declared)).collect(),
        case,
        rule: "types of a generated program which derive their schema; derived schema against an independent shape graph; \
               arbitrary values written, compared to the reference encoding, read back. Non-trivial: more than one node or byte; \
               distinct by type and bytes",
    }
}

// ---- C30 ----

macro_rules! markers {
    ($($m:ident $n:literal)*) => {$(
        struct $m;
        impl KnownSchema for $m {
            fn schema(_: RecurseStack) -> Schema {
                Schema::Recurse($n)
            }
        }
    )*};
}
markers!(M0 100 M1 101 M2 102 M3 103);

/// A type that may be on a stack: its number, how it is put there (with a
/// level of its own, or without) and what the stack says about it.
type Marker = (
    for<'a> fn(RecurseStack<'a>, bool, &mut dyn FnMut(RecurseStack) -> R) -> R,
    for<'a> fn(RecurseStack<'a>) -> (Option<usize>, Option<Schema>),
);

/// How to put a type on the stack without a level of its own: that method is
/// not as old as the rest, so the generated program names it, if it is there.
pub trait Through {
    const THERE: bool;
    fn through<'b, T: KnownSchema>(s: &'b RecurseStack<'_>) -> RecurseStack<'b>;
}

pub struct NotThere;

impl Through for NotThere {
    const THERE: bool = false;
    fn through<'b, T: KnownSchema>(s: &'b RecurseStack<'_>) -> RecurseStack<'b> {
        s.with_type_layer::<T>()
    }
}

fn on_top<H: Through, T: KnownSchema>(s: RecurseStack, level: bool, then: &mut dyn FnMut(RecurseStack) -> R) -> R {
    if level {
        then(s.with_type_layer::<T>())
    } else {
        then(H::through::<T>(&s))
    }
}

fn ask<T: KnownSchema>(s: RecurseStack) -> (Option<usize>, Option<Schema>) {
    (s.find_type::<T>(), s.parent_recurse::<T>())
}

fn known_types<H: Through>() -> [Marker; 8] {
    [
        (on_top::<H, M0>, ask::<M0>),
        (on_top::<H, M1>, ask::<M1>),
        (on_top::<H, M2>, ask::<M2>),
        (on_top::<H, M3>, ask::<M3>),
        (on_top::<H, Option<M0>>, ask::<Option<M0>>),
        (on_top::<H, Vec<M0>>, ask::<Vec<M0>>),
        (on_top::<H, Vec<M1>>, ask::<Vec<M1>>),
        (on_top::<H, (M0, M1)>, ask::<(M0, M1)>),
    ]
}

/// The stack of parents against a list: each layer is a type with a level
/// (true), one without (false), or a level without a type.
pub fn c30_stack<H: Through>(cx: &mut Cx) -> R {
    fn go(r: &mut Rng, ms: &[Marker; 8], there: bool, s: RecurseStack, list: &mut Vec<(Option<usize>, bool)>, left: usize, n: &mut u64) -> R {
        for (k, m) in ms.iter().enumerate() {
            let (found, reference) = lib("asking the stack", || (m.1)(s))?;
            // the nearest, and the levels from what is put on top next
            let at = list.iter().rposition(|l| l.0 == Some(k));
            let level = at.map(|i| list[i..].iter().filter(|l| l.1).count());
            check!(
                reference == level.map(Schema::Recurse),
                "stack-reference",
                "parent_recurse of type {} is {:?}, not {:?}, under {:?}",
                k,
                reference,
                level,
                list
            );
            if list.iter().all(|l| l.1) {
                check!(found == level.map(|l| l - 1), "stack-find", "find_type of type {} is {:?}; level {:?}, under {:?}", k, found, level, list);
            } else {
                check!(found.is_some() == level.is_some(), "stack-find", "find_type of type {} is {:?}; level {:?}, under {:?}", k, found, level, list);
            }
            *n += 1;
        }
        lib("showing the stack", || format!("{:?}", s).len())?;
        if left == 0 {
            return Ok(());
        }
        // one way on, or several from the same stack
        for _ in 0..if left < 20 && r.chance(1, 6) { 2 } else { 1 } {
            if r.chance(1, 3) {
                list.push((None, true));
                go(r, ms, there, s.with_none_layer(), list, left - 1, n)?;
            } else {
                let k = r.below(ms.len());
                let level = !there || r.chance(4, 5);
                list.push((Some(k), level));
                (ms[k].0)(s, level, &mut |s| go(r, ms, there, s, list, left - 1, n))?;
            }
            list.pop();
        }
        Ok(())
    }
    let left = if cx.rng.chance(1, 200) { cx.rng.range(10, 400) } else { cx.rng.range(1, 10) };
    let mut n = 0;
    let mut list = vec![];
    let s = if cx.rng.chance(1, 2) { RecurseStack::new() } else { RecurseStack::default() };
    let mut r = Rng::new(cx.rng.u64());
    go(&mut r, &known_types::<H>(), H::THERE, s, &mut list, left, &mut n)?;
    cx.count("answers of the stack of parents", n);
    Ok(())
}

/// Types far up a deep stack of parents.
fn c30_far<H: Through>(cx: &mut Cx) -> R {
    let ms = known_types::<H>();
    let top: usize = if gen::BIG { 70_000 } else { 300 };
    /// The levels above the first layers; `want` is from the layer of each
    /// type, if it is on the stack.
    fn down<H: Through>(ms: &[Marker; 8], s: RecurseStack, depth: usize, top: usize, levels: usize, how: usize, n: &mut u64) -> R {
        if depth == top {
            return Ok(());
        }
        if depth < 8 || [126, 127, 128, 254, 255, 256, 257, 258, 299, 1000, 1024, 4096, 65534, 65535, 65536, 65537, 69_999].contains(&depth) {
            for (k, m) in ms.iter().enumerate() {
                let (found, reference) = lib("asking the stack", || (m.1)(s))?;
                // types 0 and 4 lie at the bottom, in this order
                let want = match k {
                    0 => Some(levels + 2),
                    4 => Some(levels + 1),
                    _ if how == k && depth > 0 => Some(1),
                    _ => None,
                };
                check!(reference == want.map(Schema::Recurse), "stack-far", "parent_recurse of type {} is {:?}, not {:?}, {} layers up ({})", k, reference, want, depth, how);
                check!(found.is_some() == want.is_some(), "stack-far", "find_type of type {} is {:?}, {:?} levels up", k, found, want);
                check!(how == 8 || found == want.map(|x| x - 1), "stack-far", "find_type of type {} is {:?}, {:?} levels up", k, found, want);
                *n += 1;
            }
        }
        match how {
            // every other layer is no level of its own
            8 if depth % 2 == 1 => H::through::<u8>(&s).pipe(|s| down::<H>(ms, s, depth + 1, top, levels + !H::THERE as usize, how, n)),
            8 | 0 => down::<H>(ms, s.with_none_layer(), depth + 1, top, levels + 1, how, n),
            k => (ms[k].0)(s, true, &mut |s| down::<H>(ms, s, depth + 1, top, levels + 1, how, n)),
        }
    }
    let mut n = 0;
    for how in [0usize, 2, 7, 8] {
        let ms = &ms;
        let n = &mut n;
        let done = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, move || -> R {
                    (ms[0].0)(RecurseStack::new(), true, &mut |s| (ms[4].0)(s, true, &mut |s| down::<H>(ms, s, 0, top, 0, how, n)))
                })
                .expect("thread")
                .join()
                .expect("no panic outside the library")
        });
        done?;
    }
    cx.count("answers of a deep stack of parents", n);
    Ok(())
}

trait Pipe: Sized {
    fn pipe<X>(self, f: impl FnOnce(Self) -> X) -> X {
        f(self)
    }
}

impl Pipe for RecurseStack<'_> {}

/// The check of types which declare their schema by hand, among derived ones.
pub fn c30_of<H: Through>(ops: &'static [probe::TypeOps], case: CaseFn) -> Prop {
    let mut directed: Vec<(&'static str, CaseFn)> = vec![("the stack of parents", |cx| (0..200).try_for_each(|_| c30_stack::<H>(cx)))];
    directed.push(("types far up the stack of parents", c30_far::<H>));
    directed.extend(ops.iter().map(|t| (t.name, t.declared)));
    Prop {
        id: "C30",
        directed,
        rule: "types of a generated program, of which some derive their schema and some declare it by hand; declared schema \
               against an independent shape graph; arbitrary values written, compared to the reference encoding, read back; \
               the stack of parents against a list. Non-trivial: more than one node or byte; distinct by type and bytes",
        ..c13_of(ops, case)
    }
}

// ---- C14 ----

fn c14_ser(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, _) = gen::case(&mut cx.rng, g);
    let mut d = to_ds(&mut cx.rng, &t, 0, &v);
    let (s, t) = if cx.rng.chance(1, 3) {
        let mut s2 = mutate_schema(&mut cx.rng, &s);
        if cx.rng.chance(1, 4) {
            s2 = mutate_schema(&mut cx.rng, &s2);
        }
        let t2 = Tree::new(&s2);
        if t2.is_legal() { (s2, t2) } else { (s, t) }
    } else {
        (s, t)
    };
    for _ in 0..*cx.rng.pick(&[0usize, 1, 1, 1, 2, 3]) {
        mutate_ds(&mut cx.rng, &mut d);
    }
    c14_ser_one(cx, s, t, d)
}

fn c14_ser_one(cx: &mut Cx, s: Schema, t: Tree, d: Ds) -> R {
    let c = conv(&d, &t, 0);
    let mut w = W::new();
    let e = encode_with(&s, &mut w, "serialize", |e| d.serialize(e))?;
    let done = e.res.is_ok() && e.finished;
    check!(
        done || e.res.is_err(),
        "half-written",
        "{:?} was serialized under {} without an error, but the coder is not finished; written {}",
        d,
        outline(&s),
        bshow(&w.out)
    );
    match &c {
        Conv::Fail => {
            check!(
                !done,
                "accepted-nonconforming",
                "{:?} was serialized as {} under {}, of which it is no value",
                d,
                bshow(&w.out),
                outline(&s)
            );
            cx.count("non-conforming values refused", 1);
            cx.nontrivial((format!("{:?}", d), format!("{:?}", s)));
        }
        Conv::Must(v) | Conv::May(v) => {
            if done {
                let want = enc(&t, v).expect("conforms");
                check!(
                    w.out == want,
                    "wrong-bytes",
                    "{:?} serialized as {}, documented {}; under {}",
                    d,
                    bshow(&w.out),
                    bshow(&want),
                    outline(&s)
                );
                cx.count("conforming values written", 1);
            } else {
                cx.count(if matches!(c, Conv::May(_)) { "doubtful values refused" } else { "conforming values refused" }, 1);
            }
        }
    }
    cx.sample(|| format!("{:?} under {}: {:?} (model {:?})", d, outline(&s), e.res.is_ok(), c));
    Ok(())
}

fn c14_de(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    // the shape of this schema, changed, or that of a changed schema
    let mut sh = if cx.rng.chance(1, 4) {
        let s2 = mutate_schema(&mut cx.rng, &s);
        let t2 = Tree::new(&s2);
        if t2.is_legal() && t2.min_cost()[0] < INF {
            let v2 = gen::value(&mut cx.rng, &t2, 20);
            natural(&mut cx.rng, &t2, 0, &v2)
        } else {
            natural(&mut cx.rng, &t, 0, &v)
        }
    } else {
        natural(&mut cx.rng, &t, 0, &v)
    };
    for _ in 0..*cx.rng.pick(&[0usize, 1, 1, 2, 3]) {
        mutate_sh(&mut cx.rng, &mut sh);
    }
    c14_de_one(cx, s, v, b, sh)
}

fn c14_de_one(cx: &mut Cx, s: Schema, v: Value, b: Vec<u8>, sh: Sh) -> R {
    let mut rd = if cx.rng.chance(1, 8) { Rd::chunked(&b, &mut cx.rng) } else { Rd::new(&b) };
    let (r, fin) = decode_with(&s, &mut rd, "deserialize", |d| de_shape(d, &sh))?;
    match r {
        Ok(c) if fin => {
            check!(
                same(&c, &v),
                "wrong-data",
                "asked for {:?}, got {:?} from {}, which is {}; schema {}",
                sh,
                c,
                bshow(&b),
                vshow(&v),
                outline(&s)
            );
            check!(rd.pos == b.len(), "extent", "{} of {} bytes consumed for {:?}; schema {}", rd.pos, b.len(), sh, outline(&s));
            cx.count("shapes that fit", 1);
        }
        Ok(c) => {
            check!(
                !greedy(&sh),
                "half-read",
                "asked for {:?}, got {:?} as if it were all, but the coder is not finished; bytes {}, which are {}; schema {}",
                sh,
                c,
                bshow(&b),
                vshow(&v),
                outline(&s)
            );
            cx.count("shapes that left the coder unfinished", 1);
            cx.nontrivial((format!("{:?}", sh), format!("{:?}", s), b.clone()));
        }
        Err(_) => {
            // (finished or not: it may be the visitor that refused the last piece)
            cx.count("shapes refused", 1);
            cx.nontrivial((format!("{:?}", sh), format!("{:?}", s), b.clone()));
        }
    }
    Ok(())
}

/// Lengths which are wrong, but right modulo 256 or 65536.
fn c14_wraps(cx: &mut Cx) -> R {
    if !gen::BIG {
        return Ok(());
    }
    let name = |i: usize| format!("f{}", i);
    let mut pairs = vec![];
    for a in [0usize, 1, 2, 3, 255] {
        for d in [1usize, 255, 256, 257, 512, 65535, 65536] {
            pairs.push((a, a + d));
            pairs.push((a + d, a));
        }
    }
    for (n, k) in pairs {
        let leaf = if cx.rng.chance(1, 2) { Schema::Unit } else { Schema::Scalar(ScalarType::U8) };
        let (lv, ld, ls) = match leaf {
            Schema::Unit => (Value::Unit, Ds::Unit, Sh::Unit),
            _ => (Value::Scalar(ScalarValue::U8(7)), Ds::Scalar(ScalarValue::U8(7)), Sh::Scalar(ScalarType::U8)),
        };
        // (refusals come with the names of a struct's fields)
        let field = |i: usize| if n.max(k) > 1000 { format!("{:x}", i) } else { name(i) };
        let kinds = [
            (Schema::Tuple(vec![leaf.clone(); n]), Value::Tuple(vec![lv.clone(); n])),
            (Schema::Seq(SeqSchema { len: Some(n), inner: Box::new(leaf.clone()) }), Value::FixedLenSeq(vec![lv.clone(); n])),
            (
                Schema::Struct((0..n).map(|i| StructSchemaField { name: field(i), inner: leaf.clone() }).collect()),
                Value::Struct((0..n).map(|i| StructValueField { name: field(i), value: lv.clone() }).collect()),
            ),
            (Schema::Seq(SeqSchema { len: None, inner: Box::new(leaf.clone()) }), Value::VarLenSeq(vec![lv.clone(); n])),
        ];
        for (i, (s, v)) in kinds.into_iter().enumerate() {
            let t = Tree::new(&s);
            let b = enc(&t, &v).expect("conforms");
            let items = vec![ld.clone(); k];
            let fields = || (0..k).map(|i| (field(i), Some(ld.clone()))).collect::<Vec<_>>();
            let ds = vec![
                Ds::Tuple(k, items.clone()),
                Ds::TupStruct(k, items.clone()),
                Ds::Seq(Some(k), items.clone()),
                Ds::Seq(Some(n), items.clone()),
                Ds::Seq(Some(k), vec![ld.clone(); n]),
                Ds::Seq(None, items.clone()),
                Ds::Tuple(n, items.clone()),
                Ds::Struct(k, fields()),
                Ds::Struct(n, fields()),
            ];
            for d in ds {
                c14_ser_one(cx, s.clone(), Tree::new(&s), d)?;
                cx.count("lengths wrong by a power of 256", 1);
            }
            // an enum's variant of it
            let es = Schema::Enum(vec![
                EnumSchemaVariant { name: "e".into(), inner: Schema::Unit },
                EnumSchemaVariant { name: "x".into(), inner: s.clone() },
            ]);
            c14_ser_one(cx, es.clone(), Tree::new(&es), Ds::TupVar(1, "x".into(), k, items))?;
            c14_ser_one(cx, es.clone(), Tree::new(&es), Ds::StructVar(1, "x".into(), k, fields()))?;
            let shapes = [
                Sh::Tuple(vec![ls.clone(); k]),
                Sh::TupStruct(vec![ls.clone(); k]),
                Sh::Struct((0..k).map(|i| (field(i), ls.clone())).collect()),
            ];
            for (j, sh) in shapes.into_iter().enumerate() {
                // (a visitor of fields looks each name up among all)
                if j == 2 && (n.max(k) > 1000 && i == 2) {
                    continue;
                }
                c14_de_one(cx, s.clone(), v.clone(), b.clone(), sh)?;
                cx.count("lengths wrong by a power of 256", 1);
            }
        }
    }
    Ok(())
}

fn c14_case(cx: &mut Cx) -> R {
    if cx.rng.chance(1, 2) { c14_ser(cx) } else { c14_de(cx) }
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        quick: 1_200_000,
        thorough: 72_000_000,
        directed: vec![("lengths wrong by a power of 256", c14_wraps)],
        case: c14_case,
        rule: "serde values and requested shapes derived from a conforming value and changed (kind, length, order, names, \
               ordinals, announced lengths), or meeting a changed schema. Non-trivial: the model says it does not conform \
               (or the shape was refused); distinct by value/shape, schema and bytes",
    }
}

// ---- C15 ----

/// The meta-schema, copied by hand from FORMAT.txt.
pub fn meta() -> Schema {
    let var = |n: &str, i: Schema| EnumSchemaVariant { name: n.into(), inner: i };
    let fld = |n: &str, i: Schema| StructSchemaField { name: n.into(), inner: i };
    let seq = |i: Schema| Schema::Seq(SeqSchema { len: None, inner: Box::new(i) });
    let named = || {
        seq(Schema::Struct(vec![fld("name", Schema::Str), fld("inner", Schema::Recurse(3))]))
    };
    Schema::Enum(vec![
        var(
            "Scalar",
            Schema::Enum(
                ["U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128", "F32", "F64", "Char", "Bool"]
                    .iter()
                    .map(|n| var(n, Schema::Unit))
                    .collect(),
            ),
        ),
        var("Str", Schema::Unit),
        var("Bytes", Schema::Unit),
        var("Unit", Schema::Unit),
        var("Option", Schema::Recurse(1)),
        var(
            "Seq",
            Schema::Struct(vec![
                fld("len", Schema::Option(Box::new(Schema::Scalar(ScalarType::U64)))),
                fld("inner", Schema::Recurse(2)),
            ]),
        ),
        var("Tuple", seq(Schema::Recurse(2))),
        var("Struct", named()),
        var("Enum", named()),
        var("Recurse", Schema::Scalar(ScalarType::U64)),
    ])
}

fn ev(o: usize, n: &str, v: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: o, variant_name: n.into(), value: Box::new(v) })
}

fn fv(n: &str, value: Value) -> StructValueField {
    StructValueField { name: n.into(), value }
}

/// A schema as a value of the meta-schema.
pub fn meta_value(s: &Schema) -> Value {
    let u64v = |n: usize| Value::Scalar(ScalarValue::U64(n as u64));
    match s {
        Schema::Scalar(st) => {
            let (o, n) = match st {
                ScalarType::U8 => (0, "U8"),
                ScalarType::U16 => (1, "U16"),
                ScalarType::U32 => (2, "U32"),
                ScalarType::U64 => (3, "U64"),
                ScalarType::U128 => (4, "U128"),
                ScalarType::I8 => (5, "I8"),
                ScalarType::I16 => (6, "I16"),
                ScalarType::I32 => (7, "I32"),
                ScalarType::I64 => (8, "I64"),
                ScalarType::I128 => (9, "I128"),
                ScalarType::F32 => (10, "F32"),
                ScalarType::F64 => (11, "F64"),
                ScalarType::Char => (12, "Char"),
                ScalarType::Bool => (13, "Bool"),
            };
            ev(0, "Scalar", ev(o, n, Value::Unit))
        }
        Schema::Str => ev(1, "Str", Value::Unit),
        Schema::Bytes => ev(2, "Bytes", Value::Unit),
        Schema::Unit => ev(3, "Unit", Value::Unit),
        Schema::Option(i) => ev(4, "Option", meta_value(i)),
        Schema::Seq(q) => ev(
            5,
            "Seq",
            Value::Struct(vec![
                fv("len", Value::Option(q.len.map(|n| Box::new(u64v(n))))),
                fv("inner", meta_value(&q.inner)),
            ]),
        ),
        Schema::Tuple(v) => ev(6, "Tuple", Value::VarLenSeq(v.iter().map(meta_value).collect())),
        Schema::Struct(v) => ev(
            7,
            "Struct",
            Value::VarLenSeq(
                v.iter()
                    .map(|f| Value::Struct(vec![fv("name", Value::Str(f.name.clone())), fv("inner", meta_value(&f.inner))]))
                    .collect(),
            ),
        ),
        Schema::Enum(v) => ev(
            8,
            "Enum",
            Value::VarLenSeq(
                v.iter()
                    .map(|f| Value::Struct(vec![fv("name", Value::Str(f.name.clone())), fv("inner", meta_value(&f.inner))]))
                    .collect(),
            ),
        ),
        Schema::Recurse(n) => ev(9, "Recurse", u64v(*n)),
    }
}

/// Message of the meta-schema: `n` options around a unit.
pub fn nested_meta(n: usize) -> Vec<u8> {
    let mut b = vec![4u8; n];
    b.push(3);
    b
}

/// Encode a schema and compare the bytes, decode them and compare the schema.
fn schema_trip(cx: &mut Cx, m: &Schema, mt: &Tree, x: &Schema) -> R<Vec<u8>> {
    let want = enc(mt, &meta_value(x)).expect("a meta-schema value");
    let mut w = if cx.rng.chance(1, 8) { W::chunked(&mut cx.rng) } else { W::new() };
    let e = encode_with(m, &mut w, "serialize Schema", |e| x.serialize(e))?;
    check!(
        e.res.is_ok() && e.finished,
        "serialize",
        "schema {} under the meta-schema: {:?}, finished {}",
        outline(x),
        e.res,
        e.finished
    );
    check!(w.out == want, "bytes", "schema {} written as {}, documented {}", outline(x), bshow(&w.out), bshow(&want));
    let mut b = want.clone();
    for _ in 0..cx.rng.below(3) {
        b.push(cx.rng.u64() as u8);
    }
    let mut rd = if cx.rng.chance(1, 8) { Rd::chunked(&b, &mut cx.rng) } else { Rd::new(&b) };
    let (r, fin) = decode_with(m, &mut rd, "deserialize Schema", |d| Schema::deserialize(d))?;
    match r {
        Ok(y) => {
            check!(fin && rd.pos == want.len(), "unfinished", "finished {}, {} of {} bytes", fin, rd.pos, want.len());
            check!(y == *x, "value", "schema {} came back as {}", outline(x), outline(&y));
        }
        Err(e) => return violation("deserialize", format!("schema {} from {}: {}", outline(x), bshow(&want), e)),
    }
    Ok(want)
}

fn odd_schema(r: &mut Rng, s: Schema) -> Schema {
    // extreme lengths, levels, names, ordinals
    let mut s = s;
    for _ in 0..r.below(3) {
        let t = Tree::new(&s);
        let x = r.below(t.nodes.len());
        let by = match r.below(7) {
            0 => Schema::Recurse(*r.pick(&[0usize, 1, 127, 128, 1 << 20, usize::MAX])),
            1 => Schema::Seq(SeqSchema {
                len: Some(*r.pick(&[0usize, 127, 128, 1 << 33, usize::MAX])),
                inner: Box::new(t.schema(x)),
            }),
            2 => Schema::Struct(vec![]),
            3 => Schema::Enum(vec![]),
            4 => Schema::Tuple((0..*r.pick(&[0usize, 127, 128, 200])).map(|_| Schema::Unit).collect()),
            5 => Schema::Struct(
                (0..r.range(1, 3))
                    .map(|_| StructSchemaField { name: r.string(200), inner: Schema::Str })
                    .collect(),
            ),
            _ => Schema::Enum(
                (0..*r.pick(&[1usize, 255, 256, 257]))
                    .map(|i| EnumSchemaVariant { name: format!("v{}", i % 7), inner: Schema::Unit })
                    .collect(),
            ),
        };
        s = put(&t, x, &by);
    }
    s
}

fn any(r: &mut Rng) -> Schema {
    let g = cfg(r);
    let s = gen::any_schema(r, g);
    if r.chance(1, 3) { odd_schema(r, s) } else { s }
}

fn c15_case(cx: &mut Cx) -> R {
    let m = meta();
    let mt = Tree::new(&m);
    let x = any(&mut cx.rng);
    match cx.rng.below(4) {
        0 | 1 => {
            let b = schema_trip(cx, &m, &mt, &x)?;
            cx.count("schemas round-tripped", 1);
            if !Tree::new(&x).is_legal() {
                cx.count("illegal schemas round-tripped", 1);
            }
            if b.len() > 2 {
                cx.nontrivial(&b);
            }
            cx.sample(|| format!("{} <-> {}", outline(&x), bshow(&b)));
        }
        2 => {
            // hostile bytes for a schema
            let b = enc(&mt, &meta_value(&x)).expect("conforms");
            let b = gen::mutate(&mut cx.rng, &b);
            let mut c = Cur::new(&b);
            let want = c.value(&mt, 0);
            if matches!(want, Err(DErr::Budget) | Err(DErr::Unspecified)) {
                return Err(Fail::Skip("model gives no answer"));
            }
            let mut rd = Rd::new(&b);
            let (r, fin) = decode_with(&m, &mut rd, "deserialize Schema", |d| Schema::deserialize(d))?;
            match (&want, &r) {
                (Ok(v), Ok(y)) => {
                    check!(
                        veq(&meta_value(y), v) && fin && rd.pos == c.pos,
                        "hostile-value",
                        "{} decoded to {}, model {}; finished {}, {} bytes (model {})",
                        bshow(&b),
                        outline(y),
                        vshow(v),
                        fin,
                        rd.pos,
                        c.pos
                    );
                    cx.count("mutated messages that are schemas", 1);
                }
                (Err(_), Err(_)) => cx.count("mutated messages refused", 1),
                (Ok(v), Err(e)) => {
                    return violation("hostile-refused", format!("{} is schema {}, refused: {}", bshow(&b), vshow(v), e))
                }
                (Err(e), Ok(y)) => {
                    return violation("hostile-accepted", format!("{} is bad ({:?}), decoded to {}", bshow(&b), e, outline(y)))
                }
            }
            cx.nontrivial((b, 2));
        }
        _ => {
            // schemas inside other things
            let y = any(&mut cx.rng);
            fn go<T: KnownSchema + Serialize + for<'d> Deserialize<'d> + PartialEq>(
                cx: &mut Cx,
                shape: Schema,
                x: T,
                v: Value,
            ) -> R {
                let name = std::any::type_name::<T>();
                let s = probe::declared_schema::<T>()?;
                let t = Tree::new(&s);
                if let Err(e) = equivalent(&t, &Tree::new(&shape)) {
                    return violation("declared-inside", format!("{} declares {}: {}", name, outline(&s), e));
                }
                let want = enc(&t, &v).expect("conforms");
                let mut w = W::new();
                let e = encode_with(&s, &mut w, "serialize", |e| x.serialize(e))?;
                check!(
                    e.res.is_ok() && e.finished && w.out == want,
                    "inside-serialize",
                    "{}: {:?}, finished {}, {} instead of {}",
                    name,
                    e.res,
                    e.finished,
                    bshow(&w.out),
                    bshow(&want)
                );
                let mut rd = Rd::new(&want);
                let (r, fin) = decode_with(&s, &mut rd, "deserialize", |d| T::deserialize(d))?;
                check!(
                    matches!(&r, Ok(y) if *y == x) && fin && rd.pos == want.len(),
                    "inside-deserialize",
                    "{} from {}: {:?}, finished {}",
                    name,
                    bshow(&want),
                    r.as_ref().err().map(|e| e.to_string()),
                    fin
                );
                cx.count("containers of schemas round-tripped", 1);
                cx.nontrivial((name, want));
                Ok(())
            }
            let (vx, vy) = (meta_value(&x), meta_value(&y));
            let m = meta;
            match cx.rng.below(6) {
                0 => go(
                    cx,
                    Schema::Seq(SeqSchema { len: None, inner: Box::new(m()) }),
                    vec![x.clone(), y.clone()],
                    Value::VarLenSeq(vec![vx, vy]),
                )?,
                1 => go(cx, Schema::Option(Box::new(m())), Some(x.clone()), Value::Option(Some(Box::new(vx))))?,
                2 => go(cx, Schema::Tuple(vec![m(), m()]), (x.clone(), Box::new(y.clone())), Value::Tuple(vec![vx, vy]))?,
                3 => {
                    let mut h = BTreeMap::new();
                    h.insert("k".to_string(), x.clone());
                    go(
                        cx,
                        Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Tuple(vec![Schema::Str, m()])) }),
                        h,
                        Value::VarLenSeq(vec![Value::Tuple(vec![Value::Str("k".into()), vx])]),
                    )?
                }
                4 => go(
                    cx,
                    Schema::Seq(SeqSchema { len: Some(2), inner: Box::new(m()) }),
                    [x.clone(), y.clone()],
                    Value::FixedLenSeq(vec![vx, vy]),
                )?,
                _ => go(
                    cx,
                    Schema::Tuple(vec![Schema::Option(Box::new(m())), Schema::Scalar(ScalarType::U8)]),
                    (Some(vec![x.clone()]).map(|mut v| v.remove(0)), 7u8),
                    Value::Tuple(vec![Value::Option(Some(Box::new(vx))), Value::Scalar(ScalarValue::U8(7))]),
                )?,
            }
        }
    }
    Ok(())
}

fn c15_meta(cx: &mut Cx) -> R {
    let s = probe::declared_schema::<Schema>()?;
    if let Err(e) = equivalent(&Tree::new(&s), &Tree::new(&meta())) {
        return violation("meta", format!("the declared meta-schema differs from FORMAT.txt: {}", e));
    }
    check!(s == meta(), "meta-form", "the declared meta-schema is equivalent to, but not, the one in FORMAT.txt: {}", outline(&s));
    let m = meta();
    let mt = Tree::new(&m);
    // the meta-schema itself, leaves, and something of each kind
    let mut v = vec![m.clone(), Schema::Str, Schema::Bytes, Schema::Unit];
    v.extend(SCALARS.iter().map(|&s| Schema::Scalar(s)));
    for n in [0usize, 1, 2, 127, 128, 255, 256, 16383, 16384, 1 << 21, 1 << 28, 1 << 35, 1 << 63, usize::MAX] {
        v.push(Schema::Recurse(n));
        v.push(Schema::Seq(SeqSchema { len: Some(n), inner: Box::new(Schema::Unit) }));
    }
    v.push(schema!(struct { (a: option(recurse(1))), (b: tuple { (u8), (bool), }), }));
    v.push(schema!(enum { A(unit), B(seq(3)(str)), C(seq(varlen)(recurse(2))), }));
    v.push(Schema::Tuple(vec![]));
    v.push(Schema::Struct(vec![]));
    v.push(Schema::Enum(vec![]));
    for x in &v {
        let b = schema_trip(cx, &m, &mt, x)?;
        cx.count("schemas round-tripped", 1);
        cx.nontrivial(b);
    }
    // a deep one
    let mut d = Schema::Unit;
    for i in 0..300 {
        d = match i % 4 {
            0 => Schema::Option(Box::new(d)),
            1 => Schema::Tuple(vec![d]),
            2 => Schema::Seq(SeqSchema { len: None, inner: Box::new(d) }),
            _ => Schema::Struct(vec![StructSchemaField { name: "d".into(), inner: d }]),
        };
    }
    schema_trip(cx, &m, &mt, &d)?;
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        quick: 720_000,
        thorough: 43_200_000,
        directed: vec![("the meta-schema and one schema of each kind", c15_meta)],
        case: c15_case,
        rule: "seeded schemas, legal and not, with extreme lengths, levels and names: written under a hand-copied meta-schema, \
               compared to the reference bytes, read back, alone and inside containers; mutated messages against the \
               reference decoder. Non-trivial: more than two bytes; distinct by bytes",
    }
}

// ---- C20 ----

/// Decode by a random mixture of calls and whole-value routes.
fn mixed_decode(r: &mut Rng, d: &mut Decoder<Rd>, t: &Tree, id: usize, v: &Value, n: &mut [u64; 5]) -> Result<(), (String, Error)> {
    let e = |w: &'static str| move |e: Error| (w.to_string(), e);
    let differ = |w: &str, got: String| {
        Err((format!("{} gave {} instead of {}", w, got, vshow(v)), Error::other_for_monitor()))
    };
    let id = t.resolve(id).expect("legal");
    let leaf = t.children(id).is_empty();
    match r.below(if leaf { 5 } else { 12 }) {
        0 => {
            n[0] += 1;
            let x = value_from(d).map_err(e("Value"))?;
            if !veq(&x, v) {
                return differ("Value", vshow(&x));
            }
        }
        1 => {
            n[1] += 1;
            let x = de_any(d).map_err(e("any"))?;
            if !same(&x, v) {
                return differ("any", format!("{:?}", x));
            }
        }
        2 => {
            n[2] += 1;
            IgnoredAny::deserialize(&mut *d).map_err(e("ignored"))?;
        }
        3 => {
            n[3] += 1;
            let sh = natural(r, t, id, v);
            let x = de_shape(d, &sh).map_err(e("shape"))?;
            if !same(&x, v) {
                return differ("shape", format!("{:?}", x));
            }
        }
        _ => {
            n[4] += 1;
            let c = e("calls");
            match (t.kind(id), v) {
                (Kind::Option(i), Value::Option(x)) => {
                    let some = d.begin_option().map_err(c)?;
                    if some != x.is_some() {
                        return differ("begin_option", some.to_string());
                    }
                    if let Some(x) = x {
                        mixed_decode(r, d, t, *i, x, n)?;
                    }
                }
                (Kind::Seq(len, i), Value::FixedLenSeq(x)) | (Kind::Seq(len, i), Value::VarLenSeq(x)) => {
                    match len {
                        Some(l) => d.begin_fixed_len_seq(*l).map_err(c)?,
                        None => {
                            let l = d.begin_var_len_seq().map_err(c)?;
                            if l != x.len() {
                                return differ("begin_var_len_seq", l.to_string());
                            }
                        }
                    }
                    for y in x {
                        d.begin_seq_elem().map_err(e("begin_seq_elem"))?;
                        mixed_decode(r, d, t, *i, y, n)?;
                    }
                    d.finish_seq().map_err(e("finish_seq"))?;
                }
                (Kind::Tuple(is), Value::Tuple(x)) => {
                    d.begin_tuple().map_err(c)?;
                    for (i, y) in is.iter().zip(x) {
                        d.begin_tuple_elem().map_err(e("begin_tuple_elem"))?;
                        mixed_decode(r, d, t, *i, y, n)?;
                    }
                    d.finish_tuple().map_err(e("finish_tuple"))?;
                }
                (Kind::Struct(fs), Value::Struct(x)) => {
                    d.begin_struct().map_err(c)?;
                    for (f, y) in fs.iter().zip(x) {
                        d.begin_struct_field(&f.0).map_err(e("begin_struct_field"))?;
                        mixed_decode(r, d, t, f.1, &y.value, n)?;
                    }
                    d.finish_struct().map_err(e("finish_struct"))?;
                }
                (Kind::Enum(vars), Value::Enum(x)) => {
                    let o = d.begin_enum().map_err(c)?;
                    if o != x.variant_ord {
                        return differ("begin_enum", o.to_string());
                    }
                    let name = vars[o].0.clone();
                    d.begin_enum_variant(&name).map_err(e("begin_enum_variant"))?;
                    mixed_decode(r, d, t, vars[o].1, &x.value, n)?;
                }
                _ => {
                    let mut ops = vec![];
                    dec_script(v, &mut ops);
                    for (op, got) in ops {
                        let g = dec_on(d, &op).map_err(e("leaf"))?;
                        if g != got {
                            return differ("leaf", format!("{:?}", g));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

trait ForMonitor {
    fn other_for_monitor() -> Error;
}

impl ForMonitor for Error {
    fn other_for_monitor() -> Error {
        std::io::Error::new(std::io::ErrorKind::Other, "monitor: values differ").into()
    }
}

fn c20_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    c20_one(cx, s, t, v, b)
}

fn c20_edges(cx: &mut Cx) -> R {
    for (s, v) in super::format::edge_cases(&mut cx.rng, false) {
        let t = Tree::new(&s);
        let deep = (0..t.nodes.len()).any(|i| matches!(t.kind(i), Kind::Recurse(_)));
        if t.nodes.len() > 3000 || (deep && vcount(&v) > 1000) {
            // (the mixtures take the square of these)
            continue;
        }
        let b = enc(&t, &v).expect("edge value conforms");
        c20_one(cx, s, t, v, b)?;
    }
    Ok(())
}

fn c20_one(cx: &mut Cx, s: Schema, t: Tree, v: Value, b: Vec<u8>) -> R {
    let mut m = b.clone();
    for _ in 0..cx.rng.below(3) {
        m.push(cx.rng.u64() as u8);
    }
    let end = |what: &str, fin: bool, pos: usize| -> R {
        check!(fin, format!("unfinished:{}", what), "{}: coder not finished; {} as {}; schema {}", what, bshow(&b), vshow(&v), outline(&s));
        check!(
            pos == b.len(),
            format!("extent:{}", what),
            "{}: {} bytes consumed of a message of {}; schema {}",
            what,
            pos,
            b.len(),
            outline(&s)
        );
        Ok(())
    };
    let refused = |what: &str, e: &Error| -> R {
        violation(format!("refused:{}", what), format!("{}: {}; {} as {}; schema {}", what, e, bshow(&b), vshow(&v), outline(&s)))
    };
    macro_rules! route {
        ($what:expr, $f:expr, $ok:expr) => {{
            let mut rd = if cx.rng.chance(1, 6) { Rd::chunked(&m, &mut cx.rng) } else { Rd::new(&m) };
            let (r, fin) = decode_with(&s, &mut rd, $what, $f)?;
            match r {
                Ok(x) => {
                    check!(
                        $ok(&x),
                        format!("data:{}", $what),
                        "{}: {:?} instead of {}; bytes {}; schema {}",
                        $what,
                        x,
                        vshow(&v),
                        bshow(&b),
                        outline(&s)
                    );
                }
                Err(e) => return refused($what, &e),
            }
            end($what, fin, rd.pos)?;
            cx.count(&format!("decoded: {}", $what), 1);
        }};
    }
    route!("Value", |d| value_from(d), |x: &Value| veq(x, &v));
    route!("schema-driven", |d| de_any(d), |x: &Co| same(x, &v));
    route!("ignored", |d| IgnoredAny::deserialize(d), |_: &IgnoredAny| true);
    for _ in 0..2 {
        let sh = natural(&mut cx.rng, &t, 0, &v);
        route!("typed shape", |d| de_shape(d, &sh), |x: &Co| same(x, &v));
    }
    let mut n = [0u64; 5];
    {
        let mut r = Rng::new(cx.rng.u64());
        let mut rd = Rd::new(&m);
        let mut what = String::new();
        let (res, fin) = decode_with(&s, &mut rd, "mixed", |d| match mixed_decode(&mut r, d, &t, 0, &v, &mut n) {
            Ok(()) => Ok(()),
            Err((w, e)) => {
                what = w;
                Err(e)
            }
        })?;
        if let Err(e) = res {
            return violation("mixed", format!("{}: {}; bytes {} as {}; schema {}", what, e, bshow(&b), vshow(&v), outline(&s)));
        }
        end("mixed", fin, rd.pos)?;
    }
    for (i, k) in ["Value", "any", "ignored", "shape", "calls"].iter().enumerate() {
        cx.count(&format!("parts of mixed decodes by {}", k), n[i]);
    }
    let p = plan_value(Dir::Dec, &t, &v, &m);
    let mut rd = Rd::new(&m);
    let mut calls = 0;
    exec(&s, &t, &p, ALL, CoderStateAlloc::new(), None, &mut W::new(), &mut rd, &mut calls)?;
    end("calls", true, rd.pos)?;
    cx.count("decoder calls", calls);
    if b.len() > 1 || vcount(&v) > 1 {
        cx.nontrivial((format!("{:?}", s), b.clone()));
    }
    cx.sample(|| format!("{} under {} = {}", bshow(&b), outline(&s), vshow(&v)));
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        quick: 600_000,
        thorough: 36_000_000,
        directed: vec![("edges of the format", c20_edges)],
        case: c20_case,
        rule: "each seeded message decoded as Value, driven by the schema, ignored, by matching serde shapes, by calls, and by \
               a random mixture of all of these. Non-trivial: more than one node or byte; distinct by schema and bytes",
    }
}

// ---- C22 ----

fn mixed_encode(r: &mut Rng, e: &mut Encoder<W>, t: &Tree, id: usize, v: &Value) -> Result<(), Error> {
    let id = t.resolve(id).expect("legal");
    match r.below(if t.children(id).is_empty() { 3 } else { 6 }) {
        0 => v.encode_to(e),
        1 => to_ds(r, t, id, v).serialize(e),
        _ => match (t.kind(id), v) {
            (Kind::Option(i), Value::Option(Some(x))) => {
                e.begin_some()?;
                mixed_encode(r, e, t, *i, x)
            }
            (Kind::Seq(len, i), Value::FixedLenSeq(x)) | (Kind::Seq(len, i), Value::VarLenSeq(x)) => {
                match len {
                    Some(l) => e.begin_fixed_len_seq(*l)?,
                    None => e.begin_var_len_seq(x.len())?,
                }
                for y in x {
                    e.begin_seq_elem()?;
                    mixed_encode(r, e, t, *i, y)?;
                }
                e.finish_seq()
            }
            (Kind::Tuple(is), Value::Tuple(x)) => {
                e.begin_tuple()?;
                for (i, y) in is.iter().zip(x) {
                    e.begin_tuple_elem()?;
                    mixed_encode(r, e, t, *i, y)?;
                }
                e.finish_tuple()
            }
            (Kind::Struct(fs), Value::Struct(x)) => {
                e.begin_struct()?;
                for (f, y) in fs.iter().zip(x) {
                    e.begin_struct_field(&f.0)?;
                    mixed_encode(r, e, t, f.1, &y.value)?;
                }
                e.finish_struct()
            }
            (Kind::Enum(vars), Value::Enum(x)) => {
                e.begin_enum(x.variant_ord, &x.variant_name)?;
                mixed_encode(r, e, t, vars[x.variant_ord].1, &x.value)
            }
            _ => {
                let mut ops = vec![];
                enc_script(v, &mut ops);
                for op in ops {
                    enc_on(e, &op)?;
                }
                Ok(())
            }
        },
    }
}

fn ds_kinds(d: &Ds, cx: &mut Cx) {
    let k = match d {
        Ds::Scalar(_) | Ds::Str(_) | Ds::Bytes(_) => "leaf",
        Ds::None | Ds::Some(_) => "option",
        Ds::Unit | Ds::UnitStruct | Ds::UnitVar(..) => "unit",
        Ds::NewStruct(_) | Ds::NewVar(..) => "newtype",
        Ds::Seq(..) => "seq",
        Ds::Tuple(..) | Ds::TupStruct(..) | Ds::TupVar(..) => "tuple",
        Ds::Map(..) => "map",
        Ds::Struct(..) | Ds::StructVar(..) => "struct",
    };
    cx.count(&format!("serialized: {}", k), 1);
    match d {
        Ds::Some(x) | Ds::NewStruct(x) | Ds::NewVar(_, _, x) => ds_kinds(x, cx),
        Ds::Seq(_, v) | Ds::Tuple(_, v) | Ds::TupStruct(_, v) | Ds::TupVar(_, _, _, v) => {
            v.iter().for_each(|x| ds_kinds(x, cx))
        }
        Ds::Map(_, v) => v.iter().for_each(|(a, b)| {
            ds_kinds(a, cx);
            ds_kinds(b, cx);
        }),
        Ds::Struct(_, f) | Ds::StructVar(_, _, _, f) => f.iter().for_each(|x| match &x.1 {
            Some(y) => ds_kinds(y, cx),
            None => cx.count("serialized: skipped field", 1),
        }),
        _ => {}
    }
}

fn c22_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    let mut d = to_ds(&mut cx.rng, &t, 0, &v);
    match cx.rng.below(8) {
        0 => {
            // parts by calls, parts as Value, parts by serde
            let mut r = Rng::new(cx.rng.u64());
            let mut w = W::new();
            let e = encode_with(&s, &mut w, "mixed encode", |e| mixed_encode(&mut r, e, &t, 0, &v))?;
            check!(
                e.res.is_ok() && e.finished && w.out == b,
                "mixed",
                "{} by calls, Value and serde: {:?}, finished {}, {} instead of {}; schema {}",
                vshow(&v),
                e.res,
                e.finished,
                bshow(&w.out),
                bshow(&b),
                outline(&s)
            );
            cx.count("mixed encodes", 1);
            return Ok(());
        }
        1 => {
            // announced lengths
            if !wrong_len(&mut cx.rng, &mut d) {
                return Err(Fail::Skip("no announced length"));
            }
        }
        2 => mutate_ds(&mut cx.rng, &mut d),
        _ => {}
    }
    c22_one(cx, &s, &t, &d)
}

fn c22_edges(cx: &mut Cx) -> R {
    for (s, v) in super::format::edge_cases(&mut cx.rng, false) {
        let t = Tree::new(&s);
        let d = to_ds(&mut cx.rng, &t, 0, &v);
        c22_one(cx, &s, &t, &d)?;
    }
    Ok(())
}

fn c22_one(cx: &mut Cx, s: &Schema, t: &Tree, d: &Ds) -> R {
    let c = conv(d, t, 0);
    let mut w = if cx.rng.chance(1, 8) { W::chunked(&mut cx.rng) } else { W::new() };
    let e = encode_with(s, &mut w, "serialize", |e| d.serialize(e))?;
    let done = e.res.is_ok() && e.finished;
    match &c {
        Conv::Must(v) => {
            let want = enc(t, v).expect("conforms");
            check!(
                done,
                "refused",
                "{:?}: {:?}, finished {}; it is {} under {}",
                d,
                e.res,
                e.finished,
                vshow(v),
                outline(s)
            );
            check!(w.out == want, "bytes", "{:?}: {} instead of {}; schema {}", d, bshow(&w.out), bshow(&want), outline(s));
            ds_kinds(d, cx);
            if ds_count(d) > 1 {
                cx.nontrivial((format!("{:?}", d), format!("{:?}", s)));
            }
            cx.sample(|| format!("{:?} under {} = {}", d, outline(s), bshow(&want)));
        }
        Conv::May(v) => {
            let want = enc(t, v).expect("conforms");
            check!(!done || w.out == want, "bytes", "{:?}: {} instead of {}; schema {}", d, bshow(&w.out), bshow(&want), outline(s));
            cx.count("doubtful", 1);
        }
        Conv::Fail => {
            check!(
                !done,
                "written-wrongly",
                "{:?} was written as {} under {}, to which it does not conform",
                d,
                bshow(&w.out),
                outline(s)
            );
            cx.count("wrong lengths and shapes refused", 1);
        }
    }
    Ok(())
}

/// Make one announced length wrong or missing.
fn wrong_len(r: &mut Rng, d: &mut Ds) -> bool {
    fn go<'d>(d: &'d mut Ds, out: &mut Vec<&'d mut Option<usize>>) {
        match d {
            Ds::Some(x) | Ds::NewStruct(x) | Ds::NewVar(_, _, x) => go(x, out),
            Ds::Seq(l, v) => {
                out.push(l);
                v.iter_mut().for_each(|x| go(x, out))
            }
            Ds::Map(l, v) => {
                out.push(l);
                v.iter_mut().for_each(|(a, b)| {
                    go(a, out);
                    go(b, out)
                })
            }
            Ds::Tuple(_, v) | Ds::TupStruct(_, v) | Ds::TupVar(_, _, _, v) => v.iter_mut().for_each(|x| go(x, out)),
            Ds::Struct(_, f) | Ds::StructVar(_, _, _, f) => {
                f.iter_mut().filter_map(|x| x.1.as_mut()).for_each(|x| go(x, out))
            }
            _ => {}
        }
    }
    let mut all = vec![];
    go(d, &mut all);
    if all.is_empty() {
        return false;
    }
    let i = r.below(all.len());
    let l = &mut all[i];
    let wraps = [256usize, 512, 65536, 1 << 32];
    **l = match (r.below(4), **l) {
        (3, Some(n)) => Some(n + r.pick(&wraps)),
        (0, _) => None,
        (1, Some(n)) => Some(n + 1),
        (_, Some(n)) if n > 0 => Some(n - 1),
        _ => Some(r.below(4)),
    };
    true
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        quick: 900_000,
        thorough: 54_000_000,
        directed: vec![("edges of the format", c22_edges)],
        case: c22_case,
        rule: "conforming values in every form serde has for them (unit/newtype/tuple structs and variants, maps, skipped \
               fields, announced lengths right, wrong or missing), and mixtures with calls and Value. Non-trivial: more than \
               one serde node that must be accepted; distinct by value and schema",
    }
}
