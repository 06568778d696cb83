//! C04..C09, C21: sequences of calls.

use crate::{
    api::*,
    check, gen,
    io::*,
    model::*,
    rng::Rng,
    run::*,
    session::*,
};
use binschema::{
    error::ErrorKind,
    value::{ScalarValue, Value},
    CoderState, CoderStateAlloc, Decoder, Encoder, EnumSchemaVariant, ScalarType, Schema, SeqSchema,
    StructSchemaField,
};

fn plain_exec(cx: &mut Cx, s: &Schema, t: &Tree, p: &Plan, mon: Mon) -> R<Vec<Did>> {
    let mut calls = 0;
    let (mut w, mut rd);
    if cx.rng.chance(1, 4) {
        w = W::chunked(&mut cx.rng);
        rd = Rd::chunked(&p.bytes, &mut cx.rng);
    } else {
        w = W::new();
        rd = Rd::new(&p.bytes);
    }
    let (d, _) = exec(s, t, p, mon, CoderStateAlloc::new(), None, &mut w, &mut rd, &mut calls)?;
    cx.count(if p.dir == Dir::Enc { "encoder calls" } else { "decoder calls" }, calls);
    for st in &p.steps {
        cx.count(
            match st.exp {
                Exp::Ok(_) => "calls accepted",
                Exp::Rej(Rej::Snc) => "calls refused as non-conformance",
                Exp::Rej(Rej::Api) => "calls refused as API usage",
                Exp::Rej(Rej::Either) => "elem/finish calls refused",
                Exp::Fatal(_) => "fatal calls",
            },
            1,
        );
    }
    Ok(d)
}

fn key(s: &Schema, p: &Plan) -> (String, Vec<String>, bool) {
    (format!("{:?}", s), p.steps.iter().map(|x| format!("{:?}", x.op)).collect(), p.dir == Dir::Enc)
}

fn interesting(p: &Plan) -> bool {
    p.steps.iter().any(|s| matches!(s.exp, Exp::Rej(_))) && p.steps.iter().any(|s| matches!(s.exp, Exp::Ok(_)))
}

/// A random session in a random direction over a legal schema.
fn session(cx: &mut Cx, g: gen::SGen, pc: PlanCfg) -> (Schema, Tree, Plan) {
    if cx.rng.chance(1, 2) {
        let (s, t) = gen::good_schema(&mut cx.rng, g);
        let p = plan_enc(&mut cx.rng, &t, pc);
        (s, t, p)
    } else {
        let (s, t, _, b) = gen::case(&mut cx.rng, g);
        let p = plan_dec(&mut cx.rng, &t, &b, pc);
        (s, t, p)
    }
}

// ---------------------------------------------------------------- C04

fn c04_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let mut pc = PlanCfg::default();
    pc.doubt = *cx.rng.pick(&[0usize, 10, 30, 60]);
    pc.after = cx.rng.below(6);
    let (s, t, p) = session(cx, g, pc);
    let mon = Mon { reports: false, stream: false, kinds: true, fresh: cx.rng.chance(1, 2) };
    plain_exec(cx, &s, &t, &p, mon)?;
    if interesting(&p) {
        cx.nontrivial(key(&s, &p));
    }
    cx.sample(|| format!("{:?} {:?}: {:?}", s, p.dir, p.steps.iter().map(|x| (&x.op, &x.exp)).collect::<Vec<_>>()));
    Ok(())
}

/// Every call of a catalogue in every state of every small schema.
fn c04_table(cx: &mut Cx) -> R {
    let sc = |t| Schema::Scalar(t);
    let mut schemas: Vec<Schema> = SCALARS.iter().map(|&t| sc(t)).collect();
    schemas.extend([Schema::Str, Schema::Bytes, Schema::Unit]);
    let base = schemas.clone();
    let u = || Schema::Scalar(ScalarType::U8);
    schemas.push(Schema::Option(Box::new(u())));
    schemas.push(Schema::Option(Box::new(Schema::Option(Box::new(Schema::Unit)))));
    for len in [None, Some(0), Some(1), Some(2)] {
        for i in [u(), Schema::Unit, Schema::Str] {
            schemas.push(Schema::Seq(SeqSchema { len, inner: Box::new(i) }));
        }
    }
    for v in [vec![], vec![u()], vec![u(), Schema::Str], vec![Schema::Unit, Schema::Tuple(vec![])]] {
        schemas.push(Schema::Tuple(v.clone()));
        schemas.push(Schema::Struct(
            v.iter()
                .enumerate()
                .map(|(i, s)| StructSchemaField { name: ["a", "b"][i].into(), inner: s.clone() })
                .collect(),
        ));
        if !v.is_empty() {
            schemas.push(Schema::Enum(
                v.iter()
                    .enumerate()
                    .map(|(i, s)| EnumSchemaVariant { name: ["a", "b"][i].into(), inner: s.clone() })
                    .collect(),
            ));
        }
    }
    for i in base {
        schemas.push(Schema::Tuple(vec![i.clone(), i]));
    }
    let catalogue = |dec: bool| -> Vec<Op> {
        let mut r = Rng::new(7);
        let mut v: Vec<Op> = SCALARS.iter().map(|&t| Op::Scalar(gen::scalar(&mut r, t))).collect();
        v.extend([Op::Str("x".into()), Op::Bytes(vec![1]), Op::Unit]);
        v.extend((0..3).map(Op::FixedSeq));
        v.extend((0..2).map(Op::VarSeq));
        v.extend([Op::SeqElem, Op::FinSeq, Op::Tuple, Op::TupleElem, Op::FinTuple, Op::Struct, Op::FinStruct]);
        for n in ["a", "b", "", "c"] {
            v.push(Op::Field(n.into()));
        }
        if dec {
            v.extend([Op::Option, Op::EnumOrd]);
            for n in ["a", "b", "", "c"] {
                v.push(Op::EnumName(n.into()));
            }
        } else {
            v.extend([Op::None, Op::Some]);
            for n in ["a", "b", ""] {
                v.extend((0..3).map(|i| Op::Enum(i, n.into())));
            }
            v.push(Op::Enum(usize::MAX, "a".into()));
        }
        v
    };
    let mon = Mon { reports: true, stream: true, kinds: true, fresh: true };
    for s in &schemas {
        let t = Tree::new(s);
        for round in 0..3 {
            let mut r = Rng::new(round);
            let v = gen::value(&mut r, &t, 4);
            let b = enc(&t, &v).unwrap();
            for dir in [Dir::Enc, Dir::Dec] {
                let legal = plan_value(dir, &t, &v, &b);
                let cat = catalogue(dir == Dir::Dec);
                // before each legal step, every call that must be refused
                let mut sh = Shadow::new(&t);
                let mut p = Plan { dir, steps: vec![], bytes: b.clone(), finishes: true };
                let mut at = 0;
                for k in 0..=legal.steps.len() {
                    for op in &cat {
                        if let Verdict::Reject(j) = sh.m.verdict(op) {
                            p.steps.push(Step { op: op.clone(), exp: Exp::Rej(j), at: Some(at) });
                        }
                    }
                    if let Some(st) = legal.steps.get(k) {
                        sh.step(st);
                        at = st.at.unwrap();
                        p.steps.push(st.clone());
                    }
                }
                plain_exec(cx, s, &t, &p, mon)?;
                cx.count("states with the whole catalogue", legal.steps.len() as u64 + 1);
                cx.nontrivial((format!("{:?}", s), format!("{:?}", v), dir == Dir::Enc));
            }
        }
    }
    Ok(())
}

/// Seqs of every magnitude of length, begun and never completed.
pub fn big_lens(cx: &mut Cx) -> R {
    let mut ns: Vec<usize> = vec![0];
    for k in 0..usize::BITS {
        let p = 1usize << k;
        ns.extend([p - 1, p, p + 1, p + (1 << (k / 2)), p | 5]);
    }
    ns.extend([usize::MAX, usize::MAX - 1, usize::MAX - 255]);
    ns.sort();
    ns.dedup();
    for (q, &n) in ns.iter().enumerate() {
        for fixed in [false, true] {
            let inner = [Schema::Unit, Schema::Scalar(ScalarType::U8), Schema::Str][q % 3].clone();
            let mut s = Schema::Seq(SeqSchema { len: fixed.then_some(n), inner: Box::new(inner) });
            let mut path = vec![];
            match (q / 3) % 4 {
                0 => s = Schema::Tuple(vec![s]),
                1 => {
                    s = Schema::Struct(vec![StructSchemaField { name: "f".into(), inner: s }]);
                }
                2 => s = Schema::Option(Box::new(s)),
                _ => {}
            }
            for dec in [false, true] {
                path.clear();
                match (q / 3) % 4 {
                    0 => path.extend([Op::Tuple, Op::TupleElem]),
                    1 => path.extend([Op::Struct, Op::Field("f".into())]),
                    2 => path.push(if dec { Op::Option } else { Op::Some }),
                    _ => {}
                }
                let t = Tree::new(&s);
                // what is in the stream
                let mut bytes = vec![];
                let mut m = Model::new(&t);
                let mut enc_ops = vec![];
                for op in &path {
                    enc_ops.push(if *op == Op::Option { Op::Some } else { op.clone() });
                }
                enc_ops.push(if fixed { Op::FixedSeq(n) } else { Op::VarSeq(n) });
                let item = [Op::Unit, Op::Scalar(ScalarValue::U8(7)), Op::Str("é".into())][q % 3].clone();
                for _ in 0..n.min(3) {
                    enc_ops.extend([Op::SeqElem, item.clone()]);
                }
                for op in &enc_ops {
                    m.bytes(op, &mut bytes);
                    m.apply(op, &Got::Nothing);
                }
                let mut m = Model::new(&t);
                let mut c = Cur::new(&bytes);
                let mut p = Plan {
                    dir: if dec { Dir::Dec } else { Dir::Enc },
                    steps: vec![],
                    bytes: bytes.clone(),
                    finishes: false,
                };
                let mut ops = vec![];
                ops.extend(path.iter().cloned());
                if fixed {
                    ops.extend((0..usize::BITS).map(|k| Op::FixedSeq(n ^ 1 << k)));
                    ops.extend([Op::VarSeq(n), Op::FixedSeq(n.wrapping_add(1)), Op::FixedSeq(n.wrapping_sub(1)), Op::FixedSeq(!n)]);
                } else {
                    ops.push(Op::FixedSeq(n));
                }
                ops.extend(enc_ops[path.len()..].iter().cloned());
                if n > 3 {
                    ops.extend([Op::FinSeq, Op::FinTuple, item.clone()]);
                } else {
                    ops.push(Op::SeqElem);
                }
                let mut written = vec![];
                for op in ops {
                    let exp = match m.verdict(&op) {
                        Verdict::Ok => {
                            let got = if dec { m.read(&op, &mut c).expect("in the stream") } else { Got::Nothing };
                            if !dec {
                                m.bytes(&op, &mut written);
                            }
                            m.apply(&op, &got);
                            Exp::Ok(got)
                        }
                        Verdict::Reject(j) => Exp::Rej(j),
                        Verdict::Illegal => unreachable!(),
                    };
                    let at = Some(if dec { c.pos } else { written.len() });
                    p.steps.push(Step { op, exp, at });
                }
                p.finishes = m.finished();
                let mon = Mon { reports: !fixed || q % 4 == 0, stream: true, kinds: true, fresh: true };
                plain_exec(cx, &s, &t, &p, mon)?;
                cx.count("lengths announced", 1);
                cx.nontrivial((n, fixed, dec));
            }
        }
    }
    Ok(())
}

/// Coding of large values, with wrong calls where counters of 8 and 16 bits
/// turn over and at the ends of containers.
fn big_sessions(cx: &mut Cx) -> R {
    for (s, v) in super::format::edge_cases(&mut cx.rng, false) {
        let t = Tree::new(&s);
        // (errors come with an outline of the schema, slow for deep ones)
        if vcount(&v) < 100 || super::mem::depth(&t) > 40 {
            continue;
        }
        let b = enc(&t, &v).expect("edge value conforms");
        for dir in [Dir::Enc, Dir::Dec] {
            big_session(cx, &s, &t, &v, &b, dir)?;
        }
    }
    Ok(())
}

fn big_session(cx: &mut Cx, s: &Schema, t: &Tree, v: &Value, b: &[u8], dir: Dir) -> R {
    let plain = plan_value(dir, t, v, b);
    // (an error may come with the text of the whole schema)
    let probes = t.nodes.len() < 1000;
    let mut m = Model::new(t);
    let mut c = Cur::new(b);
    let mut p = Plan { dir, steps: vec![], bytes: b.to_vec(), finishes: true };
    let mut elems = 0usize;
    let mut at = 0usize;
    let n = plain.steps.len();
    // (nor is the text of a deep stack of frames written quickly)
    let mut deep = 0usize;
    let mut wrong = 0u64;
    for (i, step) in plain.steps.into_iter().enumerate() {
        let low = elems & 0xff;
        if low <= 2 || low >= 254 || i < 6 || i + 6 >= n {
            if (matches!(elems, 0..=600 | 65500..=65600) && (deep < 60 || elems % 64 < 3)) || i + 6 >= n {
                let mut ops = vec![Op::FinSeq, Op::FinTuple, Op::FinStruct, Op::SeqElem, Op::TupleElem];
                ops.push(Op::Field(format!("f{}", elems)));
                ops.push(Op::Field(format!("f{}", elems & 0xff)));
                ops.push(wild_op(&mut cx.rng, dir == Dir::Dec));
                for op in ops {
                    if !probes && !matches!(op, Op::FinSeq | Op::FinTuple | Op::FinStruct) {
                        continue;
                    }
                    if let Verdict::Reject(j) = m.verdict(&op) {
                        p.steps.push(Step { op, exp: Exp::Rej(j), at: Some(at) });
                        wrong += 1;
                    }
                }
            }
        }
        if matches!(step.op, Op::SeqElem | Op::TupleElem | Op::Field(_)) {
            elems += 1;
        }
        let got = match &step.exp {
            Exp::Ok(g) => g.clone(),
            _ => unreachable!(),
        };
        if dir == Dir::Dec {
            let _ = m.read(&step.op, &mut c);
        }
        m.apply(&step.op, &got);
        deep = m.stack.len();
        at = step.at.unwrap_or(at);
        p.steps.push(step);
    }
    let mon = Mon { reports: true, stream: true, kinds: true, fresh: cx.rng.chance(1, 2) };
    plain_exec(cx, s, t, &p, mon)?;
    cx.count("wrong calls in large values", wrong);
    cx.count("large values coded", 1);
    cx.nontrivial((vshow(v), b.len(), dir == Dir::Enc));
    Ok(())
}

/// Struct fields and variants by names that are almost right, and by ordinals that are.
fn near_names(cx: &mut Cx) -> R {
    let mut pairs = super::format::near_names(&mut cx.rng);
    pairs.extend(pairs.clone().into_iter().map(|(a, b)| (b, a)));
    for (k, (right, wrong)) in pairs.into_iter().enumerate() {
        let u8s = || Schema::Scalar(ScalarType::U8);
        let st = Schema::Struct(["first", &right, "last"].iter().map(|n| StructSchemaField { name: n.to_string(), inner: u8s() }).collect());
        let en = Schema::Enum(["first", &right, "last"].iter().map(|n| EnumSchemaVariant { name: n.to_string(), inner: u8s() }).collect());
        let item = Op::Scalar(ScalarValue::U8(k as u8));
        for dec in [false, true] {
            for (s, ops) in [
                (
                    &st,
                    vec![
                        Op::Struct,
                        Op::Field("first".into()),
                        item.clone(),
                        Op::Field(wrong.clone()),
                        Op::Field("last".into()),
                        Op::Field(right.clone()),
                        item.clone(),
                        Op::Field(wrong.clone()),
                        Op::Field("last".into()),
                        item.clone(),
                        Op::Field(right.clone()),
                        Op::FinStruct,
                    ],
                ),
                (
                    &en,
                    if dec {
                        vec![Op::EnumName(right.clone()), Op::EnumOrd, Op::EnumName(wrong.clone()), Op::EnumName("first".into()), Op::EnumName(right.clone()), item.clone()]
                    } else {
                        let mut v: Vec<Op> = (0..usize::BITS).map(|b| Op::Enum(1 ^ 1 << b, right.clone())).collect();
                        v.extend([Op::Enum(1, wrong.clone()), Op::Enum(1, "first".into()), Op::Enum(1, right.clone()), item.clone()]);
                        v
                    },
                ),
            ] {
                let t = Tree::new(s);
                let bytes = if *s == st { vec![k as u8; 3] } else { vec![1, k as u8] };
                let mut m = Model::new(&t);
                let mut c = Cur::new(&bytes);
                let mut p = Plan { dir: if dec { Dir::Dec } else { Dir::Enc }, steps: vec![], bytes: bytes.clone(), finishes: false };
                let mut written = vec![];
                for op in ops {
                    let exp = match m.verdict(&op) {
                        Verdict::Ok => {
                            let got = if dec { m.read(&op, &mut c).expect("in the stream") } else { Got::Nothing };
                            if !dec {
                                m.bytes(&op, &mut written);
                            }
                            m.apply(&op, &got);
                            Exp::Ok(got)
                        }
                        Verdict::Reject(j) => Exp::Rej(j),
                        Verdict::Illegal => unreachable!(),
                    };
                    let at = Some(if dec { c.pos } else { written.len() });
                    p.steps.push(Step { op, exp, at });
                }
                p.finishes = m.finished();
                assert!(p.finishes);
                plain_exec(cx, s, &t, &p, Mon { reports: true, stream: true, kinds: true, fresh: true })?;
                cx.count("names near the right one", 1);
                cx.nontrivial((k, dec, *s == st));
            }
        }
    }
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        quick: 720_000,
        thorough: 43_200_000,
        directed: vec![
            ("very wide tuples and structs", super::format::wide),
            ("large values", big_sessions),
            ("lengths of every magnitude", big_lens), ("names that are almost right", near_names), ("every wrong call in every state of small schemas", c04_table)],
        case: c04_case,
        rule: "random legal schema; random encoder or decoder session mixing the right next call with wrong and near-wrong ones (0-60%), each call's acceptance and error kind compared with the API model; non-trivial = session with accepted and refused calls, distinct by (schema, direction, calls)",
    }
}

// ---------------------------------------------------------------- C05

fn c05_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let mut pc = PlanCfg::default();
    pc.doubt = *cx.rng.pick(&[20usize, 50, 75]);
    pc.max_steps = 120;
    pc.after = cx.rng.below(4);
    let (s, t, p) = session(cx, g, pc);
    // with the refused calls: each leaves stream and state alone
    let mon = Mon { reports: t.nodes.len() < 60 && cx.rng.chance(1, 3), stream: true, kinds: false, fresh: cx.rng.chance(1, 2) };
    let a = plain_exec(cx, &s, &t, &p, mon)?;
    // without them
    let mut q = p.clone();
    q.steps.retain(|x| !matches!(x.exp, Exp::Rej(_)));
    let b = plain_exec(cx, &s, &t, &q, mon)?;
    let kept: Vec<&Did> = a.iter().zip(&p.steps).filter(|(_, x)| !matches!(x.exp, Exp::Rej(_))).map(|(d, _)| d).collect();
    check!(
        kept.len() == b.len() && kept.iter().zip(&b).all(|(x, y)| *x == y),
        "twin",
        "results differ with and without refused calls: {:?} / {:?}; schema {}",
        kept,
        b,
        outline(&s)
    );
    let refused = p.steps.len() - q.steps.len();
    cx.count("refused calls checked", refused as u64);
    if refused > 0 && !q.steps.is_empty() {
        cx.nontrivial(key(&s, &p));
    }
    cx.sample(|| format!("{:?} {:?}: {:?}", s, p.dir, p.steps.iter().map(|x| (&x.op, &x.exp)).collect::<Vec<_>>()));
    Ok(())
}

/// A refused whole value, or serde value, at the root.
fn c05_whole(cx: &mut Cx) -> R {
    for _ in 0..3000 {
        let g = cfg(&mut cx.rng);
        let (s, t, v, b) = gen::case(&mut cx.rng, g);
        let (_, _, other, _) = gen::case(&mut cx.rng, g);
        // only if its very first call is refused
        let mut ops = vec![];
        enc_script(&other, &mut ops);
        let m = Model::new(&t);
        if !matches!(m.verdict(&ops[0]), Verdict::Reject(_)) {
            continue;
        }
        let mut w = W::new();
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let r = lib("refused encode_to", || other.encode_to(&mut Encoder::new(&mut st, &mut w)))?;
        check!(r.is_err(), "whole-accepted", "{} accepted under {}", vshow(&other), outline(&s));
        check!(w.calls == 0, "whole-stream", "refused {} reached the writer; schema {}", vshow(&other), outline(&s));
        let r = lib("encode_to", || v.encode_to(&mut Encoder::new(&mut st, &mut w)))?;
        check!(
            r.is_ok() && w.out == b && st.is_finished(),
            "whole-trace",
            "after refused {}: {:?}, bytes {}, should be {}; schema {}",
            vshow(&other),
            r.err().map(|e| e.to_string()),
            bshow(&w.out),
            bshow(&b),
            outline(&s)
        );
        cx.nontrivial((format!("{:?}", s), vshow(&other)));
        cx.count("refused whole values", 1);
    }
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        quick: 600_000,
        thorough: 36_000_000,
        directed: vec![
            ("large values", big_sessions),
            ("refused whole values", c05_whole), ("names that are almost right", near_names), ("every wrong call in every state of small schemas", c04_table)],
        case: c05_case,
        rule: "random session with 20-75% refused calls; stream calls and position watched at each refused call, finished reports and need() compared with the model, all later results compared with the model and with a twin run that omits the refused calls; non-trivial = session with a refused call, distinct by (schema, direction, calls)",
    }
}

// ---------------------------------------------------------------- C06

/// Everything must be refused from now on, without traffic.
fn dead(cx: &mut Cx, s: &Schema, t: &Tree, st: &mut CoderState, why: &str) -> R {
    let mut w = W::new();
    let data: Vec<u8> = (0..64).map(|i| (i % 3) as u8).collect();
    let mut rd = Rd::new(&data);
    let n = cx.rng.range(4, 12);
    for i in 0..n {
        check!(!st.is_finished(), "finished", "is_finished() after {}; schema {}", why, outline(s));
        match st.is_finished_or_err() {
            Ok(()) => return violation("finished-or-err", format!("Ok after {}; schema {}", why, outline(s))),
            Err(e) => {
                let _ = e.to_string();
                check!(e.kind() == ErrorKind::ApiUsage, "finished-or-err-kind", "{:?} after {}", e.kind(), why);
            }
        }
        let way = cx.rng.below(8);
        let (what, kind): (String, Option<ErrorKind>) = match way {
            0 => {
                let v = if t.is_legal() {
                    gen::value(&mut cx.rng, t, 5)
                } else {
                    let mut budget = 5;
                    bold_value(&mut cx.rng, t, 0, &mut budget, 50)
                };
                let r = lib("encode_to on a broken coder", || v.encode_to(&mut Encoder::new(st, &mut w)))?;
                (format!("encode_to {}", vshow(&v)), r.err().map(|e| e.kind()))
            }
            1 => {
                let r = lib("decode_from on a broken coder", || Value::decode_from(&mut Decoder::new(st, &mut rd)))?;
                ("decode_from".into(), r.err().map(|e| e.kind()))
            }
            2 => {
                // serde: only has to fail
                let r = lib("serde on a broken coder", || crate::dyns::de_any(&mut Decoder::new(st, &mut rd)).map(|_| ()))?;
                check!(r.is_err(), "serde-accepted", "deserialize_any succeeds after {}; schema {}", why, outline(s));
                ("serde".into(), Some(ErrorKind::ApiUsage))
            }
            3 | 4 => {
                let op = wild_op(&mut cx.rng, true);
                let r = lib(op.tag(), || dec_op(st, &mut rd, &op))?;
                (format!("decoder {:?}", op), r.err().map(|e| e.kind()))
            }
            5 => {
                let mut sb = String::from("old");
                let mut bb = vec![1u8, 2];
                let r = if cx.rng.chance(1, 2) {
                    lib("decode_str_into", || Decoder::new(st, &mut rd).decode_str_into(&mut sb))?
                } else {
                    lib("decode_bytes_into", || Decoder::new(st, &mut rd).decode_bytes_into(&mut bb))?
                };
                ("decode_*_into".into(), r.err().map(|e| e.kind()))
            }
            _ => {
                let op = wild_op(&mut cx.rng, false);
                let r = lib(op.tag(), || enc_op(st, &mut w, &op))?;
                (format!("encoder {:?}", op), r.err().map(|e| e.kind()))
            }
        };
        check!(
            kind == Some(ErrorKind::ApiUsage),
            format!("alive:{}", what.split(' ').take(2).collect::<Vec<_>>().join(" ").split('(').next().unwrap_or("")),
            "call {} after {}: {} gives {:?}; schema {}",
            i,
            why,
            what,
            kind,
            outline(s)
        );
        check!(
            w.calls == 0 && rd.calls == 0,
            "traffic",
            "call {} after {}: {} touched the stream ({} writes, {} reads); schema {}",
            i,
            why,
            what,
            w.calls,
            rd.calls,
            outline(s)
        );
        cx.count("calls on broken coders", 1);
    }
    check!(!st.is_finished(), "finished", "is_finished() after {}; schema {}", why, outline(s));
    // and right calls in the state the model would be in are covered above by
    // encode_to/decode_from of conforming values
    Ok(())
}

fn c06_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    match cx.rng.below(4) {
        // writer fails
        0 => {
            let (s, t, v, b) = gen::case(&mut cx.rng, g);
            if b.is_empty() {
                return Err(Fail::Skip("message without bytes"));
            }
            let at = if cx.rng.chance(1, 2) { b.len() - 1 } else { cx.rng.below(b.len()) };
            let mut w = W::chunked(&mut cx.rng);
            w.fail_at = Some(at);
            w.zero = cx.rng.chance(1, 5);
            w.fail_kind = *cx.rng.pick(FAULT_KINDS);
            let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
            let mut ops = vec![];
            enc_script(&v, &mut ops);
            let whole = cx.rng.chance(1, 3);
            let mut k = 0;
            let r = lib("encode with faulty writer", || {
                let mut e = Encoder::new(&mut st, &mut w);
                if whole {
                    return v.encode_to(&mut e);
                }
                for op in &ops {
                    enc_on(&mut e, op)?;
                    k += 1;
                }
                Ok(())
            })?;
            match &r {
                Ok(()) => return violation("fault-swallowed", format!("writer fault after {} bytes lost; schema {}", at, outline(&s))),
                Err(e) => check!(is_fatal(e.kind()), "fault-kind", "{:?}", e.kind()),
            }
            let why = format!("writer fault at byte {} of {} (call {} of {}, value {})", at, b.len(), k, ops.len(), vshow(&v));
            dead(cx, &s, &t, &mut st, &why)?;
            if !whole {
                // the very call that failed, and the one that would have been next
                for op in ops[k..].iter().take(2) {
                    let mut w2 = W::new();
                    let r = lib(op.tag(), || enc_op(&mut st, &mut w2, op))?;
                    check!(
                        matches!(&r, Err(e) if e.kind() == ErrorKind::ApiUsage) && w2.calls == 0 && !st.is_finished(),
                        format!("retry:{}", op.tag()),
                        "{:?} after {} gives {:?}",
                        op,
                        why,
                        r.map_err(|e| e.to_string())
                    );
                }
            }
            cx.count("writer faults", 1);
            if at == b.len() - 1 {
                cx.count("faults at the last byte", 1);
            }
            cx.nontrivial((format!("{:?}", s), b, at));
        }
        // reader fails or data are bad, as a session of calls
        1 => {
            let (s, t, _, b) = gen::case(&mut cx.rng, g);
            let mut m = b.clone();
            if cx.rng.chance(1, 2) && !b.is_empty() {
                let k = cx.rng.below(b.len());
                m.truncate(if cx.rng.chance(1, 2) { b.len() - 1 } else { k });
            } else {
                m = gen::mutate(&mut cx.rng, &b);
            }
            let pc = PlanCfg { doubt: 5, after: 8, max_steps: 200, ..PlanCfg::default() };
            let p = plan_dec(&mut cx.rng, &t, &m, pc);
            let f = p.steps.iter().position(|x| matches!(x.exp, Exp::Fatal(_)));
            let f = match f {
                Some(f) => f,
                None => return Err(Fail::Skip("no fatal error")),
            };
            let e = match &p.steps[f].exp {
                Exp::Fatal(e) => *e,
                _ => unreachable!(),
            };
            if e == DErr::Unspecified {
                return Err(Fail::Skip("meaning of the bytes is not specified"));
            }
            let mon = Mon { reports: cx.rng.chance(1, 2), stream: true, kinds: true, fresh: cx.rng.chance(1, 2) };
            plain_exec(cx, &s, &t, &p, mon)?;
            cx.count(&format!("broken by {:?}", e), 1);
            cx.nontrivial(key(&s, &p));
        }
        // reader fails or data are bad, then everything is tried
        2 => {
            let (s, t, _, b) = gen::case(&mut cx.rng, g);
            let m = match cx.rng.below(3) {
                0 if !b.is_empty() => b[..b.len() - 1].to_vec(),
                1 if !b.is_empty() => b[..cx.rng.below(b.len())].to_vec(),
                _ => gen::mutate(&mut cx.rng, &b),
            };
            let mut cur = Cur::new(&m);
            match cur.value(&t, 0) {
                Err(DErr::Budget) => return Err(Fail::Skip("too many values")),
                Ok(_) if cur.values > 20_000 => return Err(Fail::Skip("too many values")),
                _ => {}
            }
            let mut rd = Rd::chunked(&m, &mut cx.rng);
            if cx.rng.chance(1, 3) && !m.is_empty() {
                rd.fail_at = Some(cx.rng.below(m.len()));
                rd.fail_kind = *cx.rng.pick(FAULT_KINDS);
            }
            let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
            let any = cx.rng.chance(1, 2);
            let r = lib("decode of bad data", || {
                let mut d = Decoder::new(&mut st, &mut rd);
                if any {
                    crate::dyns::de_any(&mut d).map(|_| ())
                } else {
                    Value::decode_from(&mut d).map(|_| ())
                }
            })?;
            match r {
                Ok(()) => return Err(Fail::Skip("no fatal error")),
                Err(e) => {
                    if !is_fatal(e.kind()) {
                        return Err(Fail::Skip("no fatal error"));
                    }
                    let why = format!("{:?} decoding {} ({})", e.kind(), bshow(&m), if any { "serde" } else { "Value" });
                    dead(cx, &s, &t, &mut st, &why)?;
                    cx.count(&format!("broken by {:?}", e.kind()), 1);
                    cx.nontrivial((format!("{:?}", s), m.clone(), any));
                }
            }
        }
        // illegal schema
        _ => {
            let mut g = g;
            g.illegal = true;
            g.recurse = 6;
            let (s, t) = match illegal_schema(cx, g) {
                Some(x) => x,
                None => return Err(Fail::Skip("no illegal schema found")),
            };
            if cx.rng.chance(1, 2) {
                return c06_illegal_whole(cx, &s, &t);
            }
            let pc = PlanCfg { doubt: 8, after: 8, bold: true, ..PlanCfg::default() };
            let p = if cx.rng.chance(1, 2) {
                plan_enc(&mut cx.rng, &t, pc)
            } else {
                let b: Vec<u8> = (0..40).map(|_| cx.rng.below(3) as u8).collect();
                plan_dec(&mut cx.rng, &t, &b, pc)
            };
            if !p.steps.iter().any(|x| x.exp == Exp::Fatal(DErr::Illegal)) {
                return Err(Fail::Skip("no fatal error"));
            }
            let mon = Mon { reports: true, stream: true, kinds: true, fresh: cx.rng.chance(1, 2) };
            plain_exec(cx, &s, &t, &p, mon)?;
            cx.count("broken by Illegal", 1);
            cx.nontrivial(key(&s, &p));
        }
    }
    Ok(())
}

/// An illegal reference met by a whole value or by serde, then everything is
/// tried.
fn c06_illegal_whole(cx: &mut Cx, s: &Schema, t: &Tree) -> R {
    let mut st = CoderState::new(s, CoderStateAlloc::new(), None);
    let data: Vec<u8> = (0..40).map(|_| cx.rng.below(3) as u8).collect();
    let mut rd = &data[..];
    let mut w = W::new();
    let (what, r): (String, Result<(), binschema::error::Error>) = match cx.rng.below(4) {
        0 => {
            let mut budget = 20;
            let v = bold_value(&mut cx.rng, t, 0, &mut budget, 100);
            (format!("encode_to {}", vshow(&v)), lib("encode_to", || v.encode_to(&mut Encoder::new(&mut st, &mut w)))?)
        }
        1 => ("decode_from".into(), lib("decode_from", || Value::decode_from(&mut Decoder::new(&mut st, &mut rd)).map(|_| ()))?),
        2 => ("deserialize_any".into(), lib("deserialize_any", || crate::dyns::de_any(&mut Decoder::new(&mut st, &mut rd)).map(|_| ()))?),
        _ => {
            let r = lib("ignored", || {
                use serde::Deserialize;
                serde::de::IgnoredAny::deserialize(&mut Decoder::new(&mut st, &mut rd)).map(|_| ())
            })?;
            ("ignored".into(), r)
        }
    };
    match r {
        Err(e) if e.kind() == ErrorKind::IllegalSchema => {
            let why = format!("an illegal reference met by {}", what);
            dead(cx, s, t, &mut st, &why)?;
            cx.count(&format!("broken by Illegal in {}", what.split(' ').next().unwrap_or("")), 1);
            cx.nontrivial((format!("{:?}", s), what, data.clone()));
            Ok(())
        }
        _ => Err(Fail::Skip("no fatal error")),
    }
}

/// Each kind of wrapping of an illegal reference that has to be met.
fn c06_illegal_places(cx: &mut Cx) -> R {
    let wraps: Vec<fn(Schema) -> Schema> = vec![
        |s| s,
        |s| Schema::Option(Box::new(s)),
        |s| Schema::Seq(SeqSchema { len: Some(2), inner: Box::new(s) }),
        |s| Schema::Tuple(vec![Schema::Unit, s]),
        |s| Schema::Struct(vec![StructSchemaField { name: "f".into(), inner: s }]),
        |s| Schema::Enum(vec![EnumSchemaVariant { name: "v".into(), inner: s }]),
    ];
    for a in &wraps {
        for b in &wraps {
            for lvl in [0usize, 3, 257, 65537, (1 << 31) + 1, usize::MAX / 0xffff_ffff, usize::MAX] {
                let s = a(b(Schema::Recurse(lvl)));
                let t = Tree::new(&s);
                for _ in 0..12 {
                    match c06_illegal_whole(cx, &s, &t) {
                        Ok(()) | Err(Fail::Skip(_)) => (),
                        Err(e) => return Err(e),
                    }
                }
            }
        }
    }
    Ok(())
}

/// Each way the last piece of a message can fail, for each kind of it.
fn c06_last(cx: &mut Cx) -> R {
    let mut cases: Vec<(Schema, Vec<u8>)> = vec![];
    let mut r = Rng::new(3);
    for &st in &SCALARS {
        let s = Schema::Scalar(st);
        let t = Tree::new(&s);
        let v = Value::Scalar(gen::scalar(&mut r, st));
        let b = enc(&t, &v).unwrap();
        for i in 0..b.len() {
            cases.push((s.clone(), b[..i].to_vec()));
        }
        match st {
            ScalarType::Bool => cases.push((s, vec![2])),
            ScalarType::Char => {
                cases.push((s.clone(), vec![0x80, 0xb0, 0x03])); // d800
                cases.push((s.clone(), vec![0x80, 0x80, 0x44])); // 110000
                cases.push((s, vec![0xff; 19]));
            }
            ScalarType::U32 | ScalarType::I32 => {
                cases.push((s.clone(), vec![0xff, 0xff, 0xff, 0xff, 0x7f]));
                cases.push((s, vec![0xff; 19]));
            }
            ScalarType::U64 | ScalarType::I64 => {
                cases.push((s.clone(), vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f]));
                cases.push((s, vec![0xff; 19]));
            }
            ScalarType::U128 | ScalarType::I128 => cases.push((s, vec![0xff; 19])),
            _ => {}
        }
    }
    let big = vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f];
    for s in [Schema::Str, Schema::Bytes] {
        cases.push((s.clone(), vec![]));
        cases.push((s.clone(), vec![0x83]));
        cases.push((s.clone(), vec![3, 65]));
        cases.push((s.clone(), big.clone()));
        cases.push((s.clone(), vec![0x80; 19]));
    }
    cases.push((Schema::Str, vec![1, 0xff]));
    cases.push((Schema::Option(Box::new(Schema::Unit)), vec![]));
    cases.push((Schema::Option(Box::new(Schema::Unit)), vec![2]));
    cases.push((Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Unit) }), vec![]));
    cases.push((Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Unit) }), big));
    let e2 = Schema::Enum(vec![
        EnumSchemaVariant { name: "a".into(), inner: Schema::Unit },
        EnumSchemaVariant { name: "b".into(), inner: Schema::Unit },
    ]);
    cases.push((e2.clone(), vec![]));
    cases.push((e2, vec![2]));
    let wrap: [fn(Schema) -> Schema; 5] = [
        |s| s,
        |s| Schema::Option(Box::new(s)),
        |s| Schema::Tuple(vec![Schema::Unit, s]),
        |s| Schema::Seq(SeqSchema { len: Some(1), inner: Box::new(s) }),
        |s| Schema::Enum(vec![EnumSchemaVariant { name: "o".into(), inner: s }]),
    ];
    for (s0, b0) in cases {
        for (wi, wf) in wrap.iter().enumerate() {
            let s = wf(s0.clone());
            let t = Tree::new(&s);
            let mut b = if wi == 1 { vec![1] } else { vec![] };
            b.extend_from_slice(&b0);
            let want = Cur::new(&b).value(&t, 0);
            let want = match want {
                Err(e) => e,
                Ok(v) => panic!("harness: {:?} decodes as {:?}", b, v),
            };
            for way in 0..3 {
                let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
                let mut rd = Rd::new(&b);
                let r = lib("decode of bad data", || {
                    let mut d = Decoder::new(&mut st, &mut rd);
                    match way {
                        0 => Value::decode_from(&mut d).map(|_| ()),
                        1 => crate::dyns::de_any(&mut d).map(|_| ()),
                        _ => {
                            // by calls, from the model
                            let mut m = Model::new(&t);
                            let mut c = Cur::new(&b);
                            let cost = t.min_cost();
                            let mut r = Rng::new(1);
                            while let Some(op) = right_op(&mut r, &m, &cost, false, true) {
                                let got = dec_on(&mut d, &op)?;
                                match m.read(&op, &mut c) {
                                    Ok(g) => {
                                        if g != got {
                                            return Ok(());
                                        }
                                        m.apply(&op, &g);
                                    }
                                    Err(_) => return Ok(()),
                                }
                            }
                            Ok(())
                        }
                    }
                })?;
                let e = match r {
                    Ok(()) => {
                        if want == DErr::Unspecified {
                            continue;
                        }
                        return violation("bad-accepted", format!("{} decoded under {} (way {})", bshow(&b), outline(&s), way));
                    }
                    Err(e) => e,
                };
                check!(
                    derr_matches(want, e.kind()) && is_fatal(e.kind()),
                    format!("bad-kind:{:?}:{:?}", want, e.kind()),
                    "{} under {} (way {}): {}",
                    bshow(&b),
                    outline(&s),
                    way,
                    e
                );
                let why = format!("{:?} decoding {} (way {})", e.kind(), bshow(&b), way);
                dead(cx, &s, &t, &mut st, &why)?;
                cx.count("last pieces failed", 1);
                cx.nontrivial((format!("{:?}", s), b.clone(), way));
            }
        }
    }
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        quick: 720_000,
        thorough: 43_200_000,
        directed: vec![("every way the last piece fails", c06_last), ("illegal references in each kind of place", c06_illegal_places)],
        case: c06_case,
        rule: "random schema and message; a fatal error is provoked (writer or reader fault, early end, malformed byte, oversized length, illegal reference), often in the last piece, then 4-12 further calls of every sort are made (encoder, decoder, Value, serde) with the streams watched; non-trivial = case with a fatal error, distinct by (schema, data or calls, fault point)",
    }
}

// ---------------------------------------------------------------- C07

/// Not finished after a fatal error, however many calls follow.
fn unfinished(cx: &mut Cx, s: &Schema, t: &Tree, st: &mut CoderState, why: &str) -> R {
    for i in 0..4 {
        check!(!st.is_finished(), "finished-after-fatal", "is_finished() after {} and {} calls; schema {}", why, i, outline(s));
        match st.is_finished_or_err() {
            Ok(()) => {
                return violation(
                    "finished-after-fatal-or-err",
                    format!("is_finished_or_err() is Ok after {} and {} calls; schema {}", why, i, outline(s)),
                )
            }
            Err(e) => check!(e.kind() == ErrorKind::ApiUsage, "is_finished_or_err-kind", "{:?} after {}", e.kind(), why),
        }
        // (whether these are refused is for C06 to say)
        let mut w = W::new();
        match i {
            0 => {
                let op = wild_op(&mut cx.rng, false);
                let _ = lib(op.tag(), || enc_op(st, &mut w, &op))?;
            }
            1 => {
                let op = wild_op(&mut cx.rng, true);
                let _ = lib(op.tag(), || dec_op(st, &mut Rd::new(&[1, 0, 1, 0, 0, 0, 0, 0, 0]), &op))?;
            }
            _ => {
                let v = gen::value(&mut cx.rng, t, 5);
                let _ = lib("encode_to on a broken coder", || v.encode_to(&mut Encoder::new(st, &mut w)))?;
            }
        }
    }
    cx.count("reports compared after fatal errors", 8);
    Ok(())
}

/// A fatal error, often in the last piece of the message, and the reports
/// after it.
fn c07_fault(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let way = cx.rng.below(3);
    let (r, what) = if cx.rng.chance(1, 2) {
        if b.is_empty() {
            return Err(Fail::Skip("message without bytes"));
        }
        let at = if cx.rng.chance(1, 2) { b.len() - 1 } else { cx.rng.below(b.len()) };
        let mut w = W::chunked(&mut cx.rng);
        w.fail_at = Some(at);
        w.zero = cx.rng.chance(1, 5);
        w.fail_kind = *cx.rng.pick(FAULT_KINDS);
        let mut ops = vec![];
        enc_script(&v, &mut ops);
        let r = lib("encode with faulty writer", || {
            let mut e = Encoder::new(&mut st, &mut w);
            if way == 0 {
                return v.encode_to(&mut e);
            }
            ops.iter().try_for_each(|op| enc_on(&mut e, op))
        })?;
        (r, format!("writer fault at byte {} of {}", at, b.len()))
    } else {
        let mut rd = Rd::chunked(&b, &mut cx.rng);
        let m;
        let what;
        match cx.rng.below(3) {
            0 if !b.is_empty() => {
                let at = if cx.rng.chance(1, 2) { b.len() - 1 } else { cx.rng.below(b.len()) };
                rd.fail_at = Some(at);
                rd.fail_kind = *cx.rng.pick(FAULT_KINDS);
                what = format!("reader fault at byte {} of {}", at, b.len());
            }
            1 if !b.is_empty() => {
                let k = cx.rng.below(b.len());
                m = b[..if cx.rng.chance(1, 2) { b.len() - 1 } else { k }].to_vec();
                rd = Rd::chunked(&m, &mut cx.rng);
                what = format!("the end of the input after {} of {} bytes", m.len(), b.len());
            }
            _ => {
                m = gen::mutate(&mut cx.rng, &b);
                let mut cur = Cur::new(&m);
                match cur.value(&t, 0) {
                    Err(DErr::Budget) => return Err(Fail::Skip("too many values")),
                    Ok(_) if cur.values > 20_000 => return Err(Fail::Skip("too many values")),
                    _ => {}
                }
                rd = Rd::chunked(&m, &mut cx.rng);
                what = format!("decoding {}", bshow(&m));
            }
        }
        let mut ops = vec![];
        dec_script(&v, &mut ops);
        let r = lib("decode of bad data", || {
            let mut d = Decoder::new(&mut st, &mut rd);
            match way {
                0 => Value::decode_from(&mut d).map(|_| ()),
                1 => crate::dyns::de_any(&mut d).map(|_| ()),
                _ => ops.iter().try_for_each(|(op, _)| dec_on(&mut d, op).map(|_| ())),
            }
        })?;
        (r, what)
    };
    match r {
        Err(e) if is_fatal(e.kind()) => {
            let why = format!("{:?} from {} (way {}, value {})", e.kind(), what, way, vshow(&v));
            unfinished(cx, &s, &t, &mut st, &why)?;
            cx.nontrivial((format!("{:?}", s), what, way));
            Ok(())
        }
        _ => Err(Fail::Skip("no fatal error")),
    }
}

fn c07_case(cx: &mut Cx) -> R {
    if cx.rng.chance(1, 4) {
        return c07_fault(cx);
    }
    let g = cfg(&mut cx.rng);
    let mon = Mon { reports: true, stream: false, kinds: false, fresh: true };
    if cx.rng.chance(1, 3) {
        let mut pc = PlanCfg::default();
        pc.max_steps = 60;
        pc.cut = 20;
        pc.doubt = 20;
        let (s, t, p) = session(cx, g, pc);
        plain_exec(cx, &s, &t, &p, mon)?;
        cx.count("reports compared", p.steps.len() as u64 + 1);
        cx.nontrivial(key(&s, &p));
        return Ok(());
    }
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    let dir = if cx.rng.chance(1, 2) { Dir::Enc } else { Dir::Dec };
    let p = plan_value(dir, &t, &v, &b);
    if p.steps.len() > 120 {
        return Err(Fail::Skip("too many steps"));
    }
    plain_exec(cx, &s, &t, &p, mon)?;
    cx.count("reports compared", p.steps.len() as u64 + 1);
    // abandoned after every proper prefix of the calls
    let k = cx.rng.below(p.steps.len());
    let mut q = p.clone();
    q.steps.truncate(k);
    q.finishes = false;
    q.bytes = if dir == Dir::Enc { b[..q.steps.last().and_then(|x| x.at).unwrap_or(0)].to_vec() } else { b.clone() };
    plain_exec(cx, &s, &t, &q, mon)?;
    // all bytes written, containers not closed
    let closed = p.steps.iter().rev().take_while(|x| matches!(x.op, Op::FinSeq | Op::FinTuple | Op::FinStruct)).count();
    if closed > 0 {
        cx.count("prefixes with all bytes but open containers", closed as u64);
    }
    if p.steps.len() > 1 {
        cx.nontrivial((format!("{:?}", s), b, dir == Dir::Enc, k));
    }
    cx.sample(|| format!("{:?} {:?}: reports after each of {:?}", s, dir, p.steps.iter().map(|x| &x.op).collect::<Vec<_>>()));
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        quick: 600_000,
        thorough: 36_000_000,
        directed: vec![
            ("large values", big_sessions),
            ("every wrong call in every state of small schemas", c04_table)],
        case: c07_case,
        rule: "random legal session (also cut short, also with refused calls); is_finished, is_finished_or_err and need() compared with the model before the first call and after every call; non-trivial = session of more than one call, distinct by (schema, bytes or calls, direction, cut)",
    }
}

// ---------------------------------------------------------------- C08

fn c08_one(cx: &mut Cx, s: &Schema, t: &Tree, v: &Value, b: &[u8]) -> R {
    for dir in [Dir::Enc, Dir::Dec] {
        let p = plan_value(dir, t, v, b);
        let mon = Mon { reports: t.nodes.len() < 60 && cx.rng.chance(1, 2), stream: true, kinds: true, fresh: cx.rng.chance(1, 2) };
        plain_exec(cx, s, t, &p, mon)?;
    }
    // written in place
    let times = cx.rng.range(1, 4);
    let u = unfold(&mut cx.rng, s, times);
    let tu = Tree::new(&u);
    if let Err(e) = equivalent(t, &tu) {
        panic!("harness: unfolding is not equivalent: {}; {:?} / {:?}", e, s, u);
    }
    for (which, sch) in [("original", s), ("unfolded", &u)] {
        let mut w: Vec<u8> = vec![];
        let c = encode_with(sch, &mut w, "Value::encode_to", |e| v.encode_to(e))?;
        check!(
            c.res.is_ok() && c.finished && w == b,
            format!("encode:{}", which),
            "value {} under the {} schema: {:?}, {}, should be {}; schema {}; unfolded {}",
            vshow(v),
            which,
            c.res.err().map(|e| e.to_string()),
            bshow(&w),
            bshow(b),
            outline(s),
            outline(&u)
        );
        let mut rd = b;
        let (r, fin) = decode_with(sch, &mut rd, "Value::decode_from", |d| value_from(d))?;
        match r {
            Ok(v2) => check!(
                veq(v, &v2) && fin && rd.is_empty(),
                format!("decode:{}", which),
                "{} under the {} schema decodes as {}, is {}; schema {}; unfolded {}",
                bshow(b),
                which,
                vshow(&v2),
                vshow(v),
                outline(s),
                outline(&u)
            ),
            Err(e) => {
                return violation(
                    format!("decode-refused:{}:{:?}", which, e.kind()),
                    format!("{} under the {} schema: {}; schema {}; unfolded {}", bshow(b), which, e, outline(s), outline(&u)),
                )
            }
        }
    }
    Ok(())
}

/// Recurse references passed on the way through the value.
fn passes(t: &Tree, id: usize, v: &Value, depth: &mut usize, max: &mut usize, total: &mut u64) {
    if let Kind::Recurse(_) = t.kind(id) {
        *total += 1;
        *depth += 1;
        *max = (*max).max(*depth);
        let r = t.resolve(id).unwrap();
        passes(t, r, v, depth, max, total);
        *depth -= 1;
        return;
    }
    match (t.kind(id), v) {
        (Kind::Option(i), Value::Option(Some(x))) => passes(t, *i, x, depth, max, total),
        (Kind::Seq(_, i), Value::FixedLenSeq(x)) | (Kind::Seq(_, i), Value::VarLenSeq(x)) => {
            x.iter().for_each(|y| passes(t, *i, y, depth, max, total))
        }
        (Kind::Tuple(is), Value::Tuple(x)) => is.iter().zip(x).for_each(|(i, y)| passes(t, *i, y, depth, max, total)),
        (Kind::Struct(is), Value::Struct(x)) => {
            is.iter().zip(x).for_each(|(i, y)| passes(t, i.1, &y.value, depth, max, total))
        }
        (Kind::Enum(is), Value::Enum(x)) => passes(t, is[x.variant_ord].1, &x.value, depth, max, total),
        _ => {}
    }
}

fn c08_case(cx: &mut Cx) -> R {
    let mut g = cfg(&mut cx.rng);
    g.recurse = *cx.rng.pick(&[6usize, 12, 25]);
    g.wide = false;
    for _ in 0..50 {
        let (s, t) = gen::good_schema(&mut cx.rng, g);
        if !t.has_recurse() {
            continue;
        }
        let budget = *cx.rng.pick(&[10i64, 30, 60]);
        let v = gen::value(&mut cx.rng, &t, budget);
        if vcount(&v) > 2000 {
            continue;
        }
        let (mut d, mut max, mut total) = (0, 0, 0);
        passes(&t, 0, &v, &mut d, &mut max, &mut total);
        if max < 1 {
            continue;
        }
        let b = enc(&t, &v).unwrap();
        c08_one(cx, &s, &t, &v, &b)?;
        cx.count("recurse references passed", total);
        cx.count(&format!("values with references nested {}", if max > 3 { "4+".to_string() } else { max.to_string() }), 1);
        cx.nontrivial((format!("{:?}", s), &b));
        cx.sample(|| format!("{:?} : {:?}", s, v));
        if cx.rng.chance(1, 3) {
            // a session with wrong calls
            let p = plan_enc(&mut cx.rng, &t, PlanCfg::default());
            plain_exec(cx, &s, &t, &p, ALL)?;
            let p = plan_dec(&mut cx.rng, &t, &b, PlanCfg::default());
            plain_exec(cx, &s, &t, &p, ALL)?;
        }
        return Ok(());
    }
    Err(Fail::Skip("no value through a reference"))
}

/// All schemas `outer { a { recurse i, .. }, .. }` with references of every
/// level, reached through references of every level.
fn c08_levels(cx: &mut Cx) -> R {
    // each level is an enum: stop, or go down, or go up by k
    for depth in 2..=5usize {
        let mut s = Schema::Scalar(ScalarType::U8);
        for lvl in (1..=depth).rev() {
            let mut vars = vec![
                EnumSchemaVariant { name: format!("stop{}", lvl), inner: Schema::Scalar(ScalarType::U16) },
                EnumSchemaVariant { name: "down".into(), inner: s },
            ];
            for k in 1..=lvl {
                vars.push(EnumSchemaVariant { name: format!("up{}", k), inner: Schema::Recurse(k) });
            }
            s = Schema::Enum(vars);
        }
        let t = Tree::new(&s);
        assert!(t.is_legal());
        // walks: sequences of moves, then the marker of the level
        fn go(s: &Tree, id: usize, moves: &[usize]) -> Option<Value> {
            let id = s.resolve(id)?;
            let ev = |o: usize, n: &str, v: Value| {
                Value::Enum(binschema::value::EnumValue { variant_ord: o, variant_name: n.into(), value: Box::new(v) })
            };
            match s.kind(id) {
                Kind::Scalar(_) => Some(Value::Scalar(ScalarValue::U8(7))),
                Kind::Enum(v) => match moves.split_first() {
                    None => Some(ev(0, &v[0].0, Value::Scalar(ScalarValue::U16(0x0102)))),
                    Some((m, rest)) => {
                        let m = 1 + m % (v.len() - 1);
                        Some(ev(m, &v[m].0, go(s, v[m].1, rest)?))
                    }
                },
                _ => None,
            }
        }
        let walks: usize = if cx.tier == Tier::Quick { 400 } else { 4000 };
        for w in 0..walks {
            let len = w % 9 + 1;
            let mut x = w / 9;
            let mut moves = vec![];
            for _ in 0..len {
                moves.push(x % (depth + 1));
                x /= depth + 1;
            }
            if w % 3 == 0 {
                moves = (0..len).map(|_| cx.rng.below(8)).collect();
            }
            let v = go(&t, 0, &moves).unwrap();
            let b = enc(&t, &v).unwrap();
            c08_one(cx, &s, &t, &v, &b)?;
            cx.nontrivial((depth, &b));
            cx.count("directed walks", 1);
        }
    }
    Ok(())
}

/// The calls and the bytes of a message thousands of references deep, made
/// without recursion, as values of that depth cannot be.
struct DeepMsg {
    enc: Vec<Op>,
    dec: Vec<(Op, Got)>,
    bytes: Vec<u8>,
}

enum DeepTask {
    Node(usize),
    Both(Op),
    Len(usize),
}

fn deep_msg(r: &mut Rng, t: &Tree, mut left: usize) -> DeepMsg {
    let mut m = DeepMsg { enc: vec![], dec: vec![], bytes: vec![] };
    let mut todo = vec![DeepTask::Node(0)];
    while let Some(x) = todo.pop() {
        let id = match x {
            DeepTask::Node(id) => t.resolve(id).unwrap(),
            DeepTask::Both(op) => {
                m.enc.push(op.clone());
                m.dec.push((op, Got::Nothing));
                continue;
            }
            DeepTask::Len(n) => {
                m.enc.push(Op::VarSeq(n));
                m.dec.push((Op::VarSeq(0), Got::Len(n)));
                put_uint(&mut m.bytes, n as u128);
                continue;
            }
        };
        let at = todo.len();
        match t.kind(id) {
            Kind::Scalar(st) => {
                let v = gen::scalar(r, *st);
                m.enc.push(Op::Scalar(v));
                m.dec.push((Op::Scalar(v), Got::Scalar(v)));
                put_scalar(&mut m.bytes, &v);
            }
            Kind::Option(i) => {
                m.enc.push(if left > 0 { Op::Some } else { Op::None });
                m.dec.push((Op::Option, Got::Opt(left > 0)));
                m.bytes.push((left > 0) as u8);
                if left > 0 {
                    todo.push(DeepTask::Node(*i));
                }
            }
            Kind::Seq(None, i) => {
                let n = if left > 0 { 2 } else { 0 };
                todo.push(DeepTask::Len(n));
                for _ in 0..n {
                    todo.push(DeepTask::Both(Op::SeqElem));
                    todo.push(DeepTask::Node(*i));
                }
                todo.push(DeepTask::Both(Op::FinSeq));
            }
            Kind::Tuple(v) => {
                todo.push(DeepTask::Both(Op::Tuple));
                for i in v {
                    todo.push(DeepTask::Both(Op::TupleElem));
                    todo.push(DeepTask::Node(*i));
                }
                todo.push(DeepTask::Both(Op::FinTuple));
            }
            Kind::Struct(v) => {
                todo.push(DeepTask::Both(Op::Struct));
                for (n, i) in v {
                    todo.push(DeepTask::Both(Op::Field(n.clone())));
                    todo.push(DeepTask::Node(*i));
                }
                todo.push(DeepTask::Both(Op::FinStruct));
            }
            Kind::Enum(v) => {
                let goes: Vec<usize> = (0..v.len())
                    .filter(|&k| !matches!(t.kind(t.resolve(v[k].1).unwrap()), Kind::Scalar(_)))
                    .collect();
                let k = if left > 0 { *r.pick(&goes) } else { 0 };
                left = left.saturating_sub(1);
                m.enc.push(Op::Enum(k, v[k].0.clone()));
                m.dec.push((Op::EnumOrd, Got::Ord(k)));
                m.dec.push((Op::EnumName(v[k].0.clone()), Got::Nothing));
                put_ord(&mut m.bytes, k, v.len());
                todo.push(DeepTask::Node(v[k].1));
            }
            k => unreachable!("{:?}", k),
        }
        todo[at..].reverse();
    }
    m
}

fn c08_deep(cx: &mut Cx) -> R {
    let field = |n: &str, s: Schema| StructSchemaField { name: n.into(), inner: s };
    let var = |n: String, s: Schema| EnumSchemaVariant { name: n, inner: s };
    let u8_ = || Schema::Scalar(ScalarType::U8);
    let lens: &[usize] = if cx.tier == Tier::Quick { &[300, 1200, 5000, 24_000, 70_000] } else { &[300, 1200, 5000, 24_000, 70_000, 70_000, 140_000, 1_100_000] };
    for style in 0..4usize {
        for depth in 2..=3usize {
            // each level: stop, or go down, or go up to any place above
            let mut s = u8_();
            for lvl in (1..=depth).rev() {
                let mut vars = vec![var(format!("stop{}", lvl), Schema::Scalar(ScalarType::U16)), var("down".into(), s)];
                let per = if style == 0 { 1 } else { 2 };
                for k in 1..=lvl * per {
                    vars.push(var(format!("up{}", k), Schema::Recurse(k)));
                }
                let e = Schema::Enum(vars);
                s = match style {
                    0 => e,
                    1 => Schema::Struct(vec![field("a", u8_()), field("next", e), field(&format!("c{}", lvl), Schema::Scalar(ScalarType::U16))]),
                    2 => Schema::Tuple(vec![e, u8_()]),
                    _ => Schema::Seq(SeqSchema { len: None, inner: Box::new(e) }),
                };
            }
            let t = Tree::new(&s);
            assert!(t.is_legal());
            for &n in lens {
                let m = deep_msg(&mut cx.rng, &t, n);
                let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
                let mut w: Vec<u8> = vec![];
                let mut at = 0;
                let r = lib("encode a deep message", || {
                    let mut e = Encoder::new(&mut st, &mut w);
                    for op in &m.enc {
                        enc_on(&mut e, op).map_err(|e| e.kind())?;
                        at += 1;
                    }
                    Ok::<(), ErrorKind>(())
                })?;
                check!(
                    r.is_ok() && st.is_finished() && w == m.bytes,
                    format!("deep-encode:{}", style),
                    "message {} references deep: {:?} at call {} of {} ({:?}), finished {}, {} bytes, should be {}; schema {}",
                    n,
                    r,
                    at,
                    m.enc.len(),
                    m.enc.get(at),
                    st.is_finished(),
                    w.len(),
                    m.bytes.len(),
                    outline(&s)
                );
                let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
                let mut rd = &m.bytes[..];
                let mut at = 0;
                let mut wrong = None;
                let r = lib("decode a deep message", || {
                    let mut d = Decoder::new(&mut st, &mut rd);
                    for (op, got) in &m.dec {
                        let g = dec_on(&mut d, op).map_err(|e| e.kind())?;
                        if g != *got {
                            wrong = Some(g);
                            break;
                        }
                        at += 1;
                    }
                    Ok::<(), ErrorKind>(())
                })?;
                check!(
                    r.is_ok() && wrong.is_none() && st.is_finished() && rd.is_empty(),
                    format!("deep-decode:{}", style),
                    "message {} references deep: {:?}, {:?} at call {} of {} ({:?}), finished {}, {} bytes left; schema {}",
                    n,
                    r,
                    wrong,
                    at,
                    m.dec.len(),
                    m.dec.get(at),
                    st.is_finished(),
                    rd.len(),
                    outline(&s)
                );
                cx.count("messages of hundreds to many thousands of nested references", 1);
                cx.count("calls of deep messages", (m.enc.len() + m.dec.len()) as u64);
                cx.nontrivial((style, depth, n, m.bytes));
            }
        }
    }
    Ok(())
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        quick: 60_000,
        thorough: 3_600_000,
        directed: vec![("walks through references of every level", c08_levels), ("messages thousands of references deep", c08_deep)],
        case: c08_case,
        rule: "random legal schema rich in references and a value passing through at least one; sessions compared with the model that resolves references in the static schema tree, and the same value coded under a random unfolding (references replaced by what they mean) must give the same bytes and value; distinct by (schema, bytes)",
    }
}

// ---------------------------------------------------------------- C09

fn illegal_schema(cx: &mut Cx, mut g: gen::SGen) -> Option<(Schema, Tree)> {
    g.illegal = true;
    for _ in 0..200 {
        let s = gen::any_schema(&mut cx.rng, g);
        let t = Tree::new(&s);
        if !t.is_legal() && !t.has_zero_byte_cycle() {
            return Some((s, t));
        }
    }
    None
}

/// Value that may step into illegal references (where it puts anything).
fn bold_value(r: &mut Rng, t: &Tree, id: usize, budget: &mut i64, bold: usize) -> Value {
    *budget -= 1;
    let id = match t.resolve(id) {
        Some(i) => i,
        None => return Value::Unit,
    };
    let deep = |i: usize| matches!(t.resolve(i), None);
    match t.kind(id) {
        Kind::Scalar(st) => Value::Scalar(gen::scalar(r, *st)),
        Kind::Str => Value::Str(r.string(3)),
        Kind::Bytes => Value::Bytes(r.bytes(3)),
        Kind::Unit => Value::Unit,
        Kind::Option(i) => {
            if *budget > 0 && (!deep(*i) || r.below(100) < bold) {
                Value::Option(Some(Box::new(bold_value(r, t, *i, budget, bold))))
            } else {
                Value::Option(None)
            }
        }
        Kind::Seq(len, i) => {
            let n = match len {
                Some(n) => (*n).min(40),
                None if *budget <= 0 || (deep(*i) && r.below(100) >= bold) => 0,
                None => r.below(3),
            };
            let v = (0..n).map(|_| if *budget > -200 { bold_value(r, t, *i, budget, bold) } else { Value::Unit }).collect();
            if len.is_some() { Value::FixedLenSeq(v) } else { Value::VarLenSeq(v) }
        }
        Kind::Tuple(v) => Value::Tuple(
            v.iter().map(|&i| if *budget > -200 { bold_value(r, t, i, budget, bold) } else { Value::Unit }).collect(),
        ),
        Kind::Struct(v) => Value::Struct(
            v.iter()
                .map(|(n, i)| binschema::value::StructValueField {
                    name: n.clone(),
                    value: if *budget > -200 { bold_value(r, t, *i, budget, bold) } else { Value::Unit },
                })
                .collect(),
        ),
        Kind::Enum(v) => {
            if v.is_empty() {
                return Value::Unit;
            }
            let k = r.below(v.len());
            Value::Enum(binschema::value::EnumValue {
                variant_ord: k,
                variant_name: v[k].0.clone(),
                value: Box::new(if *budget > -200 { bold_value(r, t, v[k].1, budget, bold) } else { Value::Unit }),
            })
        }
        Kind::Recurse(_) => Value::Unit,
    }
}

fn c09_one(cx: &mut Cx, s: &Schema, t: &Tree) -> R {
    // a session of calls
    let pc = PlanCfg { doubt: 8, after: 4, bold: cx.rng.chance(2, 3), ..PlanCfg::default() };
    let p = if cx.rng.chance(1, 2) {
        plan_enc(&mut cx.rng, t, pc)
    } else {
        let b: Vec<u8> = (0..60).map(|_| cx.rng.below(3) as u8).collect();
        plan_dec(&mut cx.rng, t, &b, pc)
    };
    let hit = p.steps.iter().any(|x| x.exp == Exp::Fatal(DErr::Illegal));
    let fresh = cx.rng.chance(1, 2);
    plain_exec(cx, s, t, &p, Mon { reports: true, stream: false, kinds: true, fresh })?;
    if hit {
        cx.count("illegal references reached by calls", 1);
    }
    if hit || p.finishes {
        cx.nontrivial(key(s, &p));
    }
    // a dynamic value
    let mut budget = 20;
    let bold = *cx.rng.pick(&[0usize, 30, 100]);
    let v = bold_value(&mut cx.rng, t, 0, &mut budget, bold);
    let mut ops = vec![];
    enc_script(&v, &mut ops);
    let mut m = Model::new(t);
    let mut want: Option<Verdict> = None;
    let mut bytes = vec![];
    for op in &ops {
        match m.verdict(op) {
            Verdict::Ok => {
                m.bytes(op, &mut bytes);
                m.apply(op, &Got::Nothing);
            }
            x => {
                want = Some(x);
                break;
            }
        }
    }
    let mut w = W::new();
    let c = encode_with(s, &mut w, "Value::encode_to", |e| v.encode_to(e))?;
    let show = || format!("value {}; schema {}", vshow(&v), outline(s));
    match (want, &c.res) {
        (None, Ok(())) => check!(c.finished && w.out == bytes, "value-bytes", "wrote {}, should be {}; {}", bshow(&w.out), bshow(&bytes), show()),
        (Some(Verdict::Illegal), Err(e)) => {
            check!(e.kind() == ErrorKind::IllegalSchema, format!("value-kind:{:?}", e.kind()), "{}; {}", e, show());
            check!(!c.finished, "value-finished", "finished after an illegal reference; {}", show());
            cx.count("illegal references reached by encode_to", 1);
        }
        (Some(Verdict::Reject(j)), Err(e)) => check!(rej_matches(j, e.kind()), format!("value-kind2:{:?}", e.kind()), "{}; {}", e, show()),
        (a, b) => {
            return violation(
                format!("value-verdict:{:?}", a),
                format!("encode_to: {:?}, model {:?}; {}", b.as_ref().map_err(|e| e.to_string()), a, show()),
            )
        }
    }
    // decoding something
    let data: Vec<u8> = if want.is_none() && cx.rng.chance(1, 2) {
        bytes.clone()
    } else {
        (0..cx.rng.below(60)).map(|_| if cx.rng.chance(3, 4) { cx.rng.below(2) as u8 } else { cx.rng.below(5) as u8 }).collect()
    };
    let mut cur = Cur::new(&data);
    let want = cur.value(t, 0);
    if matches!(want, Err(DErr::Budget) | Err(DErr::Unspecified)) {
        return Ok(());
    }
    for way in 0..2 {
        let mut rd = Rd::new(&data);
        let mut got: Option<Value> = None;
        let what = if way == 0 { "Value::decode_from" } else { "deserialize_any" };
        let (r, fin) = decode_with(s, &mut rd, what, |d| {
            if way == 0 {
                got = Some(value_from(d)?);
                Ok(())
            } else {
                crate::dyns::de_any(d).map(|_| ())
            }
        })?;
        let show = || format!("{} of {}; schema {}", what, bshow(&data), outline(s));
        match (&want, r) {
            (Ok(v), Ok(())) => {
                check!(fin && rd.pos == cur.pos, "decode-extent", "finished {}, consumed {}, should be {}; {}", fin, rd.pos, cur.pos, show());
                if let Some(g) = &got {
                    check!(veq(g, v), "decode-value", "{} should be {}; {}", vshow(g), vshow(v), show());
                }
            }
            (Err(e), Err(f)) => {
                check!(
                    derr_matches(*e, f.kind()),
                    format!("decode-kind:{:?}:{:?}", e, f.kind()),
                    "{} should be {:?}; {}",
                    f,
                    e,
                    show()
                );
                check!(!fin, "decode-finished", "finished after {:?}; {}", e, show());
                if *e == DErr::Illegal {
                    cx.count(if way == 0 { "illegal references reached by decode_from" } else { "illegal references reached by serde" }, 1);
                }
            }
            (a, b) => return violation("decode-verdict", format!("{:?}, model {:?}; {}", b.map_err(|e| e.to_string()), a.as_ref().map(vshow), show())),
        }
    }
    Ok(())
}

fn c09_case(cx: &mut Cx) -> R {
    let mut g = cfg(&mut cx.rng);
    g.recurse = *cx.rng.pick(&[3usize, 6, 12]);
    let (s, t) = match illegal_schema(cx, g) {
        Some(x) => x,
        None => return Err(Fail::Skip("no illegal schema found")),
    };
    c09_one(cx, &s, &t)?;
    cx.sample(|| format!("{:?}", s));
    Ok(())
}

/// An illegal reference directly in each kind of place.
fn c09_places(cx: &mut Cx) -> R {
    let u = || Schema::Scalar(ScalarType::U8);
    let wraps: Vec<(fn(Schema) -> Schema, usize)> = vec![
        (|s| s, 0),
        (|s| Schema::Option(Box::new(s)), 1),
        (|s| Schema::Seq(SeqSchema { len: None, inner: Box::new(s) }), 1),
        (|s| Schema::Seq(SeqSchema { len: Some(0), inner: Box::new(s) }), 1),
        (|s| Schema::Seq(SeqSchema { len: Some(2), inner: Box::new(s) }), 1),
        (|s| Schema::Tuple(vec![Schema::Unit, s]), 1),
        (|s| Schema::Struct(vec![StructSchemaField { name: "f".into(), inner: s }]), 1),
        (|s| Schema::Enum(vec![EnumSchemaVariant { name: "v".into(), inner: s }]), 1),
        (
            |s| {
                Schema::Enum(vec![
                    EnumSchemaVariant { name: "u".into(), inner: Schema::Unit },
                    EnumSchemaVariant { name: "v".into(), inner: s },
                ])
            },
            1,
        ),
    ];
    let _ = u;
    let mut all = vec![];
    for (a, da) in &wraps {
        for (b, db) in &wraps {
            for (c, dc) in &wraps {
                let d = da + db + dc;
                let mut lvls = vec![0, d + 1, d + 2, usize::MAX];
                // levels that counters of fewer bits would take for legal ones
                for bits in [7u32, 8, 15, 16, 31, 32, 63] {
                    lvls.extend(1usize.checked_shl(bits).map(|x| x + cx.rng.range(0, d.max(1))));
                }
                for lvl in lvls {
                    all.push(a(b(c(Schema::Recurse(lvl)))));
                }
            }
        }
    }
    all.push(Schema::Enum(vec![]));
    for s in all {
        let t = Tree::new(&s);
        if t.has_zero_byte_cycle() {
            continue;
        }
        for _ in 0..4 {
            c09_one(cx, &s, &t)?;
        }
        cx.count("places", 1);
    }
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        quick: 480_000,
        thorough: 28_800_000,
        directed: vec![("every kind of place", c09_places)],
        case: c09_case,
        rule: "random schema with at least one illegal reference (level 0, beyond the root, the root itself); sessions of calls, encode_to, decode_from and deserialize_any compared with the model, which says when an illegal reference is needed; non-trivial = session that reaches one or finishes beside it, distinct by (schema, direction, calls)",
    }
}

// ---------------------------------------------------------------- C21

fn c21_case(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    // a schema with many strings and bytes
    let n = r.range(1, 6);
    let kinds: Vec<usize> = (0..n).map(|_| r.weighted(&[5, 5, 1, 1])).collect();
    let s = Schema::Tuple(
        kinds
            .iter()
            .map(|k| match k {
                0 => Schema::Str,
                1 => Schema::Bytes,
                2 => Schema::Scalar(ScalarType::U16),
                _ => Schema::Unit,
            })
            .collect(),
    );
    let t = Tree::new(&s);
    let big = r.chance(1, 20);
    let v = Value::Tuple(
        kinds
            .iter()
            .map(|k| match k {
                0 => Value::Str(r.string(if big { 3000 } else { 20 })),
                1 => Value::Bytes(r.bytes(if big { 9000 } else { 40 })),
                2 => Value::Scalar(ScalarValue::U16(r.u64() as u16)),
                _ => Value::Unit,
            })
            .collect(),
    );
    let valid = enc(&t, &v).unwrap();
    let data = match r.below(4) {
        0 => gen::mutate(r, &valid),
        1 if !valid.is_empty() => valid[..r.below(valid.len())].to_vec(),
        _ => valid,
    };
    let fail_at = if r.chance(1, 6) && !data.is_empty() { Some(r.below(data.len())) } else { None };
    let mk = |cx: &mut Cx| {
        let mut x = Rd::chunked(&data, &mut cx.rng);
        x.fail_at = fail_at;
        x
    };
    let (mut ra, mut rb) = (mk(cx), mk(cx));
    let mut sa = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut sb = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut sbuf = String::new();
    let mut bbuf: Vec<u8> = Vec::new();
    let marker = [0xD1u8, 0x5E, 0xA5, 0xED, 0xD1, 0x5E, 0xA5, 0xED, 0x11, 0xD2, 0x5F, 0xA6];
    let smark = "\u{5e9}TALE-\u{1f9ea}-CONTENT";
    let mut ops: Vec<Op> = vec![];
    ops.push(Op::Tuple);
    for k in &kinds {
        ops.push(Op::TupleElem);
        ops.push(match k {
            0 => Op::Str(String::new()),
            1 => Op::Bytes(vec![]),
            2 => Op::Scalar(ScalarValue::U16(0)),
            _ => Op::Unit,
        });
    }
    ops.push(Op::FinTuple);
    // wrong string/bytes calls now and then
    let mut all = vec![];
    for op in ops {
        while cx.rng.chance(1, 5) {
            all.push(if cx.rng.chance(1, 2) { Op::Str(String::new()) } else { Op::Bytes(vec![]) });
        }
        all.push(op);
    }
    all.push(Op::Str(String::new()));
    all.push(Op::Bytes(vec![]));
    for (i, op) in all.iter().enumerate() {
        // what the buffer holds before: leftovers, or dirt
        let dirty = cx.rng.chance(3, 4);
        let extra = cx.rng.below(30);
        let a = lib(op.tag(), || did(dec_op(&mut sa, &mut ra, op)))?;
        let show = |x: &dyn std::fmt::Debug| {
            format!("{:?}; step {} {:?}; fresh result {:?}; data {}; schema {}", x, i, op, a, bshow(&data), outline(&s))
        };
        match op {
            Op::Str(_) => {
                if dirty {
                    sbuf.clear();
                    sbuf.push_str(&smark.repeat(1 + extra / 6));
                    sbuf.reserve(extra);
                }
                let b = lib("decode_str_into", || Decoder::new(&mut sb, &mut rb).decode_str_into(&mut sbuf))?;
                match (&a, b) {
                    (Did::Ok(Got::Str(x)), Ok(())) => check!(*x == sbuf, "str-differs", "{}", show(&sbuf)),
                    (Did::Err(k), Err(e)) => {
                        check!(*k == e.kind(), "str-kind", "{}", show(&e.kind()));
                        check!(sbuf.is_empty(), format!("str-stale:{:?}", k), "{}", show(&sbuf));
                        cx.count(&format!("failed str decodes ({:?})", k), 1);
                    }
                    (_, b) => return violation("str-verdict", show(&b.map_err(|e| e.to_string()))),
                }
                cx.count("str decodes", 1);
            }
            Op::Bytes(_) => {
                if dirty {
                    bbuf = marker.to_vec();
                    for _ in 0..extra {
                        bbuf.extend_from_slice(&marker[..8]);
                    }
                }
                let before = bbuf.clone();
                let b = lib("decode_bytes_into", || Decoder::new(&mut sb, &mut rb).decode_bytes_into(&mut bbuf))?;
                match (&a, b) {
                    (Did::Ok(Got::Bytes(x)), Ok(())) => check!(*x == bbuf, "bytes-differ", "{}", show(&bbuf)),
                    (Did::Err(k), Err(e)) => {
                        check!(*k == e.kind(), "bytes-kind", "{}", show(&e.kind()));
                        if dirty {
                            let stale = bbuf.windows(4).any(|w| {
                                (marker.windows(4).any(|m| m == w) || before.windows(4).any(|m| m == w))
                                    && !data.windows(4).any(|d| d == w)
                            });
                            check!(!stale, format!("bytes-stale:{:?}", k), "{}", show(&bbuf));
                        }
                        cx.count(&format!("failed bytes decodes ({:?})", k), 1);
                    }
                    (_, b) => return violation("bytes-verdict", show(&b.map_err(|e| e.to_string()))),
                }
                cx.count("bytes decodes", 1);
            }
            _ => {
                let b = lib(op.tag(), || did(dec_op(&mut sb, &mut rb, op)))?;
                check!(a == b, "other-differs", "{}", show(&b));
            }
        }
        // a reader that faults is left alone afterwards, so positions agree
        if sa.is_finished() != sb.is_finished() {
            return violation("finished-differs", show(&sb.is_finished()));
        }
    }
    cx.nontrivial((kinds, &data, fail_at));
    cx.sample(|| format!("{:?} from {:02x?}, fault at {:?}", s, data, fail_at));
    Ok(())
}

/// Buffers with room for more than the text or the bytes, and larger texts.
fn c21_roomy(cx: &mut Cx) -> R {
    if !gen::BIG {
        return Ok(());
    }
    let sizes = [0usize, 1, 100, 255, 257, 4095, 4096, 4097, 9000, 65535, 65537];
    for cap in [0usize, 16, 255, 256, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1 << 20] {
        for len in sizes {
            // how the data is spoilt: not at all, a wrong byte at a place, cut
            for spoil in 0..5 {
                let mut data = vec![];
                put_uint(&mut data, len as u128);
                let head = data.len();
                data.extend((0..len).map(|i| b'a' + (i % 23) as u8));
                match spoil {
                    1 if len > 0 => data[head] = 0xff,
                    2 if len > 0 => *data.last_mut().unwrap() = 0xc3,
                    3 if len > 0 => data[head + len / 2] = 0x80,
                    4 if len > 0 => data.truncate(head + cx.rng.below(len)),
                    0 => (),
                    _ => continue,
                }
                let text = cx.rng.chance(2, 3);
                let s = if text { Schema::Str } else { Schema::Bytes };
                // what is in the buffer before
                let fill = *cx.rng.pick(&[0usize, 1, cap / 2, cap]);
                let mut chunks = Rd::chunked(&data, &mut cx.rng);
                let rd = if len < 300 { &mut chunks } else { &mut Rd::new(&data) };
                let body = data[head..].to_vec();
                let show = || format!("{} of {} bytes, spoilt {}, into a buffer with {} of {} bytes", if text { "text" } else { "bytes" }, len, spoil, fill, cap);
                let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
                let (res, got) = if text {
                    let mut buf = String::with_capacity(cap);
                    buf.push_str(&"Z".repeat(fill));
                    let r = lib("decode_str_into", || Decoder::new(&mut st, rd).decode_str_into(&mut buf))?;
                    (r, buf.into_bytes())
                } else {
                    let mut buf = Vec::with_capacity(cap);
                    buf.resize(fill, b'Z');
                    let r = lib("decode_bytes_into", || Decoder::new(&mut st, rd).decode_bytes_into(&mut buf))?;
                    (r, buf)
                };
                let fin = st.is_finished();
                let want = match spoil {
                    4 => Some(ErrorKind::Io),
                    1..=3 if text => Some(ErrorKind::MalformedData),
                    _ => None,
                };
                check!(res.as_ref().err().map(|e| e.kind()) == want, "roomy-verdict", "{}: {:?}", show(), res.err().map(|e| e.to_string()));
                check!(fin == want.is_none(), "roomy-finished", "{}: finished is {}", show(), fin);
                if want.is_none() {
                    check!(got == body, "roomy-differs", "{}: got {}", show(), bshow(&got));
                } else {
                    check!(!got.contains(&b'Z') && (!text || got.is_empty()), "roomy-stale", "{}: left {}", show(), bshow(&got));
                }
                cx.count("decodes into buffers of many sizes", 1);
                cx.nontrivial((cap, len, spoil, text, fill));
            }
        }
    }
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        quick: 900_000,
        thorough: 54_000_000,
        directed: vec![("buffers of many sizes", c21_roomy)],
        case: c21_case,
        rule: "random tuple of strings, byte strings and others; valid, truncated or mutated data, reader faults; twin sessions, one with fresh buffers, one decoding into two reused buffers that hold leftovers or marked dirt; results compared call by call, buffers inspected after failures and refused calls; distinct by (schema, data, fault point)",
    }
}
