//! C01, C02, C03, C16, C17, C23: bytes and values.

use crate::{
    api::*,
    check,
    gen,
    io::*,
    model::*,
    rng::Rng,
    run::*,
    session::*,
};
use binschema::{
    error::{Error, ErrorKind},
    value::{EnumValue, ScalarValue, StructValueField, Value},
    CoderState, CoderStateAlloc, Decoder, Encoder, EnumSchemaVariant, ScalarType, Schema, SeqSchema,
    StructSchemaField,
};

// ---------------------------------------------------------------- C01

fn encode_both(cx: &mut Cx, s: &Schema, t: &Tree, v: &Value, b: &[u8]) -> R {
    // through individual calls
    let mut w = W::chunked(&mut cx.rng);
    let p = plan_value(Dir::Enc, t, v, b);
    let mut mon = ALL;
    mon.reports = cx.rng.chance(1, 6) && t.nodes.len() < 100;
    mon.stream = false;
    mon.fresh = cx.rng.chance(1, 2);
    let mut calls = 0;
    exec(s, t, &p, mon, CoderStateAlloc::new(), None, &mut w, &mut Rd::new(&[]), &mut calls)?;
    check!(
        w.out == b,
        "bytes:calls",
        "encoder calls wrote {}, FORMAT says {}; value {}; schema {}",
        bshow(&w.out),
        bshow(b),
        vshow(v),
        outline(s)
    );
    cx.count("encoder calls", calls);
    // as a dynamic value
    let mut w = W::chunked(&mut cx.rng);
    let c = encode_with(s, &mut w, "Value::encode_to", |e| v.encode_to(e))?;
    check!(
        c.res.is_ok() && c.finished,
        "value-refused",
        "encode_to: {:?}, finished {}; value {}; schema {}",
        c.res.err().map(|e| e.to_string()),
        c.finished,
        vshow(v),
        outline(s)
    );
    check!(
        w.out == b,
        "bytes:value",
        "encode_to wrote {}, FORMAT says {}; value {}; schema {}",
        bshow(&w.out),
        bshow(b),
        vshow(v),
        outline(s)
    );
    cx.count("bytes compared", 2 * b.len() as u64);
    cx.count("write calls seen", w.calls);
    Ok(())
}

fn c01_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    encode_both(cx, &s, &t, &v, &b)?;
    if vcount(&v) > 1 {
        cx.nontrivial((format!("{:?}", s), &b));
    }
    cx.sample(|| format!("{:?} : {:?} -> {:02x?}", s, v, b));
    Ok(())
}

/// Schemas and values at the edges of the format.
pub fn edge_cases(r: &mut Rng, big: bool) -> Vec<(Schema, Value)> {
    let mut out = vec![];
    let mut sizes = vec![1usize, 2, 128, 255, 256, 257, 258, 511, 512, 65535, 65536, 65537];
    if big {
        sizes.push((1 << 24) - 1);
        sizes.push(1 << 24);
        sizes.push((1 << 24) + 1);
    }
    for n in sizes {
        let s = Schema::Enum(
            (0..n)
                .map(|i| EnumSchemaVariant {
                    name: if n < 1000 { format!("v{}", i) } else { String::new() },
                    inner: if i % 2 == 0 { Schema::Unit } else { Schema::Scalar(ScalarType::U16) },
                })
                .collect(),
        );
        let name = |i: usize| if n < 1000 { format!("v{}", i) } else { String::new() };
        let mut picks = vec![0, n - 1, n / 2, n.saturating_sub(2), 255, 256, 257, 65535, 65536];
        picks.push(r.below(n));
        picks.retain(|&i| i < n);
        picks.sort();
        picks.dedup();
        if n > 100_000 {
            picks = vec![n - 1, 65536];
        }
        for i in picks {
            let v = Value::Enum(EnumValue {
                variant_ord: i,
                variant_name: name(i),
                value: Box::new(if i % 2 == 0 {
                    Value::Unit
                } else {
                    Value::Scalar(ScalarValue::U16(0xABCD))
                }),
            });
            out.push((s.clone(), v));
        }
    }
    for n in [0usize, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, 65537, 1 << 21] {
        let st: String = (0..n).map(|_| 'k').collect();
        out.push((Schema::Str, Value::Str(st)));
        out.push((Schema::Bytes, Value::Bytes((0..n).map(|i| i as u8).collect())));
        if n <= 70000 {
            let inner = Box::new(Schema::Scalar(ScalarType::U8));
            let vs: Vec<Value> = (0..n).map(|i| Value::Scalar(ScalarValue::U8(i as u8))).collect();
            out.push((Schema::Seq(SeqSchema { len: None, inner: inner.clone() }), Value::VarLenSeq(vs.clone())));
            out.push((Schema::Seq(SeqSchema { len: Some(n), inner }), Value::FixedLenSeq(vs)));
            let units: Vec<Value> = (0..n).map(|_| Value::Unit).collect();
            out.push((Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Unit) }), Value::VarLenSeq(units)));
        }
    }
    // every kind of element, in numbers that take one byte and two
    for (k, st) in SCALARS.iter().enumerate() {
        for n in [100 + k, 250 + k, 300] {
            let sv: Vec<Value> = (0..n).map(|_| Value::Scalar(gen::scalar(r, *st))).collect();
            let inner = Box::new(Schema::Scalar(*st));
            out.push((Schema::Seq(SeqSchema { len: None, inner: inner.clone() }), Value::VarLenSeq(sv.clone())));
            out.push((Schema::Seq(SeqSchema { len: Some(n), inner }), Value::FixedLenSeq(sv)));
        }
    }
    for n in [127usize, 129, 255, 257] {
        for inner in [Schema::Str, Schema::Option(Box::new(Schema::Unit)), Schema::Tuple(vec![Schema::Bytes, Schema::Unit])] {
            let t = Tree::new(&inner);
            let x: Vec<Value> = (0..n).map(|_| gen::value(r, &t, 4)).collect();
            let inner = Box::new(inner);
            out.push((Schema::Seq(SeqSchema { len: None, inner: inner.clone() }), Value::VarLenSeq(x.clone())));
            out.push((Schema::Seq(SeqSchema { len: Some(n), inner }), Value::FixedLenSeq(x)));
        }
    }
    // strings of wide characters
    out.push((Schema::Str, Value::Str("\u{10ffff}\u{800}\u{7ff}\u{80}\u{7f}\0".repeat(40))));
    // wide tuples and structs
    for n in [0usize, 1, 255, 256, 257, 300] {
        let st = r.pick(&SCALARS).clone();
        let sv = gen::scalar(r, st);
        out.push((
            Schema::Tuple((0..n).map(|_| Schema::Scalar(st)).collect()),
            Value::Tuple((0..n).map(|_| Value::Scalar(sv)).collect()),
        ));
        out.push((
            Schema::Struct(
                (0..n).map(|i| StructSchemaField { name: format!("f{}", i), inner: Schema::Scalar(st) }).collect(),
            ),
            Value::Struct(
                (0..n).map(|i| StructValueField { name: format!("f{}", i), value: Value::Scalar(sv) }).collect(),
            ),
        ));
    }
    // deep nesting in the schema, and deep recursion through a small one
    let mut s = Schema::Unit;
    let mut v = Value::Unit;
    for i in 0..600 {
        match i % 3 {
            0 => {
                s = Schema::Option(Box::new(s));
                v = Value::Option(Some(Box::new(v)));
            }
            1 => {
                s = Schema::Tuple(vec![s]);
                v = Value::Tuple(vec![v]);
            }
            _ => {
                s = Schema::Seq(SeqSchema { len: None, inner: Box::new(s) });
                v = Value::VarLenSeq(vec![v]);
            }
        }
    }
    out.push((s, v));
    let s = Schema::Struct(vec![
        StructSchemaField { name: "v".into(), inner: Schema::Scalar(ScalarType::I32) },
        StructSchemaField { name: "n".into(), inner: Schema::Option(Box::new(Schema::Recurse(2))) },
    ]);
    let mut v = Value::Option(None);
    for i in 0..3000 {
        v = Value::Option(Some(Box::new(Value::Struct(vec![
            StructValueField { name: "v".into(), value: Value::Scalar(ScalarValue::I32(i - 1500)) },
            StructValueField { name: "n".into(), value: v },
        ]))));
    }
    if let Value::Option(Some(v)) = v {
        out.push((s, *v));
    }
    out
}

/// Pairs of different names that are alike.
pub fn near_names(r: &mut Rng) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for (a, b) in [
        ("", "a"), ("a", "A"), ("a", "a "), ("a", " a"), ("a", "a\0"), ("a_b", "a-b"), ("aB", "a_b"), ("a", "r#a"), ("type", "r#type"),
        ("1", "01"), ("a", "aa"), ("ab", "ba"), ("\u{e9}", "e\u{301}"), ("\u{e9}", "\u{c3}\u{a9}"), ("k", "\u{212a}"), ("ss", "\u{df}"),
        ("a", "\u{430}"), ("\u{10ffff}", "\u{ffff}"), ("\u{100}", "\0"), ("a\nb", "a\r\nb"), ("f0", "f1"), ("_a", "a"), ("a", "a_"),
    ] {
        out.push((a.into(), b.into()));
    }
    for n in [2usize, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 5000] {
        let x: Vec<u8> = (0..n).map(|_| b'a' + r.below(24) as u8).collect();
        let t = |x: &[u8]| String::from_utf8(x.to_vec()).unwrap();
        for at in [0, n / 2, n - 1, r.below(n)] {
            let mut y = x.clone();
            y[at] += 1;
            out.push((t(&x), t(&y)));
            y[at] = x[at].to_ascii_uppercase();
            out.push((t(&x), t(&y)));
        }
        out.push((t(&x), t(&x[..n - 1])));
        out.push((t(&x), t(&x[1..])));
        let mut y = x.clone();
        y.reverse();
        out.push((t(&x), t(&y)));
        // the same letters in another order
        let mut y = x.clone();
        y.swap(0, n - 1);
        out.push((t(&x), t(&y)));
        let mut y = x.clone();
        y.swap(n / 2 - 1, n / 2);
        out.push((t(&x), t(&y)));
    }
    out.retain(|(a, b)| a != b);
    out
}

/// Tuples and structs too wide for counters of 16 bits.
pub fn wide(cx: &mut Cx) -> R {
    if !gen::BIG {
        return Ok(());
    }
    for n in [65535usize, 65536, 65537] {
        for tuple in [true, false] {
            let st = *cx.rng.pick(&SCALARS);
            let sv = Value::Scalar(gen::scalar(&mut cx.rng, st));
            let name = |i: usize| format!("f{}", i);
            let (s, v) = if tuple {
                (Schema::Tuple(vec![Schema::Scalar(st); n]), Value::Tuple(vec![sv.clone(); n]))
            } else {
                (
                    Schema::Struct((0..n).map(|i| StructSchemaField { name: name(i), inner: Schema::Scalar(st) }).collect()),
                    Value::Struct((0..n).map(|i| StructValueField { name: name(i), value: sv.clone() }).collect()),
                )
            };
            let t = Tree::new(&s);
            let b = enc(&t, &v).expect("wide value conforms");
            let show = format!("{} of {} {:?}", if tuple { "tuple" } else { "struct" }, n, st);
            let mut ops = vec![];
            enc_script(&v, &mut ops);
            let mut dops = vec![];
            dec_script(&v, &mut dops);
            let fin = ops.last().unwrap().clone();
            let next = |i: usize| if tuple { Op::TupleElem } else { Op::Field(name(i)) };
            // (position in the script, call which is to be refused there)
            let wrong = [(1, fin.clone()), (ops.len() - 3, fin.clone()), (ops.len() - 1, next(n)), (ops.len() - 1, next(n & 0xffff)), (ops.len() - 1, next(0))];
            let mut bad: Option<String> = None;
            let mut w = W::new();
            let c = encode_with(&s, &mut w, "encoder calls", |e| {
                for (i, op) in ops.iter().enumerate() {
                    for (_, x) in wrong.iter().filter(|x| x.0 == i) {
                        match enc_on(e, x) {
                            Ok(()) => bad = Some(format!("{:?} accepted before call {}", x, i)),
                            Err(e) if e.kind() == ErrorKind::Io => bad = Some(format!("{:?} before call {}: {}", x, i, e)),
                            Err(_) => {}
                        }
                    }
                    enc_on(e, op)?;
                }
                Ok(())
            })?;
            check!(bad.is_none(), "wide:encode", "{}: {:?}", show, bad);
            check!(c.res.is_ok() && c.finished && w.out == b, "wide:encode", "{}: {:?}, finished {}, {} bytes of {}", show, c.res.err().map(|e| e.to_string()), c.finished, w.out.len(), b.len());
            let mut rd = Rd::new(&b);
            let (r, done) = decode_with(&s, &mut rd, "decoder calls", |d| {
                for (i, (op, want)) in dops.iter().enumerate() {
                    for (_, x) in wrong.iter().filter(|x| x.0 == i) {
                        match dec_on(d, x) {
                            Ok(_) => bad = Some(format!("{:?} accepted before call {}", x, i)),
                            Err(e) if e.kind() == ErrorKind::Io => bad = Some(format!("{:?} before call {}: {}", x, i, e)),
                            Err(_) => {}
                        }
                    }
                    let got = dec_on(d, op)?;
                    if got != *want && bad.is_none() {
                        bad = Some(format!("call {} ({:?}) gives {:?}, not {:?}", i, op, got, want));
                    }
                }
                Ok(())
            })?;
            check!(bad.is_none(), "wide:decode", "{}: {:?}", show, bad);
            check!(r.is_ok() && done && rd.pos == b.len(), "wide:decode", "{}: {:?}, finished {}, consumed {} of {}", show, r.err().map(|e| e.to_string()), done, rd.pos, b.len());
            let mut w = W::new();
            let c = encode_with(&s, &mut w, "Value::encode_to", |e| v.encode_to(e))?;
            check!(c.res.is_ok() && c.finished && w.out == b, "wide:encode-value", "{}: {:?}, finished {}", show, c.res.err().map(|e| e.to_string()), c.finished);
            let (r, done) = decode_with(&s, &mut Rd::new(&b), "Value::decode_from", |d| value_from(d))?;
            check!(done && r.as_ref().map_or(false, |x| veq(x, &v)), "wide:decode-value", "{}: {:?}, finished {}", show, r.err().map(|e| e.to_string()), done);
            cx.count("tuples and structs of 65 thousand", 1);
            cx.nontrivial((tuple, n));
        }
    }
    Ok(())
}

fn c01_edges(cx: &mut Cx) -> R {
    let big = cx.tier == Tier::Thorough;
    for (s, v) in edge_cases(&mut cx.rng, big) {
        let t = Tree::new(&s);
        let b = enc(&t, &v).expect("edge value conforms");
        encode_both(cx, &s, &t, &v, &b)?;
        cx.nontrivial((vshow(&v), b.len()));
    }
    Ok(())
}

/// Independent vectors, worked out by hand from FORMAT.txt.
pub fn vectors() -> Vec<(Schema, Value, Vec<u8>)> {
    use ScalarValue as V;
    let sc = |v: V| (Schema::Scalar(scalar_type(&v)), Value::Scalar(v));
    let mut out: Vec<(Schema, Value, Vec<u8>)> = vec![];
    let mut add = |p: (Schema, Value), b: &[u8]| out.push((p.0, p.1, b.to_vec()));
    add(sc(V::U8(0xfe)), &[0xfe]);
    add(sc(V::I8(-2)), &[0xfe]);
    add(sc(V::U16(0x1234)), &[0x34, 0x12]);
    add(sc(V::I16(-2)), &[0xfe, 0xff]);
    add(sc(V::U32(0)), &[0]);
    add(sc(V::U32(127)), &[0x7f]);
    add(sc(V::U32(128)), &[0x80, 0x01]);
    add(sc(V::U32(300)), &[0xac, 0x02]);
    add(sc(V::U32(16383)), &[0xff, 0x7f]);
    add(sc(V::U32(16384)), &[0x80, 0x80, 0x01]);
    add(sc(V::U32(u32::MAX)), &[0xff, 0xff, 0xff, 0xff, 0x0f]);
    add(sc(V::U64(u64::MAX)), &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]);
    let mut m = vec![0xff; 18];
    m.push(0x03);
    add(sc(V::U128(u128::MAX)), &m);
    add(sc(V::I32(0)), &[0]);
    add(sc(V::I32(-1)), &[0x40]);
    add(sc(V::I32(63)), &[0x3f]);
    add(sc(V::I32(-64)), &[0x7f]);
    add(sc(V::I32(64)), &[0x80, 0x01]);
    add(sc(V::I32(-65)), &[0xc0, 0x01]);
    add(sc(V::I32(i32::MIN)), &[0xff, 0xff, 0xff, 0xff, 0x0f]);
    add(sc(V::I32(i32::MAX)), &[0xbf, 0xff, 0xff, 0xff, 0x0f]);
    add(sc(V::I64(i64::MIN)), &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]);
    let mut m = vec![0xff; 18];
    m.push(0x03);
    add(sc(V::I128(i128::MIN)), &m);
    add(sc(V::F32(1.0)), &[0, 0, 0x80, 0x3f]);
    add(sc(V::F64(-2.0)), &[0, 0, 0, 0, 0, 0, 0, 0xc0]);
    add(sc(V::Char('a')), &[0x61]);
    add(sc(V::Char('\u{10ffff}')), &[0xff, 0xff, 0x43]);
    add(sc(V::Bool(true)), &[1]);
    add(sc(V::Bool(false)), &[0]);
    add((Schema::Str, Value::Str("h\u{e9}".into())), &[3, 0x68, 0xc3, 0xa9]);
    add((Schema::Bytes, Value::Bytes(vec![0, 255])), &[2, 0, 255]);
    add((Schema::Unit, Value::Unit), &[]);
    let u8s = Box::new(Schema::Scalar(ScalarType::U8));
    let e = |n| Value::Scalar(V::U8(n));
    add((Schema::Option(u8s.clone()), Value::Option(None)), &[0]);
    add((Schema::Option(u8s.clone()), Value::Option(Some(Box::new(e(7))))), &[1, 7]);
    add(
        (Schema::Seq(SeqSchema { len: None, inner: u8s.clone() }), Value::VarLenSeq(vec![e(5), e(6)])),
        &[2, 5, 6],
    );
    add(
        (Schema::Seq(SeqSchema { len: Some(2), inner: u8s.clone() }), Value::FixedLenSeq(vec![e(5), e(6)])),
        &[5, 6],
    );
    add((Schema::Tuple(vec![(*u8s).clone(), Schema::Unit]), Value::Tuple(vec![e(1), Value::Unit])), &[1]);
    let var = |n: &str, inner: Schema| EnumSchemaVariant { name: n.into(), inner };
    let ev = |o, n: &str, v| {
        Value::Enum(EnumValue { variant_ord: o, variant_name: n.into(), value: Box::new(v) })
    };
    add((Schema::Enum(vec![var("a", (*u8s).clone())]), ev(0, "a", e(9))), &[9]);
    add((Schema::Enum(vec![var("a", (*u8s).clone()), var("b", Schema::Unit)]), ev(1, "b", Value::Unit)), &[1]);
    out
}

fn c01_vectors(cx: &mut Cx) -> R {
    for (s, v, b) in vectors() {
        let t = Tree::new(&s);
        assert_eq!(enc(&t, &v).as_ref(), Some(&b), "model disagrees with hand-made vector {:?} {:?}", s, v);
        encode_both(cx, &s, &t, &v, &b)?;
        cx.nontrivial((&b, vshow(&v)));
    }
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        quick: 320_000,
        thorough: 19_200_000,
        directed: vec![("very wide tuples and structs", wide), ("lengths of every magnitude", super::calls::big_lens), ("hand-made vectors", c01_vectors), ("edges of the format", c01_edges)],
        case: c01_case,
        rule: "random legal schema (recursion included) and conforming value, written by encoder calls and as Value to chunking/interrupting writers, bytes compared with the reference encoder; non-trivial = value of more than one node, distinct by (schema, bytes)",
    }
}

// ---------------------------------------------------------------- C02

fn decode_both(cx: &mut Cx, s: &Schema, t: &Tree, v: &Value, b: &[u8]) -> R {
    let mut buf = b.to_vec();
    let tail = cx.rng.bytes(6);
    buf.extend_from_slice(&tail);
    // individual calls
    let mut rd = Rd::chunked(&buf, &mut cx.rng);
    let p = plan_value(Dir::Dec, t, v, b);
    let mut mon = ALL;
    mon.reports = false;
    mon.stream = false;
    mon.fresh = cx.rng.chance(1, 2);
    let mut calls = 0;
    exec(s, t, &p, mon, CoderStateAlloc::new(), None, &mut W::new(), &mut rd, &mut calls)?;
    check!(
        rd.pos == b.len(),
        "consumed:calls",
        "decoder calls consumed {} bytes of a message of {}; value {}; schema {}",
        rd.pos,
        b.len(),
        vshow(v),
        outline(s)
    );
    cx.count("decoder calls", calls);
    // dynamic
    let mut rd = Rd::chunked(&buf, &mut cx.rng);
    let (r, fin) = decode_with(s, &mut rd, "Value::decode_from", |d| value_from(d))?;
    match r {
        Err(e) => {
            return violation(
                format!("refused:value:{:?}", e.kind()),
                format!("decode_from: {}; value {}; schema {}", e, vshow(v), outline(s)),
            )
        }
        Ok(v2) => {
            check!(
                veq(v, &v2),
                "value:value",
                "decode_from gives {}, encoded was {}; schema {}",
                vshow(&v2),
                vshow(v),
                outline(s)
            );
        }
    }
    check!(fin, "unfinished:value", "coder not finished; value {}; schema {}", vshow(v), outline(s));
    check!(
        rd.pos == b.len(),
        "consumed:value",
        "decode_from consumed {} bytes of a message of {}; value {}; schema {}",
        rd.pos,
        b.len(),
        vshow(v),
        outline(s)
    );
    cx.count("values compared", 2 * vcount(v) as u64);
    cx.count("read calls seen", rd.calls);
    Ok(())
}

fn c02_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    decode_both(cx, &s, &t, &v, &b)?;
    if cx.rng.chance(1, 4) {
        // a stream of messages of several schemas, one allocation
        let n = cx.rng.range(2, 5);
        let msgs: Vec<_> = (0..n).map(|_| gen::case(&mut cx.rng, g)).collect();
        let mut w = W::chunked(&mut cx.rng);
        let mut alloc = CoderStateAlloc::new();
        for (s, _, v, _) in &msgs {
            let mut st = CoderState::new(s, alloc, None);
            let r = lib("Value::encode_to", || v.encode_to(&mut Encoder::new(&mut st, &mut w)))?;
            check!(r.is_ok() && st.is_finished(), "stream-encode", "encode_to fails: {:?}", r.err().map(|e| e.to_string()));
            alloc = st.into_alloc();
        }
        let mut rd = Rd::chunked(&w.out, &mut cx.rng);
        for (i, (s, _, v, _)) in msgs.iter().enumerate() {
            let mut st = CoderState::new(s, alloc, None);
            let r = lib("Value::decode_from", || Value::decode_from(&mut Decoder::new(&mut st, &mut rd)))?;
            match r {
                Ok(v2) => check!(
                    veq(v, &v2) && st.is_finished(),
                    "stream-value",
                    "message {} of a stream: decoded {}, encoded {}; schema {}",
                    i,
                    vshow(&v2),
                    vshow(v),
                    outline(s)
                ),
                Err(e) => return violation("stream-refused", format!("message {} of a stream: {}", i, e)),
            }
            alloc = st.into_alloc();
        }
        check!(rd.pos == w.out.len(), "stream-consumed", "stream of {} bytes, consumed {}", w.out.len(), rd.pos);
        cx.count("messages in streams", n as u64);
    }
    if vcount(&v) > 1 {
        cx.nontrivial((format!("{:?}", s), &b));
    }
    cx.sample(|| format!("{:?} : {:02x?} -> {:?}", s, b, v));
    Ok(())
}

fn c02_edges(cx: &mut Cx) -> R {
    let big = cx.tier == Tier::Thorough;
    for (s, v) in edge_cases(&mut cx.rng, big) {
        let t = Tree::new(&s);
        let b = enc(&t, &v).expect("edge value conforms");
        decode_both(cx, &s, &t, &v, &b)?;
        cx.nontrivial((vshow(&v), b.len()));
    }
    for (s, v, b) in vectors() {
        let t = Tree::new(&s);
        decode_both(cx, &s, &t, &v, &b)?;
    }
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        quick: 780_000,
        thorough: 46_800_000,
        directed: vec![("very wide tuples and structs", wide), ("lengths of every magnitude", super::calls::big_lens), ("edges of the format", c02_edges)],
        case: c02_case,
        rule: "random legal schema and value; the reference encoding plus trailing bytes decoded by decoder calls and as Value from fragmenting/interrupting readers, values and exact consumption compared; streams of several messages; non-trivial = value of more than one node, distinct by (schema, bytes)",
    }
}

// ---------------------------------------------------------------- C03

/// Judge one byte string under one schema, both ways.
pub fn verdict_case(cx: &mut Cx, s: &Schema, t: &Tree, bytes: &[u8], calls_too: bool) -> R<&'static str> {
    let mut c = Cur::new(bytes);
    let want = c.value(t, 0);
    if want == Err(DErr::Budget) {
        return Err(Fail::Skip("too many zero-size elements"));
    }
    let mut rd = if cx.rng.chance(1, 3) { Rd::chunked(bytes, &mut cx.rng) } else { Rd::new(bytes) };
    let (got, fin) = decode_with(s, &mut rd, "Value::decode_from", |d| value_from(d))?;
    let class = match (&want, &got) {
        (Err(DErr::Unspecified), _) => "unspecified by the format",
        (Ok(v), Ok(v2)) => {
            check!(
                veq(v, v2),
                "value",
                "bytes {} decode to {}, FORMAT says {}; schema {}",
                bshow(bytes),
                vshow(v2),
                vshow(v),
                outline(s)
            );
            check!(
                rd.pos == c.pos && fin,
                "consumed",
                "bytes {}: consumed {}, FORMAT says {}, finished {}; schema {}",
                bshow(bytes),
                rd.pos,
                c.pos,
                fin,
                outline(s)
            );
            "accepted"
        }
        (Err(e), Ok(v)) => {
            return violation(
                format!("accepted:{:?}", e),
                format!("bytes {} are accepted as {}, FORMAT says {:?}; schema {}", bshow(bytes), vshow(v), e, outline(s)),
            )
        }
        (Ok(v), Err(e)) => {
            return violation(
                format!("refused:{:?}", e.kind()),
                format!("bytes {} refused ({}), FORMAT says {}; schema {}", bshow(bytes), e, vshow(v), outline(s)),
            )
        }
        (Err(d), Err(e)) => {
            check!(
                derr_matches(*d, e.kind()),
                format!("kind:{:?}:{:?}", d, e.kind()),
                "bytes {}: error kind {:?} ({}), should be {:?}; schema {}",
                bshow(bytes),
                e.kind(),
                e,
                d,
                outline(s)
            );
            if *d == DErr::Eof {
                check!(
                    io_kind(e) == Some(std::io::ErrorKind::UnexpectedEof),
                    "eof-kind",
                    "bytes {} cut short: error is {:?}, not an unexpected end; schema {}",
                    bshow(bytes),
                    e,
                    outline(s)
                );
            }
            match d {
                DErr::Eof => "refused: cut short",
                DErr::Malformed => "refused: malformed",
                DErr::EofMalformed => "refused: cut short and malformed",
                DErr::Platform => "refused: platform limits",
                _ => "refused: other",
            }
        }
    };
    if calls_too && !matches!(want, Err(DErr::Unspecified)) {
        let p = plan_dec(&mut cx.rng, t, bytes, PlanCfg { doubt: 0, cut: 0, after: 0, max_steps: 2000, bold: false });
        let mut rd = Rd::chunked(bytes, &mut cx.rng);
        let mut n = 0;
        let mon = Mon { reports: false, stream: false, kinds: true, fresh: false };
        exec(s, t, &p, mon, CoderStateAlloc::new(), None, &mut W::new(), &mut rd, &mut n)?;
        cx.count("decoder calls", n);
    }
    Ok(class)
}

/// The io::ErrorKind behind a library error, if it wraps one.
pub fn io_kind(e: &Error) -> Option<std::io::ErrorKind> {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(e);
    while let Some(x) = cur {
        if let Some(io) = x.downcast_ref::<std::io::Error>() {
            return Some(io.kind());
        }
        cur = x.source();
    }
    None
}

fn c03_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, _, b) = gen::case(&mut cx.rng, g);
    for _ in 0..4 {
        let m = gen::mutate(&mut cx.rng, &b);
        let class = match verdict_case(cx, &s, &t, &m, true) {
            Err(Fail::Skip(_)) => continue,
            x => x?,
        };
        cx.count(class, 1);
        if m.len() > 0 {
            cx.nontrivial((format!("{:?}", s), &m));
        }
        cx.sample(|| format!("{:?} : {:02x?} -> {}", s, m, class));
    }
    Ok(())
}

fn c03_exhaustive(cx: &mut Cx, part: usize) -> R {
    let mut schemas: Vec<Schema> = SCALARS.iter().map(|&s| Schema::Scalar(s)).collect();
    let u8s = || Box::new(Schema::Scalar(ScalarType::U8));
    let var = |n: &str, inner: Schema| EnumSchemaVariant { name: n.into(), inner };
    schemas.push(Schema::Str);
    schemas.push(Schema::Bytes);
    schemas.push(Schema::Unit);
    schemas.push(Schema::Option(u8s()));
    schemas.push(Schema::Option(Box::new(Schema::Option(Box::new(Schema::Unit)))));
    schemas.push(Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Scalar(ScalarType::Bool)) }));
    schemas.push(Schema::Enum(vec![var("a", Schema::Unit), var("b", Schema::Scalar(ScalarType::Bool)), var("c", *u8s())]));
    schemas.push(Schema::Enum((0..257).map(|i| var(&i.to_string(), Schema::Unit)).collect()));
    schemas.push(Schema::Enum((0..256).map(|i| var(&i.to_string(), Schema::Unit)).collect()));
    schemas.push(Schema::Enum(vec![var("only", Schema::Scalar(ScalarType::Char))]));
    schemas.push(Schema::Struct(vec![
        StructSchemaField { name: "x".into(), inner: Schema::Scalar(ScalarType::Bool) },
        StructSchemaField { name: "n".into(), inner: Schema::Option(Box::new(Schema::Recurse(2))) },
    ]));
    schemas.push(Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Recurse(1)) }));
    for (i, s) in schemas.iter().enumerate() {
        if i % 8 != part {
            continue;
        }
        let t = Tree::new(s);
        let mut buf = [0u8; 2];
        let mut n = 0u64;
        for l in 0..=2usize {
            for x in 0..(1usize << (8 * l)) {
                buf[0] = x as u8;
                buf[1] = (x >> 8) as u8;
                match verdict_case(cx, s, &t, &buf[..l], l < 2) {
                    Ok(_) | Err(Fail::Skip(_)) => {}
                    Err(e) => return Err(e),
                }
                n += 1;
            }
        }
        cx.count("byte strings enumerated", n);
        cx.nontrivial(("exhaustive", i));
    }
    Ok(())
}

/// Long texts which are UTF-8 but for one place.
fn c03_texts(cx: &mut Cx) -> R {
    if !gen::BIG {
        return Ok(());
    }
    let s = Schema::Str;
    let t = Tree::new(&s);
    let bad: &[&[u8]] = &[&[0x80], &[0xff], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0xc3]];
    for fill in ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"] {
        for n in [1usize, 7, 8, 15, 16, 31, 32, 63, 64, 100, 128, 255, 256, 1000, 1024, 4095, 4096, 4097, 5000, 8192, 16384, 65536] {
            let text: Vec<u8> = fill.repeat(n / fill.len() + 1).into_bytes();
            let mut at = vec![0, fill.len(), text.len() / fill.len() / 2 * fill.len(), text.len() - fill.len(), text.len()];
            at.push(cx.rng.below(text.len() / fill.len() + 1) * fill.len());
            at.push(cx.rng.below(text.len() + 1));
            for x in at {
                let x = x.min(text.len());
                let k = cx.rng.below(bad.len() + 1);
                let mut m = text[..x].to_vec();
                m.extend_from_slice(bad.get(k).copied().unwrap_or(&[]));
                m.extend_from_slice(&text[x..]);
                let mut b = vec![];
                put_uint(&mut b, m.len() as u128);
                b.extend_from_slice(&m);
                verdict_case(cx, &s, &t, &b, true)?;
                cx.count("long texts", 1);
            }
        }
    }
    Ok(())
}

/// Long runs of continuation bytes, encodings of every length.
fn c03_varints(cx: &mut Cx) -> R {
    for st in [
        ScalarType::U32, ScalarType::U64, ScalarType::U128, ScalarType::I32, ScalarType::I64, ScalarType::I128, ScalarType::Char,
    ] {
        let s = Schema::Scalar(st);
        let t = Tree::new(&s);
        for len in 1..=24usize {
            for fill in [0x80u8, 0x81, 0xff, 0xc0, 0xbf] {
                for last in [0u8, 1, 2, 3, 4, 7, 8, 0x0f, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0xff] {
                    for first in [fill, 0x80, 0xc0, 0xff, 0xbf] {
                        let mut b = vec![fill; len];
                        b[0] = first;
                        b[len - 1] = last;
                        let c = verdict_case(cx, &s, &t, &b, true)?;
                        cx.count(c, 1);
                        cx.nontrivial((format!("{:?}", st), &b));
                    }
                }
            }
        }
    }
    for s in [Schema::Str, Schema::Bytes, Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Scalar(ScalarType::U8)) })] {
        let t = Tree::new(&s);
        for bits in 0..=128u32 {
            let n = if bits == 128 { u128::MAX } else { 1u128 << bits };
            if n > 1 << 20 && n <= 1 << 40 && crate::props::mem::plain() {
                continue;
            }
            let mut b = vec![];
            put_uint(&mut b, n);
            b.extend_from_slice(b"abc");
            let c = verdict_case(cx, &s, &t, &b, true)?;
            cx.count(c, 1);
        }
    }
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        quick: 300_000,
        thorough: 18_000_000,
        directed: vec![
            ("variable-length integers", c03_varints),
            ("long texts", c03_texts),
            ("all short strings 0", |cx| c03_exhaustive(cx, 0)),
            ("all short strings 1", |cx| c03_exhaustive(cx, 1)),
            ("all short strings 2", |cx| c03_exhaustive(cx, 2)),
            ("all short strings 3", |cx| c03_exhaustive(cx, 3)),
            ("all short strings 4", |cx| c03_exhaustive(cx, 4)),
            ("all short strings 5", |cx| c03_exhaustive(cx, 5)),
            ("all short strings 6", |cx| c03_exhaustive(cx, 6)),
            ("all short strings 7", |cx| c03_exhaustive(cx, 7)),
        ],
        case: c03_case,
        rule: "random legal schema; four byte strings mutated from a valid message (flips, cuts, insertions, boundary and over-long integers) or random, plus all strings of up to 2 bytes for 26 small schemas; verdict, error kind, value and consumption compared with the reference decoder; non-trivial = non-empty string, distinct by (schema, bytes)",
    }
}

// ---------------------------------------------------------------- C16

fn one_int(cx: &mut Cx, v: ScalarValue) -> R {
    let st = scalar_type(&v);
    let s = Schema::Scalar(st);
    let mut b = vec![];
    put_scalar(&mut b, &v);
    let mut out: Vec<u8> = vec![];
    let c = encode_with(&s, &mut out, "encode", |e| v.encode_to(e))?;
    check!(c.res.is_ok() && c.finished, "encode-refused", "{:?}: {:?}", v, c.res.err());
    check!(out == b, "bytes", "{:?} encodes as {:02x?}, should be {:02x?}", v, out, b);
    let mut rd = &out[..];
    let (r, fin) = decode_with(&s, &mut rd, "decode", |d| ScalarValue::decode_from(d, st))?;
    match r {
        Ok(v2) => check!(
            veq(&Value::Scalar(v), &Value::Scalar(v2)) && fin && rd.is_empty(),
            "round-trip",
            "{:?} comes back as {:?}, finished {}, {} bytes left",
            v,
            v2,
            fin,
            rd.len()
        ),
        Err(e) => return violation("decode-refused", format!("{:?}: {}", v, e)),
    }
    cx.count("integers", 1);
    Ok(())
}

fn ints_of(n: i128, u: u128) -> Vec<ScalarValue> {
    use ScalarValue as V;
    let mut o = vec![V::U128(u), V::I128(n)];
    macro_rules! t {
        ($($t:ty, $v:ident;)*) => {$(
            if let Ok(x) = <$t>::try_from(n) { o.push(V::$v(x)); }
        )*};
    }
    t!(u8, U8; u16, U16; u32, U32; u64, U64; i8, I8; i16, I16; i32, I32; i64, I64;);
    if let Some(c) = u32::try_from(n).ok().and_then(char::from_u32) {
        o.push(V::Char(c));
    }
    o
}

/// Encode as one type, decode as another of the same family.
fn cross(cx: &mut Cx, signed: bool, u: u128, i: i128) -> R {
    use ScalarType as T;
    let mut b = vec![];
    if signed {
        put_sint(&mut b, i);
    } else {
        put_uint(&mut b, u);
    }
    // over-long forms are well-formed as well
    if cx.rng.chance(1, 4) && b.len() < 17 {
        let l = b.len();
        b[l - 1] |= 0x80;
        let k = cx.rng.below(2);
        for _ in 0..k {
            b.push(0x80);
        }
        b.push(0);
    }
    let tys: &[T] = if signed { &[T::I32, T::I64, T::I128] } else { &[T::U32, T::U64, T::U128, T::Char] };
    for &st in tys {
        let s = Schema::Scalar(st);
        let t = Tree::new(&s);
        let c = verdict_case(cx, &s, &t, &b, true)?;
        cx.count(c, 1);
    }
    if !signed {
        // and as lengths
        let s = Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Unit) });
        let mut rd = &b[..];
        let (r, _) = decode_with(&s, &mut rd, "begin_var_len_seq", |d| d.begin_var_len_seq())?;
        match (usize::try_from(u), r) {
            (Ok(n), Ok(m)) => check!(n == m, "length", "length {} decoded as {}", n, m),
            (Err(_), Ok(m)) => return violation("length-accepted", format!("length {} accepted as {}", u, m)),
            (Ok(n), Err(e)) => return violation("length-refused", format!("length {} refused: {}", n, e)),
            (Err(_), Err(e)) => {
                check!(e.kind() == ErrorKind::PlatformLimits, "length-kind", "length {}: kind {:?}", u, e.kind())
            }
        }
    }
    Ok(())
}

fn c16_case(cx: &mut Cx) -> R {
    let u = cx.rng.num(128);
    let i = {
        let m = cx.rng.num(127) as i128;
        if cx.rng.chance(1, 2) { !m } else { m }
    };
    for v in ints_of(i, u) {
        one_int(cx, v)?;
    }
    cross(cx, false, u, i)?;
    cross(cx, true, u, i)?;
    // ordinals
    if cx.rng.chance(1, 60) {
        let n = match cx.rng.below(4) {
            0 => cx.rng.range(1, 20),
            1 => cx.rng.range(250, 260),
            2 => cx.rng.range(1, 3000),
            _ => *cx.rng.pick(&[65535usize, 65536, 65537, 1, 2, 256, 257]),
        };
        let s = Schema::Enum((0..n).map(|_| EnumSchemaVariant { name: String::new(), inner: Schema::Unit }).collect());
        for _ in 0..8 {
            let o = match cx.rng.below(4) {
                0 => n - 1,
                1 => 0,
                _ => cx.rng.below(n),
            };
            let mut out: Vec<u8> = vec![];
            let c = encode_with(&s, &mut out, "begin_enum", |e| {
                e.begin_enum(o, "")?;
                e.encode_unit()
            })?;
            check!(c.res.is_ok() && c.finished, "ord-refused", "ordinal {} of {}: {:?}", o, n, c.res.err());
            let want = ord_len(n - 1);
            let mut b = vec![];
            put_ord(&mut b, o, n);
            check!(out == b && out.len() == want, "ord-bytes", "ordinal {} of {} variants written as {:02x?}", o, n, out);
            let mut rd = &out[..];
            let (r, _) = decode_with(&s, &mut rd, "begin_enum", |d| d.begin_enum())?;
            check!(matches!(r, Ok(x) if x == o), "ord-round-trip", "ordinal {} of {} comes back as {:?}", o, n, r);
            // out of range
            let room = if want >= 8 { u64::MAX } else { (1u64 << (8 * want)) - 1 };
            if (n as u64) <= room {
                let bad = n as u64 + (cx.rng.u64() % (room - n as u64 + 1));
                let bytes = bad.to_le_bytes();
                let mut rd = &bytes[..want];
                let (r, _) = decode_with(&s, &mut rd, "begin_enum", |d| d.begin_enum())?;
                check!(
                    matches!(&r, Err(e) if e.kind() == ErrorKind::MalformedData),
                    "ord-range",
                    "ordinal {} of {} variants: {:?}",
                    bad,
                    n,
                    r
                );
            }
            cx.count("ordinals", 1);
        }
    }
    cx.nontrivial((u, i));
    cx.sample(|| format!("unsigned {} signed {}", u, i));
    Ok(())
}

fn c16_small(cx: &mut Cx) -> R {
    use ScalarValue as V;
    for n in 0..=255u8 {
        one_int(cx, V::U8(n))?;
        one_int(cx, V::I8(n as i8))?;
    }
    for n in 0..=u16::MAX {
        one_int(cx, V::U16(n))?;
        one_int(cx, V::I16(n as i16))?;
    }
    cx.nontrivial("all 8 and 16 bit integers");
    Ok(())
}

fn c16_edges(cx: &mut Cx) -> R {
    for k in 0..128u32 {
        for d in -3i128..=3 {
            let u = (1u128 << k).wrapping_add(d as u128);
            let i = if k < 127 { (1i128 << k).wrapping_add(d) } else { i128::MAX.wrapping_sub(d.abs()) };
            for x in [i, !i, i.wrapping_neg()] {
                for v in ints_of(x, u) {
                    one_int(cx, v)?;
                }
                cross(cx, true, u, x)?;
            }
            cross(cx, false, u, i)?;
            cx.nontrivial((k, d));
        }
    }
    Ok(())
}

fn c16_chars(cx: &mut Cx) -> R {
    let step = if cx.tier == Tier::Quick { 7 } else { 1 };
    let off = if step > 1 { cx.rng.below(7) as u32 } else { 0 };
    let s = Schema::Scalar(ScalarType::Char);
    let mut n = off;
    while n < 0x112000 {
        let mut b = vec![];
        put_uint(&mut b, n as u128);
        let mut rd = &b[..];
        let (r, fin) = decode_with(&s, &mut rd, "decode_char", |d| d.decode_char())?;
        match (char::from_u32(n), r) {
            (Some(c), Ok(c2)) => {
                check!(c == c2 && fin, "char", "{:x} decodes as {:?}", n, c2);
                let mut out: Vec<u8> = vec![];
                let e = encode_with(&s, &mut out, "encode_char", |e| e.encode_char(c))?;
                check!(e.res.is_ok() && out == b, "char-bytes", "{:?} encodes as {:02x?}", c, out);
            }
            (None, Err(e)) => check!(e.kind() == ErrorKind::MalformedData, "char-kind", "{:x}: {:?}", n, e.kind()),
            (a, b) => return violation("char-verdict", format!("{:x}: should be {:?}, is {:?}", n, a, b)),
        }
        cx.count("chars", 1);
        n += if n % 0x800 < 8 || (0xd7f0..0xe010).contains(&n) { 1 } else { step };
    }
    cx.nontrivial("chars");
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        quick: 360_000,
        thorough: 21_600_000,
        directed: vec![
            ("all 8 and 16 bit integers", c16_small),
            ("powers of two, +-3", c16_edges),
            ("unicode scalars", c16_chars),
        ],
        case: c16_case,
        rule: "random integers (boundary-biased) through every integer type that holds them, every variable-length encoding (over-long forms too) decoded at every width of its family and as a length, enum ordinals of random variant counts; exhaustive for 8 and 16 bits; distinct by the integers",
    }
}

// ---------------------------------------------------------------- C17

fn find_injected(e: &Error) -> Option<(u64, std::io::ErrorKind)> {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(e);
    while let Some(x) = cur {
        if let Some(io) = x.downcast_ref::<std::io::Error>() {
            if let Some(i) = io.get_ref().and_then(|r| r.downcast_ref::<Injected>()) {
                return Some((i.0, io.kind()));
            }
        }
        if let Some(i) = x.downcast_ref::<Injected>() {
            return Some((i.0, std::io::ErrorKind::Other));
        }
        cur = x.source();
    }
    None
}

fn c17_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, _t, v, b) = gen::case(&mut cx.rng, g);
    if b.is_empty() {
        return Err(Fail::Skip("message without bytes"));
    }
    let mut points: Vec<usize> = (0..b.len()).collect();
    let max = if cx.tier == Tier::Quick { 40 } else { 400 };
    while points.len() > max {
        let i = cx.rng.below(points.len());
        points.swap_remove(i);
    }
    c17_one(cx, &s, &v, &b, points)?;
    cx.sample(|| format!("{:?} : every fault point of {:02x?}", s, b));
    Ok(())
}

/// Faults in large messages, near their ends and near the sizes of buffers.
fn c17_large(cx: &mut Cx) -> R {
    for (s, v) in edge_cases(&mut cx.rng, false) {
        let t = Tree::new(&s);
        if t.nodes.len() > 3000 {
            continue;
        }
        let b = enc(&t, &v).expect("edge value conforms");
        if b.is_empty() {
            continue;
        }
        let mut points = vec![0, 1, b.len() / 2, b.len() - 1, b.len().saturating_sub(2)];
        points.extend([126, 255, 256, 1023, 4095, 4096, 4097, 4098, 4099, 8191, 8192, 16384, 65535, 65539]);
        for _ in 0..4 {
            points.push(cx.rng.below(b.len()));
        }
        points.retain(|&i| i < b.len());
        points.sort();
        points.dedup();
        if vcount(&v) > 1000 {
            points = (0..5).map(|_| *cx.rng.pick(&points)).collect();
        }
        cx.count("faults in large messages", points.len() as u64);
        c17_one(cx, &s, &v, &b, points)?;
    }
    Ok(())
}

fn c17_one(cx: &mut Cx, s: &Schema, v: &Value, b: &[u8], points: Vec<usize>) -> R {
    let ops = {
        let mut o = vec![];
        enc_script(&v, &mut o);
        o
    };
    let dops = {
        let mut o = vec![];
        dec_script(&v, &mut o);
        o
    };
    for at in points {
        let id = cx.rng.u64();
        let kind = *cx.rng.pick(FAULT_KINDS);
        let by_calls = cx.rng.chance(1, 2);
        // ---- writer
        let zero = cx.rng.chance(1, 5);
        let mut w = W::chunked(&mut cx.rng);
        w.fail_at = Some(at);
        w.fail_kind = kind;
        w.fail_id = id;
        w.zero = zero;
        let c = encode_with(s, &mut w, "encode with faulty writer", |e| {
            if by_calls {
                for op in &ops {
                    enc_on(e, op)?;
                }
                Ok(())
            } else {
                v.encode_to(e)
            }
        })?;
        let show = || format!("writer fault {:?} (zero {}) after {} of {} bytes; value {}; schema {}", kind, zero, at, b.len(), vshow(v), outline(s));
        let e = match c.res {
            Ok(()) => return violation("write-fault-swallowed", show()),
            Err(e) => e,
        };
        check!(e.kind() == ErrorKind::Io, "write-kind", "kind {:?}: {}", e.kind(), show());
        if !zero {
            check!(
                find_injected(&e) == Some((id, kind)),
                "write-error-lost",
                "original error not found in {:?}: {}",
                e,
                show()
            );
        }
        check!(w.failed == 1, "write-continues", "writer called again after its failure ({} failures): {}", w.failed, show());
        check!(!c.finished, "write-finished", "coder finished after the fault: {}", show());
        check!(w.out == b[..at], "write-prefix", "written {} is not the prefix of {}: {}", bshow(&w.out), bshow(b), show());
        // ---- reader
        let mut rd = Rd::chunked(b, &mut cx.rng);
        let eof = cx.rng.chance(1, 4);
        let cut = &b[..at];
        if eof {
            rd.data = cut;
        } else {
            rd.fail_at = Some(at);
            rd.fail_kind = kind;
            rd.fail_id = id;
        }
        let way = cx.rng.below(3);
        let mut wrong: Option<String> = None;
        let (r, fin) = decode_with(s, &mut rd, "decode with faulty reader", |d| match way {
            0 => {
                for (op, want) in &dops {
                    let got = dec_on(d, op)?;
                    if &got != want {
                        wrong = Some(format!("{:?} gave {:?}, should be {:?}", op, got, want));
                    }
                }
                Ok(())
            }
            1 => value_from(d).map(|_| ()),
            _ => crate::dyns::de_any(d).map(|_| ()),
        })?;
        let show = || {
            format!(
                "reader {} after {} of {} bytes, way {}; value {}; schema {}",
                if eof { "ends".to_string() } else { format!("fault {:?}", kind) },
                at,
                b.len(),
                way,
                vshow(v),
                outline(s)
            )
        };
        if let Some(x) = wrong {
            return violation("read-value", format!("{}: {}", x, show()));
        }
        let e = match r {
            Ok(()) => return violation("read-fault-swallowed", show()),
            Err(e) => e,
        };
        check!(e.kind() == ErrorKind::Io, "read-kind", "kind {:?} ({}): {}", e.kind(), e, show());
        check!(!fin, "read-finished", "coder finished after the fault: {}", show());
        if eof {
            check!(
                io_kind(&e) == Some(std::io::ErrorKind::UnexpectedEof),
                "read-eof",
                "early end reported as {:?}: {}",
                e,
                show()
            );
            cx.count("early ends", 1);
        } else {
            check!(find_injected(&e) == Some((id, kind)), "read-error-lost", "original error not found in {:?}: {}", e, show());
            check!(rd.failed == 1, "read-continues", "reader called again after its failure: {}", show());
            cx.count("reader faults", 1);
        }
        cx.count("writer faults", 1);
        cx.nontrivial((format!("{:?}", s), &b, at));
    }
    Ok(())
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        quick: 72_000,
        thorough: 4_320_000,
        directed: vec![("faults in large messages", c17_large)],
        case: c17_case,
        rule: "random legal schema and value; the writer fails (12 error kinds, or accepts nothing) and the reader fails or ends after every byte of the message in turn (up to 40 points in quick), coded by calls, as Value and through serde; non-trivial = each fault point of a non-empty message, distinct by (schema, bytes, point)",
    }
}

// ---------------------------------------------------------------- C23

/// All nodes of a value in preorder.
fn node_mut<'v>(v: &'v mut Value, k: &mut usize) -> Option<&'v mut Value> {
    if *k == 0 {
        return Some(v);
    }
    *k -= 1;
    match v {
        Value::Option(Some(x)) => node_mut(x, k),
        Value::FixedLenSeq(x) | Value::VarLenSeq(x) | Value::Tuple(x) => x.iter_mut().find_map(|y| node_mut(y, k)),
        Value::Struct(x) => x.iter_mut().find_map(|y| node_mut(&mut y.value, k)),
        Value::Enum(x) => node_mut(&mut x.value, k),
        _ => None,
    }
}

fn deviate(r: &mut Rng, v: &mut Value) {
    let n = vcount(v);
    let mut k = r.below(n);
    let x = node_mut(v, &mut k).expect("node");
    let other = |r: &mut Rng| match r.below(6) {
        0 => Value::Unit,
        1 => Value::Str(r.string(3)),
        2 => Value::Option(None),
        3 => Value::Tuple(vec![]),
        _ => {
            let st = gen::scalar_ty(r);
            Value::Scalar(gen::scalar(r, st))
        }
    };
    if r.chance(1, 8) {
        *x = other(r);
        return;
    }
    match x {
        Value::Scalar(s) => {
            // same number, other type
            let n: i128 = match *s {
                ScalarValue::U8(n) => n as i128,
                ScalarValue::U16(n) => n as i128,
                ScalarValue::U32(n) => n as i128,
                ScalarValue::U64(n) => n as i128,
                ScalarValue::I8(n) => n as i128,
                ScalarValue::I16(n) => n as i128,
                ScalarValue::I32(n) => n as i128,
                ScalarValue::I64(n) => n as i128,
                ScalarValue::Char(c) => c as i128,
                _ => 1,
            };
            let v = ints_of(n, n as u128);
            *s = *r.pick(&v);
        }
        Value::Str(s) => *x = Value::Bytes(s.as_bytes().to_vec()),
        Value::Bytes(s) => *x = Value::Str(String::from_utf8_lossy(s).into_owned()),
        Value::Unit => *x = if r.chance(1, 2) { Value::Tuple(vec![]) } else { Value::Struct(vec![]) },
        Value::Option(None) => {
            let o = other(r);
            *x = Value::Option(Some(Box::new(o)))
        }
        Value::Option(Some(y)) => *x = (**y).clone(),
        Value::FixedLenSeq(y) | Value::VarLenSeq(y) | Value::Tuple(y) => {
            let mut y = y.clone();
            match r.below(4) {
                0 => {
                    y.pop();
                }
                1 => {
                    let e = y.last().cloned().unwrap_or_else(|| other(r));
                    y.push(e);
                }
                2 if y.len() > 1 => {
                    let (a, b) = (r.below(y.len()), r.below(y.len()));
                    y.swap(a, b);
                }
                _ => {}
            }
            *x = match (r.below(6), &*x) {
                (0, _) => Value::FixedLenSeq(y),
                (1, _) => Value::VarLenSeq(y),
                (2, _) => Value::Tuple(y),
                (_, Value::FixedLenSeq(_)) => Value::FixedLenSeq(y),
                (_, Value::VarLenSeq(_)) => Value::VarLenSeq(y),
                _ => Value::Tuple(y),
            };
        }
        Value::Struct(f) => match r.below(6) {
            0 => {
                f.pop();
            }
            1 => {
                let e = f.last().cloned().unwrap_or(StructValueField { name: "z".into(), value: Value::Unit });
                f.push(e);
            }
            2 if f.len() > 1 => {
                let (a, b) = (r.below(f.len()), r.below(f.len()));
                f.swap(a, b);
            }
            3 if !f.is_empty() => {
                let i = r.below(f.len());
                f[i].name = other_name(r, &f[i].name);
            }
            4 if !f.is_empty() => {
                let i = r.below(f.len());
                f.remove(i);
            }
            _ => *x = Value::Tuple(f.iter().map(|y| y.value.clone()).collect()),
        },
        Value::Enum(e) => match r.below(4) {
            0 => e.variant_ord = e.variant_ord.wrapping_add(1),
            1 => e.variant_ord = e.variant_ord.wrapping_sub(1),
            2 => e.variant_name = other_name(r, &e.variant_name),
            _ => *x = (*e.value).clone(),
        },
    }
}

fn c23_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let (s, t, v0, _) = gen::case(&mut cx.rng, g);
    for k in 0..4 {
        let mut v = v0.clone();
        let n = if k == 0 { cx.rng.below(2) } else { cx.rng.range(1, 2) };
        for _ in 0..n {
            deviate(&mut cx.rng, &mut v);
        }
        c23_one(cx, &s, &t, &v)?;
    }
    Ok(())
}

fn c23_one(cx: &mut Cx, s: &Schema, t: &Tree, v: &Value) -> R {
    {
        let want = enc(t, v);
        let mut w = W::new();
        let c = encode_with(s, &mut w, "Value::encode_to", |e| v.encode_to(e))?;
        let show = || format!("value {}; schema {}", vshow(v), outline(s));
        match (&want, &c.res) {
            (Some(b), Ok(())) => {
                check!(c.finished, "unfinished", "conforming value leaves the coder unfinished; {}", show());
                check!(&w.out == b, "bytes", "wrote {}, FORMAT says {}; {}", bshow(&w.out), bshow(b), show());
                cx.count("conforming", 1);
            }
            (None, Ok(())) => {
                check!(!c.finished, "accepted", "encoded as {} although it does not conform; {}", bshow(&w.out), show());
                return violation("accepted-unfinished", format!("encode_to succeeds although the value does not conform; {}", show()));
            }
            (Some(_), Err(e)) => return violation(format!("refused:{:?}", e.kind()), format!("{}; {}", e, show())),
            (None, Err(e)) => {
                check!(
                    matches!(e.kind(), ErrorKind::SchemaNonConformance | ErrorKind::ApiUsage),
                    format!("kind:{:?}", e.kind()),
                    "{}; {}",
                    e,
                    show()
                );
                check!(!c.finished, "finished", "refused, but the coder says finished; {}", show());
                cx.count("deviating", 1);
                cx.nontrivial((format!("{:?}", s), format!("{:?}", v)));
            }
        }
        cx.sample(|| format!("{:?} : {:?} -> {}", s, v, if want.is_some() { "conforms" } else { "deviates" }));
    }
    Ok(())
}

/// Names, ordinals and lengths that are almost right.
fn c23_near(cx: &mut Cx) -> R {
    let wrap = |k: usize, s: Schema, v: Value| match k % 4 {
        0 => (Schema::Option(Box::new(s)), Value::Option(Some(Box::new(v)))),
        1 => (Schema::Tuple(vec![Schema::Unit, s]), Value::Tuple(vec![Value::Unit, v])),
        2 => (
            Schema::Struct(vec![StructSchemaField { name: "f".into(), inner: s }]),
            Value::Struct(vec![StructValueField { name: "f".into(), value: v }]),
        ),
        _ => (s, v),
    };
    let unit_enum = |names: &[String]| {
        Schema::Enum(names.iter().map(|n| EnumSchemaVariant { name: n.clone(), inner: Schema::Unit }).collect())
    };
    let ev = |o: usize, n: &str| Value::Enum(EnumValue { variant_ord: o, variant_name: n.into(), value: Box::new(Value::Unit) });
    let mut k = 0;
    for n in [1usize, 2, 3, 16, 127, 128, 129, 255, 256, 257, 258, 300, 512, 513] {
        for same in [false, true] {
            let names: Vec<String> = (0..n).map(|i| if same { "v".to_string() } else { format!("v{}", i) }).collect();
            let e = unit_enum(&names);
            for o in [0, 1, n / 2, n.wrapping_sub(2), n - 1] {
                if o >= n {
                    continue;
                }
                let mut near: Vec<usize> = (0..usize::BITS).map(|b| o ^ 1 << b).collect();
                near.extend([o, o.wrapping_add(n), o.wrapping_sub(n), n, !o, o.wrapping_neg(), usize::MAX, o + 256, o + 65536]);
                for w in near {
                    k += 1;
                    let (s, v) = wrap(k, e.clone(), ev(w, &names[o]));
                    c23_one(cx, &s, &Tree::new(&s), &v)?;
                    cx.count("ordinals near the right one", 1);
                }
            }
        }
    }
    for (right, wrong) in near_names(&mut cx.rng) {
        for (right, wrong) in [(&right, &wrong), (&wrong, &right), (&right, &right)] {
            let u8s = || Schema::Scalar(ScalarType::U8);
            let st = Schema::Struct(
                ["a", right, "z"].iter().map(|n| StructSchemaField { name: n.to_string(), inner: u8s() }).collect(),
            );
            let sv = Value::Struct(
                ["a", wrong, "z"]
                    .iter()
                    .map(|n| StructValueField { name: n.to_string(), value: Value::Scalar(ScalarValue::U8(7)) })
                    .collect(),
            );
            let en = unit_enum(&["a".into(), right.clone(), "z".into()]);
            for (s, v) in [(st, sv), (en, ev(1, wrong))] {
                k += 1;
                let (s, v) = wrap(k, s, v);
                c23_one(cx, &s, &Tree::new(&s), &v)?;
                cx.count("names near the right one", 1);
            }
        }
    }
    // many fields, in every order one might sort them into
    for n in [2usize, 3, 5, 8, 9, 16, 17, 31, 33, 65, 129, 257, 300] {
        for order in 0..4 {
            let mut at: Vec<usize> = (0..n).collect();
            match order {
                0 => (),
                1 => at.reverse(),
                _ => (1..n).for_each(|i| at.swap(i, cx.rng.below(i + 1))),
            }
            let sv = |i: usize| Value::Scalar(ScalarValue::U16(i as u16));
            let s = Schema::Struct(
                at.iter().map(|i| StructSchemaField { name: format!("f{:03}", i), inner: Schema::Scalar(ScalarType::U16) }).collect(),
            );
            let f: Vec<StructValueField> = at.iter().map(|&i| StructValueField { name: format!("f{:03}", i), value: sv(i) }).collect();
            let mut vs = vec![f.clone(); 7];
            let i = cx.rng.below(n);
            vs[1].swap(i, (i + 1) % n);
            vs[2].remove(i);
            vs[3].insert(i, f[i].clone());
            vs[4].sort_by(|a, b| a.name.cmp(&b.name));
            vs[5].reverse();
            vs[6][i].name = f[(i + 1) % n].name.clone();
            for v in vs {
                k += 1;
                let (s, v) = wrap(k, s.clone(), Value::Struct(v));
                c23_one(cx, &s, &Tree::new(&s), &v)?;
                cx.count("structs of many fields", 1);
            }
        }
    }
    for n in [0usize, 1, 2, 127, 128, 255, 256, 257, 300, 1000, 4096] {
        let s = Schema::Seq(SeqSchema { len: Some(n), inner: Box::new(Schema::Scalar(ScalarType::U8)) });
        let t = Schema::Tuple((0..n).map(|_| Schema::Scalar(ScalarType::U8)).collect());
        let mut near: Vec<usize> = (0..17).map(|b| n ^ 1 << b).collect();
        near.extend([n, n + 1, n + 256, n.saturating_sub(1), n.saturating_sub(256)]);
        for m in near {
            let x = || (0..m).map(|i| Value::Scalar(ScalarValue::U8(i as u8))).collect::<Vec<_>>();
            for (s, v) in [(&s, Value::FixedLenSeq(x())), (&s, Value::VarLenSeq(x())), (&t, Value::Tuple(x()))] {
                k += 1;
                let (s, v) = wrap(k, s.clone(), v);
                c23_one(cx, &s, &Tree::new(&s), &v)?;
                cx.count("lengths near the right one", 1);
            }
        }
    }
    Ok(())
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        quick: 360_000,
        thorough: 21_600_000,
        directed: vec![("names, ordinals and lengths that are almost right", c23_near)],
        case: c23_case,
        rule: "random legal schema; conforming values and values deviating at one or two random nodes (kind, type of same number, length, order, name, ordinal); outcome of encode_to compared with the conformance model; non-trivial = deviating value, distinct by (schema, value)",
    }
}
