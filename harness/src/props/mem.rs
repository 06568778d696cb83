//! C10, C11, C24: resources, memory safety, independence.

use crate::{
    alloc, api::*, check, dyns, gen,
    io::*,
    model::*,
    probe,
    rng::Rng,
    run::*,
    session::*,
};
use binschema::{
    error::ErrorKind, value::Value, CoderState, CoderStateAlloc, Decoder, Encoder, EnumSchemaVariant, ScalarType, Schema, SeqSchema,
    StructSchemaField,
};
use std::io::{Read, Write};

/// Whether the counting allocator is not in place.
pub fn plain() -> bool {
    cfg!(any(miri, feature = "plain_alloc"))
}

// ---- C10 ----

const CLAIMS: [u128; 14] = [
    1 << 16,
    1 << 20,
    1 << 24,
    (1 << 24) + 1,
    1 << 26,
    1 << 28,
    1 << 31,
    1 << 32,
    1 << 33,
    1 << 40,
    1 << 62,
    1 << 63,
    u64::MAX as u128,
    u64::MAX as u128 - 1,
];

/// Where the lengths in a valid message are.
fn lengths(t: &Tree, v: &Value, b: &[u8]) -> Vec<(usize, usize)> {
    let p = plan_value(Dir::Dec, t, v, b);
    let mut from = 0;
    let mut out = vec![];
    for s in &p.steps {
        if matches!(s.op, Op::VarSeq(_) | Op::Str(_) | Op::Bytes(_)) {
            let mut c = Cur::new(&b[from..]);
            if c.len().is_ok() {
                out.push((from, from + c.pos));
            }
        }
        from = s.at.unwrap_or(from);
    }
    out
}

fn claim(r: &mut Rng, b: &[u8], at: &[(usize, usize)]) -> Vec<u8> {
    let mut m = b.to_vec();
    if at.is_empty() {
        return gen::mutate(r, b);
    }
    let k = r.range(1, 3.min(at.len()));
    let mut places: Vec<(usize, usize)> = (0..k).map(|_| *r.pick(at)).collect();
    places.sort();
    places.dedup();
    for (x, y) in places.into_iter().rev() {
        let mut l = vec![];
        let c = *r.pick(&CLAIMS);
        put_uint(&mut l, if r.chance(1, 4) { c.saturating_sub(r.below(9) as u128) } else { c });
        m.splice(x..y, l);
    }
    match r.below(4) {
        0 => {
            let l = r.below(m.len() + 1);
            m.truncate(l)
        }
        1 => {
            let l = *r.pick(&[1usize, 100, 5000, 20_000, 70_000]);
            let c = *r.pick(&[0u8, 1, b'a', 0x80]);
            m.extend(std::iter::repeat(c).take(l));
        }
        _ => {}
    }
    m
}

struct Cost {
    peak: isize,
    largest: usize,
}

fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let s = alloc::snap();
    alloc::reset_peak();
    let x = f();
    let (peak, largest) = alloc::peak_over(&s);
    (x, Cost { peak, largest })
}

/// What decoding may cost, given what was really there.
fn allowed(slack_mib: usize, bytes: usize, values: u64, name: usize) -> usize {
    (slack_mib << 20) + 64 * bytes + values as usize * (1024 + 16 * name)
}

pub fn depth(t: &Tree) -> usize {
    fn go(t: &Tree, id: usize) -> usize {
        1 + t.children(id).iter().map(|&c| go(t, c)).max().unwrap_or(0)
    }
    go(t, 0)
}

fn longest_name(s: &Schema) -> usize {
    let t = Tree::new(s);
    (0..t.nodes.len())
        .map(|i| match t.kind(i) {
            Kind::Struct(v) | Kind::Enum(v) => v.iter().map(|x| x.0.len()).sum::<usize>(),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

fn hostile(
    cx: &mut Cx,
    what: &str,
    s: &Schema,
    m: &[u8],
    slack: usize,
    values: u64,
    f: impl FnOnce(&mut Decoder<Rd>) -> Result<(), binschema::error::Error>,
) -> R<bool> {
    let mut rd = Rd::new(m);
    if cx.rng.chance(1, 3) {
        rd = Rd::chunked(m, &mut cx.rng);
    }
    let mut err = None;
    let (r, cost) = measure(|| decode_with(s, &mut rd, what, f));
    let (r, fin) = r?;
    if let Err(e) = &r {
        err = Some(lib("Display of an error", || format!("{} {:?}", e, e.kind()))?);
    }
    if !plain() {
        let max = allowed(slack, m.len(), values, longest_name(s));
        cx.count("max:peak bytes of one decode", cost.peak.max(0) as u64);
        cx.count("max:largest single request", cost.largest as u64);
        check!(
            cost.peak <= max as isize && cost.largest <= max,
            format!("memory:{}", what),
            "{} of {} bytes, {} values decoded: peak {} bytes, largest request {} bytes, {} allowed; result {:?}; data {}; schema {}",
            what,
            m.len(),
            values,
            cost.peak,
            cost.largest,
            max,
            r.as_ref().err().map(|e| e.kind()),
            bshow(m),
            outline(s)
        );
    }
    cx.count(if err.is_none() { "decodes that returned a value" } else { "decodes that returned an error" }, 1);
    if let Err(e) = &r {
        let fatal = matches!(
            e.kind(),
            ErrorKind::Io | ErrorKind::MalformedData | ErrorKind::PlatformLimits | ErrorKind::IllegalSchema
        );
        check!(!fatal || !fin, format!("finished-on-error:{}", what), "finished after {}; data {}", e, bshow(m));
    }
    Ok(r.is_ok())
}

/// A schema in which lengths matter.
fn lengthy(r: &mut Rng) -> Schema {
    let seq = |i: Schema| Schema::Seq(SeqSchema { len: None, inner: Box::new(i) });
    let leaf = match r.below(6) {
        0 => Schema::Str,
        1 => Schema::Bytes,
        2 => seq(Schema::Scalar(ScalarType::U8)),
        3 => seq(Schema::Str),
        4 => seq(Schema::Tuple(vec![Schema::Str, Schema::Bytes])),
        _ => seq(Schema::Scalar(ScalarType::U64)),
    };
    let mut s = leaf;
    for _ in 0..r.below(5) {
        s = match r.below(7) {
            0 => seq(s),
            1 => Schema::Option(Box::new(s)),
            2 => Schema::Tuple(vec![s, Schema::Bytes]),
            3 => Schema::Struct(vec![StructSchemaField { name: "f".into(), inner: s }]),
            4 => Schema::Enum(vec![
                EnumSchemaVariant { name: "a".into(), inner: Schema::Unit },
                EnumSchemaVariant { name: "b".into(), inner: s },
            ]),
            5 => Schema::Seq(SeqSchema { len: Some(r.range(1, 3)), inner: Box::new(s) }),
            _ => seq(Schema::Tuple(vec![s])),
        };
    }
    s
}

fn c10_case(cx: &mut Cx) -> R {
    // typed: a type of this harness's own catalogue
    if cx.rng.chance(1, 4) {
        let types = probe::types();
        let ty = cx.rng.pick(types);
        let (s, b) = (ty.message)(&mut cx.rng)?;
        let t = Tree::new(&s);
        let mut c = Cur::new(&b);
        let m = match c.value(&t, 0) {
            Ok(v) if cx.rng.chance(2, 3) => claim(&mut cx.rng, &b, &lengths(&t, &v, &b)),
            _ => gen::mutate(&mut cx.rng, &b),
        };
        let mut c = Cur::new(&m);
        c.budget = 30_000;
        if c.value(&t, 0) == Err(DErr::Budget) {
            return Err(Fail::Skip("too many values"));
        }
        let slack = 8 + 2 * depth(&t);
        let ok = hostile(cx, "typed deserialize", &s, &m, slack, c.values, |d| (ty.decode)(d))?;
        cx.count("typed decodes", 1);
        if !ok {
            cx.nontrivial((ty.name, m));
        }
        return Ok(());
    }
    let (s, t, v, b) = if cx.rng.chance(1, 2) {
        let s = lengthy(&mut cx.rng);
        let t = Tree::new(&s);
        let v = gen::value(&mut cx.rng, &t, 12);
        let b = enc(&t, &v).expect("conforms");
        (s, t, v, b)
    } else {
        let g = cfg(&mut cx.rng);
        gen::case(&mut cx.rng, g)
    };
    let m = if cx.rng.chance(2, 3) {
        cx.count("length claims planted", 1);
        claim(&mut cx.rng, &b, &lengths(&t, &v, &b))
    } else {
        gen::mutate(&mut cx.rng, &b)
    };
    let mut c = Cur::new(&m);
    c.budget = 30_000;
    let want = c.value(&t, 0);
    if want == Err(DErr::Budget) {
        return Err(Fail::Skip("too many values"));
    }
    let n = c.values;
    hostile(cx, "Value::decode_from", &s, &m, 4, n, |d| Value::decode_from(d).map(|_| ()))?;
    hostile(cx, "deserialize_any", &s, &m, 4, n, |d| dyns::de_any(d).map(|_| ()))?;
    hostile(cx, "ignored value", &s, &m, 4, n, |d| {
        <serde::de::IgnoredAny as serde::Deserialize>::deserialize(d).map(|_| ())
    })?;
    let shape = dyns::natural(&mut cx.rng, &t, 0, &v);
    hostile(cx, "shaped deserialize", &s, &m, 4, n, |d| dyns::de_shape(d, &shape).map(|_| ()))?;
    // by calls, right ones as far as the data go and some wrong ones
    let pc = PlanCfg { doubt: 5, max_steps: 100, ..PlanCfg::default() };
    let p = plan_dec(&mut cx.rng, &t, &m, pc);
    let ops: Vec<Op> = p.steps.iter().map(|s| s.op.clone()).collect();
    hostile(cx, "decoder calls", &s, &m, 4, n + ops.len() as u64, |d| {
        let mut last = Ok(());
        for op in &ops {
            if let Err(e) = dec_on(d, op) {
                let _ = e.to_string();
                last = Err(e);
            }
        }
        last
    })?;
    if want.is_err() {
        cx.nontrivial((format!("{:?}", s), m.clone()));
    }
    cx.sample(|| format!("{} (model: {:?}) under {}", bshow(&m), want.as_ref().err(), outline(&s)));
    Ok(())
}

/// Every claim at the first length of small schemas, with nothing behind it.
fn c10_claims(cx: &mut Cx) -> R {
    let seq = |i: Schema| Schema::Seq(SeqSchema { len: None, inner: Box::new(i) });
    let schemas = [
        Schema::Str,
        Schema::Bytes,
        seq(Schema::Scalar(ScalarType::U8)),
        seq(Schema::Scalar(ScalarType::U128)),
        seq(Schema::Scalar(ScalarType::Bool)),
        seq(Schema::Str),
        seq(seq(Schema::Scalar(ScalarType::U8))),
        seq(Schema::Tuple(vec![Schema::Scalar(ScalarType::U8), Schema::Str])),
        seq(Schema::Struct(vec![StructSchemaField { name: "x".into(), inner: Schema::Scalar(ScalarType::F64) }])),
        seq(Schema::Enum(vec![
            EnumSchemaVariant { name: "a".into(), inner: Schema::Unit },
            EnumSchemaVariant { name: "b".into(), inner: Schema::Str },
        ])),
        Schema::Option(Box::new(seq(Schema::Option(Box::new(Schema::Bytes))))),
        Schema::Seq(SeqSchema { len: Some(1 << 40), inner: Box::new(Schema::Scalar(ScalarType::U8)) }),
        Schema::Seq(SeqSchema { len: Some(usize::MAX), inner: Box::new(Schema::Str) }),
    ];
    for s in &schemas {
        for &c in &CLAIMS {
            for tail in [0usize, 1, 9, 3000] {
                let mut m = vec![];
                if matches!(s, Schema::Option(_)) {
                    m.push(1);
                }
                put_uint(&mut m, c);
                m.extend(std::iter::repeat(1u8).take(tail));
                let t = Tree::new(s);
                let mut k = Cur::new(&m);
                k.budget = 30_000;
                let w = k.value(&t, 0);
                if w == Err(DErr::Budget) {
                    continue;
                }
                let n = k.values;
                hostile(cx, "Value::decode_from", s, &m, 4, n, |d| Value::decode_from(d).map(|_| ()))?;
                hostile(cx, "deserialize_any", s, &m, 4, n, |d| dyns::de_any(d).map(|_| ()))?;
                hostile(cx, "ignored value", s, &m, 4, n, |d| {
                    <serde::de::IgnoredAny as serde::Deserialize>::deserialize(d).map(|_| ())
                })?;
                hostile(cx, "decoder calls", s, &m, 4, n, |d| match s {
                    Schema::Str => d.decode_str().map(|_| ()),
                    Schema::Bytes => d.decode_bytes().map(|_| ()),
                    _ => d.begin_var_len_seq().map(|_| ()),
                })?;
                cx.nontrivial((format!("{:?}", s), m));
            }
        }
    }
    // and each type of the catalogue, fed such claims from the start
    for ty in probe::types() {
        for _ in 0..4 {
            let (s, b) = (ty.message)(&mut cx.rng)?;
            let t = Tree::new(&s);
            let v = match Cur::new(&b).value(&t, 0) {
                Ok(v) => v,
                Err(_) => continue,
            };
            for (x, y) in lengths(&t, &v, &b) {
                let c = *cx.rng.pick(&CLAIMS);
                let mut m = b.clone();
                let mut l = vec![];
                put_uint(&mut l, c);
                m.splice(x..y, l);
                let mut k = Cur::new(&m);
                k.budget = 30_000;
                if k.value(&t, 0) == Err(DErr::Budget) {
                    continue;
                }
                hostile(cx, "typed deserialize", &s, &m, 8 + 2 * depth(&t), k.values, |d| (ty.decode)(d))?;
                cx.count("typed decodes", 1);
            }
        }
    }
    Ok(())
}

/// Errors at a great depth: what is said of the state grows no faster than the depth.
fn c10_errors_at_depth(cx: &mut Cx) -> R {
    let me = || Schema::Recurse(1);
    let u8s = || Schema::Scalar(ScalarType::U8);
    let field = |n: &str, inner| StructSchemaField { name: n.into(), inner };
    let var = |n: &str, inner| EnumSchemaVariant { name: n.into(), inner };
    let schemas = [
        Schema::Option(Box::new(me())),
        Schema::Seq(SeqSchema { len: None, inner: Box::new(me()) }),
        Schema::Enum(vec![var("a", Schema::Unit), var("b", me())]),
        Schema::Struct(vec![field("x", u8s()), field("f", me())]),
        Schema::Tuple(vec![u8s(), me(), Schema::Unit]),
        Schema::Seq(SeqSchema { len: Some(1), inner: Box::new(Schema::Option(Box::new(Schema::Recurse(2)))) }),
    ];
    for s in &schemas {
        for n in [1usize, 10, 100, 1000, 10_000, 40_000] {
            for last in 0..6 {
                let mut m = vec![1u8; n];
                if last == 1 {
                    m.extend([9, 9, 9]);
                } else if last > 1 {
                    m.extend([1; 40]);
                }
                hostile(cx, "calls to a great depth", s, &m, 4, n as u64 * 2, |d| {
                    let mut i = 0;
                    loop {
                        if i == n {
                            match last {
                                2 => return d.finish_tuple(),
                                3 => return d.decode_f64().map(|_| ()),
                                4 => return d.begin_struct_field("nothing of that name"),
                                5 => return Value::decode_from(d).and_then(|_| d.decode_unit()),
                                _ => {}
                            }
                        }
                        i += 1;
                        match s {
                            Schema::Option(_) => drop(d.begin_option()?),
                            Schema::Seq(SeqSchema { len: None, .. }) => {
                                d.begin_var_len_seq()?;
                                d.begin_seq_elem()?;
                            }
                            Schema::Seq(_) => {
                                d.begin_fixed_len_seq(1)?;
                                d.begin_seq_elem()?;
                                d.begin_option()?;
                            }
                            Schema::Enum(_) => {
                                d.begin_enum()?;
                                d.begin_enum_variant("b")?;
                            }
                            Schema::Struct(_) => {
                                d.begin_struct()?;
                                d.begin_struct_field("x")?;
                                d.decode_u8()?;
                                d.begin_struct_field("f")?;
                            }
                            _ => {
                                d.begin_tuple()?;
                                d.begin_tuple_elem()?;
                                d.decode_u8()?;
                                d.begin_tuple_elem()?;
                            }
                        }
                    }
                })?;
                cx.count("errors at depth", 1);
                cx.count("max:depth of an error", n as u64);
            }
        }
    }
    Ok(())
}

// nesting, in a process of its own

const DEEP: usize = 1_000_000;
/// Nesting which every route must manage on an ordinary 8 MiB stack.
const SHALLOW: usize = 1_000;

const KINDS: [&str; 8] = [
    "value-decode",
    "value-decode-cut",
    "serde-any",
    "serde-ignored",
    "serde-schema",
    "value-zero-byte-cycle",
    "calls",
    "calls-unbalanced",
];

fn opt_rec() -> Schema {
    Schema::Option(Box::new(Schema::Recurse(1)))
}

pub fn deep_child(kind: &str, n: usize) {
    let kind = kind.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut b = vec![1u8; n];
            b.push(0);
            let mut s = opt_rec();
            match kind.as_str() {
                "value-decode-cut" | "calls-unbalanced" => {
                    b.pop();
                }
                "serde-schema" => {
                    use binschema::KnownSchema;
                    s = Schema::schema(Default::default());
                    // option is variant 1 of the meta-schema, unit is 4
                    b = crate::props::serde_::nested_meta(n);
                }
                "value-zero-byte-cycle" => {
                    s = Schema::Tuple(vec![Schema::Recurse(1)]);
                    b.clear();
                }
                _ => {}
            }
            let mut rd = Rd::new(&b);
            let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
            let mut d = Decoder::new(&mut st, &mut rd);
            let r: Result<(), binschema::error::Error> = match kind.as_str() {
                "serde-any" => dyns::de_any(&mut d).map(|x| std::mem::forget(x)),
                "serde-ignored" => <serde::de::IgnoredAny as serde::Deserialize>::deserialize(&mut d).map(|_| ()),
                "serde-schema" => <Schema as serde::Deserialize>::deserialize(&mut d).map(|x| std::mem::forget(x)),
                "calls" | "calls-unbalanced" => (|| {
                    while d.begin_option()? {}
                    Ok(())
                })(),
                // forgotten: dropping what was decoded is not the decoder's business
                _ => Value::decode_from(&mut d).map(|x| std::mem::forget(x)),
            };
            match r {
                Ok(()) => println!("ok finished={}", st.is_finished()),
                Err(e) => {
                    let _ = e.to_string();
                    println!("error {:?}", e.kind())
                }
            }
        })
        .unwrap()
        .join()
        .map_err(|_| std::process::exit(77))
        .unwrap();
}

fn c10_deep(cx: &mut Cx, kind: &'static str, n: usize) -> R {
    let exe = std::env::current_exe().expect("own executable");
    let out = std::process::Command::new(exe)
        .args(["deep", kind, &n.to_string()])
        .output()
        .expect("subprocess");
    cx.count("deep nesting probes", 1);
    let so = String::from_utf8_lossy(&out.stdout).to_string();
    let se = String::from_utf8_lossy(&out.stderr).to_string();
    cx.nontrivial((kind, n));
    if out.status.success() {
        let good = match kind {
            "value-decode-cut" | "calls-unbalanced" => so.starts_with("error Io"),
            "value-zero-byte-cycle" => so.starts_with("error"),
            _ => so.starts_with("ok finished=true") || (n == DEEP && so.starts_with("error")),
        };
        check!(good, format!("deep-result:{}", kind), "nesting of {}: {:?}", n, so);
        cx.count("deep nesting probes that returned", 1);
        return Ok(());
    }
    if se.contains("overflowed its stack") || se.contains("stack overflow") {
        cx.count("deep nesting probes that overflowed the stack", 1);
        let sig = if n == DEEP { format!("stack-overflow:{}", kind) } else { format!("shallow-stack-overflow:{}", kind) };
        return violation(sig, format!("nesting of {}: the process died of stack overflow ({})", n, out.status));
    }
    violation(
        format!("deep-died:{}", kind),
        format!("nesting of {}: {} {}", n, out.status, se.chars().take(300).collect::<String>()),
    )
}

macro_rules! deep_cases {
    ($($i:expr),*) => {
        vec![$(
            ("deep nesting", (|cx: &mut Cx| c10_deep(cx, KINDS[$i], DEEP)) as CaseFn),
            ("shallow nesting", (|cx: &mut Cx| if KINDS[$i] == "value-zero-byte-cycle" { Ok(()) } else {
                c10_deep(cx, KINDS[$i], SHALLOW)
            }) as CaseFn),
        )*]
    };
}

pub fn c10() -> Prop {
    let mut directed: Vec<(&'static str, CaseFn)> = vec![("length claims", c10_claims), ("errors at depth", c10_errors_at_depth)];
    directed.extend(deep_cases!(0, 1, 2, 3, 4, 5, 6, 7));
    Prop {
        id: "C10",
        quick: 200_000,
        thorough: 12_000_000,
        directed,
        case: c10_case,
        rule: "seeded schemas and catalogue types; valid messages with lengths replaced by huge claims, mutated, cut or \
               padded; decoded by calls, as Value, driven by the schema, ignored, and typed. Non-trivial: the model says \
               the bytes are to be refused; distinct by schema and bytes. Deep nesting in subprocesses",
    }
}

// ---- C11 ----

fn c11_case(cx: &mut Cx) -> R {
    let mut trace: Vec<String> = vec![];
    let small = cfg!(miri);
    let n = if small { cx.rng.range(2, 5) } else { cx.rng.range(2, 14) };
    for (k, v) in pool(cx, n, small, &mut trace)? {
        cx.count(k, v);
    }
    if trace.iter().filter(|x| x.starts_with("use")).count() >= 2 {
        cx.nontrivial(&trace);
    }
    cx.sample(|| trace.join(" "));
    Ok(())
}

/// Random operations on a pool of allocations. Everything made inside is gone
/// at the end, so the allocator must be balanced.
fn pool(cx: &mut Cx, n: usize, small: bool, trace: &mut Vec<String>) -> R<Vec<(&'static str, u64)>> {
    let (mut made, mut cloned, mut dropped, mut used, mut calls) = (0u64, 0, 0, 0, 0u64);
    let mut states = [0u64; 5];
    let mut events = 0;
    let mut threw = 0;
    let lines: Vec<(u8, u64)> = (0..n).map(|_| (cx.rng.below(12) as u8, cx.rng.u64())).collect();
    let before = alloc::snap();
    {
        let mut pool: Vec<CoderStateAlloc> = Vec::new();
        for (what, seed) in &lines {
            let mut r = Rng::new(*seed);
            match what {
                0 => {
                    pool.push(lib("CoderStateAlloc::new", CoderStateAlloc::new)?);
                    made += 1;
                }
                1 => {
                    pool.push(lib("CoderStateAlloc::default", CoderStateAlloc::default)?);
                    made += 1;
                }
                2 | 3 if !pool.is_empty() => {
                    let i = r.below(pool.len());
                    let c = lib("CoderStateAlloc::clone", || pool[i].clone())?;
                    pool.push(c);
                    cloned += 1;
                }
                4 if !pool.is_empty() => {
                    let i = r.below(pool.len());
                    let x = pool.swap_remove(i);
                    lib("CoderStateAlloc::drop", || drop(x))?;
                    dropped += 1;
                }
                5 if pool.len() >= 2 => {
                    // clone_from
                    let i = r.below(pool.len());
                    let a = pool.swap_remove(i);
                    let j = r.below(pool.len());
                    lib("CoderStateAlloc::clone_from", || pool[j].clone_from(&a))?;
                    pool.push(a);
                    cloned += 1;
                }
                _ => {
                    let a = if pool.is_empty() || r.chance(1, 8) {
                        CoderStateAlloc::new()
                    } else {
                        let i = r.below(pool.len());
                        pool.swap_remove(i)
                    };
                    if r.chance(1, 8) {
                        pool.extend(abandoned(&mut r, a, small, &mut threw)?);
                        continue;
                    }
                    let how = one_use(&mut r, a, small, &mut calls, &mut pool)?;
                    states[how] += 1;
                    used += 1;
                }
            }
        }
        lib("dropping the pool", || drop(pool))?;
    }
    if !plain() {
        let a = alloc::snap();
        events = a.events - before.events;
        check!(
            a.live_blocks == before.live_blocks && a.live_bytes == before.live_bytes,
            "leak",
            "after {:?}: {} blocks and {} bytes more than before",
            lines,
            a.live_blocks - before.live_blocks,
            a.live_bytes - before.live_bytes
        );
        let (n, w) = alloc::faults();
        check!(n == 0, "memory", "allocator monitor: {} ({} faults) after {:?}", w, n, lines);
    }
    for (w, s) in &lines {
        trace.push(format!("{}{:x}", if *w > 5 { "use" } else { "op" }, s ^ *w as u64));
    }
    Ok(vec![
        ("allocations made", made),
        ("allocations cloned", cloned),
        ("allocations dropped", dropped),
        ("coders on pooled allocations", used),
        ("coder calls", calls),
        ("coders retired unused", states[0]),
        ("coders retired half-way", states[1]),
        ("coders retired finished", states[2]),
        ("coders retired broken", states[3]),
        ("coders dropped without retiring", states[4]),
        ("coders left by a panic of the user's", threw),
        ("allocator events", events),
    ])
}

/// The user's stream or the user's own serde code panics while a coder on the
/// allocation is at work. The panic is caught, and the coder dropped or retired.
fn abandoned(r: &mut Rng, a: CoderStateAlloc, small: bool, threw: &mut u64) -> R<Option<CoderStateAlloc>> {
    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
    struct Bang;
    impl serde::Serialize for Bang {
        fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
            resume_unwind(Box::new(Thrown))
        }
    }
    impl<'de> serde::Deserialize<'de> for Bang {
        fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Bang, D::Error> {
            resume_unwind(Box::new(Thrown))
        }
    }
    let mut g = cfg(r);
    if small {
        g.max_nodes = 6;
        g.max_depth = 4;
    }
    let (s, _, v, b) = gen::case(r, g);
    let t8 = || Box::new(Schema::Scalar(ScalarType::U8));
    let bangs = Schema::Tuple(vec![
        Schema::Seq(SeqSchema { len: None, inner: t8() }),
        Schema::Option(Box::new(Schema::Tuple(vec![Schema::Str, Schema::Unit]))),
    ]);
    let way = r.below(8);
    let s = if way < 6 { s } else { bangs };
    let b = if way < 6 { b } else { vec![2, 5, 6, 1, 1, 65] };
    let mut w = W::chunked(r);
    let mut rd = Rd::chunked(&b, r);
    if way < 6 && !b.is_empty() {
        w.fail_at = Some(r.below(b.len()));
        w.throws = true;
        rd.fail_at = w.fail_at;
        rd.throws = true;
    }
    let mut ops = vec![];
    enc_script(&v, &mut ops);
    let mut dops = vec![];
    dec_script(&v, &mut dops);
    if r.chance(1, 5) {
        // the panic takes everything with it: coder, stream, allocations
        let n = r.below(if small { 12 } else { 100 });
        let res = catch_unwind(AssertUnwindSafe(|| {
            let nest = Schema::Option(Box::new(Schema::Recurse(1)));
            let mut st = CoderState::new(&nest, a, None);
            let mut out = vec![];
            for _ in 0..n {
                let _ = Encoder::new(&mut st, &mut out).begin_some();
            }
            let held = st.into_alloc();
            let _copy = held.clone();
            let mut other = CoderState::new(&nest, CoderStateAlloc::new(), None);
            for _ in 0..n {
                let _ = Encoder::new(&mut other, &mut out).begin_some();
            }
            let _other = if n % 2 == 0 { Some(other.into_alloc()) } else { None };
            resume_unwind(Box::new(Thrown))
        }));
        return match res {
            Ok(()) => Ok(None),
            Err(p) if p.is::<Thrown>() => {
                *threw += 1;
                Ok(None)
            }
            Err(_) => violation("panic:unwound", format!("library panicked: {}", last_panic())),
        };
    }
    let mut st = lib("CoderState::new", || CoderState::new(&s, a, None))?;
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut e = Encoder::new(&mut st, &mut w);
        match way {
            0 => drop(ops.iter().try_for_each(|op| enc_on(&mut e, op))),
            1 | 2 => drop(v.encode_to(&mut e)),
            6 => drop(serde::Serialize::serialize(&(vec![1u8, 2], Some(("x", Bang))), &mut e)),
            _ => {
                drop(e);
                let mut d = Decoder::new(&mut st, &mut rd);
                match way {
                    3 => drop(dops.iter().try_for_each(|op| dec_on(&mut d, &op.0).map(|_| ()))),
                    4 => drop(Value::decode_from(&mut d)),
                    5 => drop(dyns::de_any(&mut d)),
                    _ => drop(<(Vec<u8>, Option<(String, Bang)>) as serde::Deserialize>::deserialize(&mut d)),
                }
            }
        }
    }));
    match res {
        Ok(()) => {}
        Err(p) if p.is::<Thrown>() => *threw += 1,
        Err(_) => return violation("panic:abandoned", format!("library panicked (way {}): {}; schema {}", way, last_panic(), outline(&s))),
    }
    match r.below(3) {
        0 => {
            lib("abandoned coder dropped", || drop(st))?;
            Ok(None)
        }
        _ => Ok(Some(lib("abandoned coder retired", || st.into_alloc())?)),
    }
}

/// One coder on the allocation; the schema dies at the end.
fn one_use(r: &mut Rng, a: CoderStateAlloc, small: bool, calls: &mut u64, pool: &mut Vec<CoderStateAlloc>) -> R<usize> {
    let mut g = cfg(r);
    if small {
        g.max_nodes = 6;
        g.max_depth = 4;
    }
    let pc = PlanCfg {
        doubt: *r.pick(&[0, 10, 40]),
        cut: *r.pick(&[0, 50, 100]),
        max_steps: if small { 25 } else { 120 },
        ..PlanCfg::default()
    };
    let (s, p) = {
        if r.chance(1, 2) {
            let (s, t) = gen::good_schema(r, g);
            let p = plan_enc(r, &t, pc);
            (s, p)
        } else {
            let (s, t, _, b) = gen::case(r, g);
            let b = if r.chance(1, 3) { gen::mutate(r, &b) } else { b };
            let p = plan_dec(r, &t, &b, pc);
            (s, p)
        }
    };
    // boxed, so that it really goes away
    let s = Box::new(s);
    let t = Tree::new(&s);
    let mut p = p;
    if r.chance(1, 8) {
        p.steps.clear();
        p.finishes = false;
        if p.dir == Dir::Enc {
            p.bytes.clear();
        }
    }
    let broken = p.steps.iter().any(|x| matches!(x.exp, Exp::Fatal(_)));
    let state = if p.steps.is_empty() {
        0
    } else if broken {
        3
    } else if p.finishes {
        2
    } else {
        1
    };
    if r.chance(1, 6) {
        // drop the coder instead of retiring it
        lib("coder dropped", || {
            let mut st = CoderState::new(&s, a, None);
            let mut w = W::new();
            let mut rd = Rd::new(&p.bytes);
            for x in &p.steps {
                match p.dir {
                    Dir::Enc => drop(enc_on(&mut Encoder::new(&mut st, &mut w), &x.op)),
                    Dir::Dec => drop(dec_on(&mut Decoder::new(&mut st, &mut rd), &x.op)),
                }
                *calls += 1;
            }
        })?;
        return Ok(4);
    }
    let mut w = W::new();
    let bytes = p.bytes.clone();
    let mut rd = Rd::new(&bytes);
    let mon = Mon { reports: !small, stream: true, kinds: true, fresh: r.chance(1, 2) };
    let (_, a) = exec(&s, &t, &p, mon, a, None, &mut w, &mut rd, calls)?;
    if r.chance(7, 8) {
        pool.push(a);
    } else {
        lib("allocation dropped", || drop(a))?;
    }
    Ok(state)
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        quick: 60_000,
        thorough: 3_600_000,
        directed: vec![],
        case: c11_case,
        rule: "pools of allocations under random make/clone/drop/use/retire operations; each use runs a seeded session, \
               right or wrong, finished or not, over a schema that is freed afterwards, against the model. Non-trivial: \
               at least two coders on pooled allocations; distinct by operations and seeds",
    }
}

// ---- C24 ----

struct Task {
    s: usize,
    p: Plan,
}

fn tasks(r: &mut Rng, n: usize, small: bool) -> (Vec<(Schema, Tree)>, Vec<Task>) {
    let mut schemas = vec![];
    let k = r.range(1, 3.min(n));
    let mut g = cfg(r);
    if small {
        g.max_nodes = 6;
        g.max_depth = 3;
        g.wide = false;
    }
    for _ in 0..k {
        schemas.push(gen::good_schema(r, g));
    }
    let mut out = vec![];
    for _ in 0..n {
        let i = r.below(k);
        let t = &schemas[i].1;
        let pc = PlanCfg {
            doubt: *r.pick(&[0, 10, 30]),
            cut: *r.pick(&[0, 30]),
            max_steps: if small { 20 } else { 80 },
            ..PlanCfg::default()
        };
        let p = if r.chance(1, 2) {
            plan_enc(r, t, pc)
        } else {
            let v = gen::value(r, t, 15);
            let b = enc(t, &v).expect("conforms");
            let b = if r.chance(1, 4) { gen::mutate(r, &b) } else { b };
            plan_dec(r, t, &b, pc)
        };
        out.push(Task { s: i, p });
    }
    (schemas, out)
}

/// Coders interleaved call by call on one thread.
fn interleaved(cx: &mut Cx, small: bool) -> R {
    let n = cx.rng.range(2, if small { 3 } else { 6 });
    let (schemas, ts) = tasks(&mut cx.rng, n, small);
    let mut ws: Vec<W> = (0..n).map(|_| W::chunked(&mut cx.rng)).collect();
    let mut rds: Vec<Rd> = ts.iter().map(|t| Rd::chunked(&t.p.bytes, &mut cx.rng)).collect();
    let mut sts: Vec<CoderState> =
        ts.iter().map(|t| CoderState::new(&schemas[t.s].0, CoderStateAlloc::new(), None)).collect();
    let mut at = vec![0usize; n];
    let mut sh: Vec<Shadow> = ts.iter().map(|t| Shadow::new(&schemas[t.s].1)).collect();
    let mut order = vec![];
    loop {
        let live: Vec<usize> = (0..n).filter(|&i| at[i] < ts[i].p.steps.len()).collect();
        if live.is_empty() {
            break;
        }
        if cx.rng.chance(1, 30) {
            // another coder comes to grief in between
            let mut n = 0;
            abandoned(&mut cx.rng, CoderStateAlloc::new(), small, &mut n)?;
            cx.count("coders left by a panic of the user's", n);
        }
        let i = *cx.rng.pick(&live);
        let t = &ts[i];
        let k = at[i];
        let op = &t.p.steps[k].op;
        let d = match t.p.dir {
            Dir::Enc => lib(op.tag(), || did(enc_on(&mut Encoder::new(&mut sts[i], &mut ws[i]), op).map(|_| Got::Nothing)))?,
            Dir::Dec => lib(op.tag(), || did(dec_on(&mut Decoder::new(&mut sts[i], &mut rds[i]), op)))?,
        };
        judge(&t.p, k, &d, ALL, &schemas[t.s].0)?;
        let undetermined = matches!(t.p.steps[k].exp, Exp::Fatal(DErr::Unspecified) | Exp::Fatal(DErr::Budget));
        sh[i].step(&t.p.steps[k]);
        at[i] = if undetermined { usize::MAX } else { k + 1 };
        order.push(i as u8);
        cx.count("interleaved calls", 1);
    }
    for i in 0..n {
        if at[i] == usize::MAX {
            continue;
        }
        check!(
            sts[i].is_finished() == ts[i].p.finishes,
            "finished",
            "interleaved coder {} of {}: is_finished() = {}, model says {}; schema {}",
            i,
            n,
            sts[i].is_finished(),
            ts[i].p.finishes,
            outline(&schemas[ts[i].s].0)
        );
        if ts[i].p.dir == Dir::Enc && !sh[i].m.broken {
            check!(
                ws[i].out == ts[i].p.bytes,
                "bytes",
                "interleaved coder {} wrote {:02x?}, alone it would be {:02x?}",
                i,
                ws[i].out,
                ts[i].p.bytes
            );
        }
    }
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
    cx.count("switches between coders", switches as u64);
    if switches >= 2 {
        cx.nontrivial((order.clone(), format!("{:?}", ts.iter().map(|t| &t.p.bytes).collect::<Vec<_>>())));
    }
    cx.sample(|| format!("{} coders on {} schemas, order of calls {:?}", n, schemas.len(), order));
    Ok(())
}

/// Coders on several threads at once, sharing the schemas.
fn threaded(cx: &mut Cx, small: bool) -> R {
    let n = cx.rng.range(2, if small { 3 } else { 4 });
    let (schemas, ts) = tasks(&mut cx.rng, n, small);
    let typed = !small && cx.rng.chance(1, 3);
    let seeds: Vec<u64> = ts.iter().map(|_| cx.rng.u64()).collect();
    let barrier = std::sync::Barrier::new(n);
    let schemas = &schemas;
    let barrier = &barrier;
    let results: Vec<R<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = ts
            .iter()
            .zip(&seeds)
            .map(|(t, &seed)| {
                sc.spawn(move || -> R<u64> {
                    let mut r = Rng::new(seed);
                    let mut calls = 0;
                    barrier.wait();
                    let (s, tr) = &schemas[t.s];
                    let text = if small { String::new() } else { lib("pretty_fmt", || s.pretty_fmt())? };
                    for _ in 0..if small { 1 } else { 4 } {
                        if r.chance(1, 4) {
                            abandoned(&mut r, CoderStateAlloc::new(), small, &mut 0)?;
                        }
                        let mut w = W::chunked(&mut r);
                        let bytes = t.p.bytes.clone();
                        let mut rd = Rd::chunked(&bytes, &mut r);
                        let mon = Mon { reports: !small, stream: true, kinds: true, fresh: r.chance(1, 2) };
                        exec(s, tr, &t.p, mon, CoderStateAlloc::new(), None, &mut w, &mut rd, &mut calls)?;
                    }
                    if !small {
                        let again = lib("pretty_fmt", || s.pretty_fmt())?;
                        check!(text == again, "pretty", "pretty_fmt differs between calls");
                    }
                    if typed {
                        let types = probe::types();
                        let ty = r.pick(types);
                        let mut inner = Cx::new(Rng::new(seed), Tier::Quick);
                        (ty.roundtrip)(&mut inner)?;
                    }
                    Ok(calls)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| violation("thread", "a thread panicked"))).collect()
    });
    for r in results {
        let c = r?;
        cx.count("calls on concurrent threads", c);
    }
    cx.count("threads run", n as u64);
    cx.nontrivial((seeds, "threads"));
    Ok(())
}

/// Threads that code small messages over and over, each its own kind.
fn hammer(cx: &mut Cx) -> R {
    let n = cx.rng.range(2, 5);
    let units = |k: usize| {
        Schema::Enum(
            (0..k)
                .map(|i| binschema::EnumSchemaVariant { name: format!("v{}", i), inner: Schema::Unit })
                .collect(),
        )
    };
    let mut jobs = vec![];
    for _ in 0..n {
        let s = match cx.rng.below(4) {
            0 | 1 => units(*cx.rng.pick(&[1usize, 2, 3, 255, 256, 257, 300, 1000, 65536, 65537])),
            2 => Schema::Scalar(gen::scalar_ty(&mut cx.rng)),
            _ => {
                let mut g = cfg(&mut cx.rng);
                g.max_nodes = 6;
                g.max_depth = 3;
                gen::good_schema(&mut cx.rng, g).0
            }
        };
        let t = Tree::new(&s);
        let v = gen::value(&mut cx.rng, &t, 6);
        let b = enc(&t, &v).expect("conforms");
        jobs.push((s, v, b));
    }
    let most = jobs.iter().map(|j| j.2.len()).max().unwrap();
    let times = if most > 200 { 50 } else { 1500 };
    let barrier = std::sync::Barrier::new(n);
    let barrier = &barrier;
    let results: Vec<R<()>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(s, v, b)| {
                sc.spawn(move || -> R<()> {
                    barrier.wait();
                    lib("coding on several threads", || {
                        let mut out = Vec::new();
                        let mut a = CoderStateAlloc::new();
                        for i in 0..times {
                            out.clear();
                            let mut st = CoderState::new(s, a, None);
                            let r = v.encode_to(&mut Encoder::new(&mut st, &mut out));
                            check!(
                                r.is_ok() && st.is_finished() && out == *b,
                                "threads-encode",
                                "round {} of {} beside other threads: {} encoded as {:02x?} ({:?}), alone it is {:02x?}",
                                i,
                                times,
                                vshow(v),
                                out,
                                r,
                                b
                            );
                            a = st.into_alloc();
                            let mut st = CoderState::new(s, a, None);
                            let mut rd = &b[..];
                            let r = Value::decode_from(&mut Decoder::new(&mut st, &mut rd));
                            check!(
                                matches!(&r, Ok(x) if veq(x, v)) && st.is_finished() && rd.is_empty(),
                                "threads-decode",
                                "round {} of {} beside other threads: {:02x?} decoded as {:?}, it is {}",
                                i,
                                times,
                                b,
                                r.as_ref().map(vshow),
                                vshow(v)
                            );
                            a = st.into_alloc();
                        }
                        Ok(())
                    })?
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| violation("thread", "a thread panicked"))).collect()
    });
    for r in results {
        r?;
        cx.count("messages coded in tight loops on concurrent threads", 2 * times);
    }
    cx.nontrivial((jobs.iter().map(|j| j.2.clone()).collect::<Vec<_>>(), "hammer"));
    Ok(())
}

/// A writer or reader that itself runs a coder whenever it is used.
struct Nesting<'x, 'd> {
    w: W,
    rd: Rd<'d>,
    schemas: &'x [(Schema, Tree)],
    tasks: &'x [Task],
    rng: Rng,
    runs: u64,
    bad: Option<Fail>,
    busy: bool,
}

impl<'x, 'd> Nesting<'x, 'd> {
    fn inner(&mut self) {
        if self.tasks.is_empty() || self.bad.is_some() || self.runs >= 12 || self.busy {
            return;
        }
        let t = &self.tasks[self.rng.below(self.tasks.len())];
        let (s, tr) = &self.schemas[t.s];
        let mut w = W::new();
        let bytes = t.p.bytes.clone();
        let mut rd = Rd::new(&bytes);
        let mut calls = 0;
        self.runs += 1;
        let mon = Mon { reports: !cfg!(miri), ..ALL };
        if let Err(e) = exec(s, tr, &t.p, mon, CoderStateAlloc::new(), None, &mut w, &mut rd, &mut calls) {
            self.bad = Some(e);
        }
    }
}

impl<'x, 'd> Write for Nesting<'x, 'd> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.inner();
        self.w.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl<'x, 'd> Read for Nesting<'x, 'd> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.inner();
        let n = self.rd.read(b)?;
        self.inner();
        Ok(n)
    }
}

fn nested(cx: &mut Cx, small: bool) -> R {
    let n = 3;
    let (schemas, ts) = tasks(&mut cx.rng, n, small);
    let (s, t) = &schemas[ts[0].s];
    let v = gen::value(&mut cx.rng, t, 20);
    let b = enc(t, &v).expect("conforms");
    let mut x = Nesting {
        w: W::chunked(&mut cx.rng),
        rd: Rd::chunked(&b, &mut cx.rng),
        schemas: &schemas,
        tasks: &ts[1..],
        rng: Rng::new(cx.rng.u64()),
        runs: 0,
        bad: None,
        busy: false,
    };
    let e = encode_with(s, &mut x, "encode with a nesting writer", |e| v.encode_to(e))?;
    if let Some(f) = x.bad.take() {
        return Err(f);
    }
    check!(
        e.res.is_ok() && e.finished && x.w.out == b,
        "nested-encode",
        "outer encode with inner coders: {:?}, finished {}, wrote {:02x?}, alone {:02x?}",
        e.res,
        e.finished,
        x.w.out,
        b
    );
    let runs = x.runs;
    x.runs = 0;
    let (got, fin) = decode_with(s, &mut x, "decode with a nesting reader", |d| Value::decode_from(d))?;
    if let Some(f) = x.bad.take() {
        return Err(f);
    }
    check!(
        matches!(&got, Ok(y) if veq(y, &v)) && fin,
        "nested-decode",
        "outer decode with inner coders: {:?}, finished {}",
        got.as_ref().map(vshow),
        fin
    );
    cx.count("coders run inside another coder's I/O", runs + x.runs);
    if runs + x.runs > 1 {
        cx.nontrivial((format!("{:?}", s), b.clone(), "nested"));
    }
    Ok(())
}

fn c24_case(cx: &mut Cx) -> R {
    let small = cfg!(miri);
    if !small && cx.rng.chance(1, 40) {
        return hammer(cx);
    }
    match cx.rng.below(if small { 4 } else { 8 }) {
        0 | 1 => threaded(cx, small),
        2 => nested(cx, small),
        _ => interleaved(cx, small),
    }
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        quick: 40_000,
        thorough: 2_400_000,
        directed: vec![],
        case: c24_case,
        rule: "2..6 coders with seeded sessions over 1..3 shared schemas: interleaved call by call in a seeded order, on \
               threads released together, or run inside the writer/reader of another. Each must do exactly what the model \
               says it does alone. Non-trivial: at least two switches between coders (or threads, or inner coders); \
               distinct by order and data",
    }
}
