//! C18: the debug log. C19: the printed schema.

use crate::{api::*, check, dyns, gen, io::*, model::*, pretty, rng::Rng, run::*, session::*};
use binschema::{
    error::Error, value::Value, CoderState, CoderStateAlloc, Decoder, Encoder, EnumSchemaVariant, ScalarType, Schema,
    SeqSchema, StructSchemaField,
};
use std::{
    cell::RefCell,
    io::{self, Write},
    rc::Rc,
};

// ---------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Whole,
    Dribble,
    FailAfter(usize),
    ZeroAfter(usize),
}

struct Seen {
    mode: Mode,
    out: Vec<u8>,
    calls: u64,
    rng: Rng,
}

/// A log writer which can be looked at while a coder holds it.
struct Log(Rc<RefCell<Seen>>);

impl Write for Log {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let n = match s.mode {
            Mode::Whole => b.len(),
            Mode::Dribble => {
                if s.rng.chance(1, 4) {
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                }
                s.rng.range(1, b.len())
            }
            Mode::FailAfter(n) if s.out.len() >= n => return Err(fault(io::ErrorKind::Other, 18)),
            Mode::ZeroAfter(n) if s.out.len() >= n => return Ok(0),
            Mode::FailAfter(n) | Mode::ZeroAfter(n) => b.len().min(n - s.out.len()),
        };
        s.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().calls += 1;
        Ok(())
    }
}

/// How to make the streams of a session; the same each time.
#[derive(Clone, Copy)]
struct Streams {
    seed: u64,
    fail_at: Option<usize>,
    zero: bool,
}

impl Streams {
    fn w(&self) -> W {
        let mut w = W::chunked(&mut Rng::new(self.seed));
        w.fail_at = self.fail_at;
        w.zero = self.zero;
        w
    }
    fn rd<'d>(&self, b: &'d [u8]) -> Rd<'d> {
        let mut r = Rd::chunked(b, &mut Rng::new(self.seed));
        r.fail_at = self.fail_at;
        r
    }
}

enum Work<'w> {
    Enc(&'w [Op]),
    Dec(&'w [Op], &'w [u8]),
    EncValue(&'w Value),
    DecValue(&'w [u8]),
    Ser(&'w dyns::Ds),
    De(&'w dyns::Sh, &'w [u8]),
    Any(&'w [u8]),
}

#[derive(Debug, PartialEq)]
struct Obs {
    results: Vec<String>,
    out: Vec<u8>,
    pos: usize,
    calls: u64,
    finished: bool,
}

fn text<T: std::fmt::Debug>(r: Result<T, Error>) -> String {
    match r {
        Ok(x) => format!("{:?}", x),
        Err(e) => format!("error {:?}", e.kind()),
    }
}

fn session(s: &Schema, x: &Work, st: Streams, log: Option<(Mode, u64)>) -> R<(Obs, Option<Seen>, Vec<(&'static str, u64)>)> {
    let seen = log.map(|(mode, seed)| Rc::new(RefCell::new(Seen { mode, out: vec![], calls: 0, rng: Rng::new(seed) })));
    let calls_of = || seen.as_ref().map(|s| s.borrow().calls).unwrap_or(0);
    // writes to the log outside of coding calls
    let mut outside: Vec<(&'static str, u64)> = vec![];
    let mut lg = seen.clone().map(Log);
    let mut obs = Obs { results: vec![], out: vec![], pos: 0, calls: 0, finished: false };
    let mut w = st.w();
    let mut rd = match x {
        Work::Dec(_, b) | Work::DecValue(b) | Work::De(_, b) | Work::Any(b) => st.rd(b),
        _ => st.rd(&[]),
    };
    let peek = match st.seed % 3 {
        0 => 1,
        1 => 5,
        _ => usize::MAX,
    };
    {
        let c0 = calls_of();
        let d: Option<&mut dyn Write> = match &mut lg {
            Some(l) => Some(l),
            None => None,
        };
        let mut cs = lib("CoderState::new", || CoderState::new(s, CoderStateAlloc::new(), d))?;
        outside.push(("CoderState::new", calls_of() - c0));
        let mut look = |cs: &mut CoderState, i: usize| -> R {
            if peek == usize::MAX || i % peek != 0 {
                return Ok(());
            }
            let c0 = calls_of();
            lib("reports", || {
                let _ = cs.is_finished();
                let _ = cs.is_finished_or_err().map_err(|e| e.to_string());
                let _ = format!("{:?}", cs);
                let mut sink: Vec<u8> = vec![];
                let _ = Encoder::new(cs, &mut sink).need().map(|_| ()).map_err(|e| e.to_string());
                let _ = Decoder::new(cs, &mut Rd::new(&[])).need().map(|_| ()).map_err(|e| e.to_string());
            })?;
            outside.push(("reports", calls_of() - c0));
            Ok(())
        };
        look(&mut cs, 0)?;
        match x {
            Work::Enc(ops) => {
                for (i, op) in ops.iter().enumerate() {
                    obs.results.push(lib(op.tag(), || text(enc_on(&mut Encoder::new(&mut cs, &mut w), op)))?);
                    look(&mut cs, i + 1)?;
                }
            }
            Work::Dec(ops, _) => {
                for (i, op) in ops.iter().enumerate() {
                    obs.results.push(lib(op.tag(), || text(dec_on(&mut Decoder::new(&mut cs, &mut rd), op)))?);
                    look(&mut cs, i + 1)?;
                }
            }
            Work::EncValue(v) => {
                obs.results.push(lib("encode_to", || text(v.encode_to(&mut Encoder::new(&mut cs, &mut w))))?)
            }
            Work::DecValue(_) => {
                obs.results.push(lib("decode_from", || text(value_from(&mut Decoder::new(&mut cs, &mut rd))))?)
            }
            Work::Ser(d) => obs.results.push(lib("serialize", || {
                text(serde::Serialize::serialize(*d, &mut Encoder::new(&mut cs, &mut w)))
            })?),
            Work::De(sh, _) => obs
                .results
                .push(lib("deserialize", || text(dyns::de_shape(&mut Decoder::new(&mut cs, &mut rd), sh)))?),
            Work::Any(_) => obs
                .results
                .push(lib("deserialize_any", || text(dyns::de_any(&mut Decoder::new(&mut cs, &mut rd))))?),
        }
        look(&mut cs, 0)?;
        obs.finished = cs.is_finished();
        let c0 = calls_of();
        if st.seed % 2 == 0 {
            lib("drop", || drop(cs))?;
        } else {
            lib("into_alloc", || drop(cs.into_alloc()))?;
        }
        outside.push(("retiring the coder", calls_of() - c0));
    }
    obs.pos = rd.pos;
    obs.calls = rd.calls + w.calls;
    obs.out = w.out;
    drop(lg);
    let seen = seen.map(|s| Rc::try_unwrap(s).ok().expect("sole owner").into_inner());
    Ok((obs, seen, outside))
}

/// The library says on stderr that its log failed; that would be much.
fn hush() {
    #[cfg(not(miri))]
    {
        use std::os::fd::IntoRawFd;
        extern "C" {
            fn dup2(a: i32, b: i32) -> i32;
        }
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {
            let f = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
            unsafe { dup2(f.into_raw_fd(), 2) };
        });
    }
}

/// Depth of tags after each line. None where a line is no tag.
fn balance(log: &[u8]) -> Result<(u64, i64, i64), String> {
    let text = std::str::from_utf8(log).map_err(|_| "the log is not UTF-8".to_string())?;
    let (mut d, mut low, mut tags) = (0i64, 0i64, 0u64);
    for l in text.lines() {
        let l = l.trim();
        if !l.starts_with('<') || !l.ends_with('>') {
            continue;
        }
        tags += 1;
        if l.starts_with("</") {
            d -= 1;
        } else if !l.ends_with("/>") {
            d += 1;
        }
        low = low.min(d);
    }
    Ok((tags, low, d))
}

fn twin(cx: &mut Cx, s: &Schema, x: &Work, st: Streams, what: &str) -> R {
    let (plain, _, _) = session(s, x, st, None)?;
    let n = cx.rng.below(120);
    let mode = match cx.rng.below(12) {
        0 => Mode::FailAfter(0),
        1 => Mode::FailAfter(n),
        2 => Mode::ZeroAfter(n),
        3..=5 => Mode::Dribble,
        _ => Mode::Whole,
    };
    if matches!(mode, Mode::FailAfter(_) | Mode::ZeroAfter(_)) {
        hush();
    }
    let (logged, seen, outside) = session(s, x, st, Some((mode, cx.rng.u64())))?;
    let seen = seen.unwrap();
    if plain != logged {
        let i = plain.results.iter().zip(&logged.results).position(|(a, b)| a != b);
        return violation(
            format!("influence:{}", what),
            format!(
                "with a log ({:?}): {} bytes written, {} read, {} stream calls, finished {}; without: {}, {}, {}, {}; first differing result {:?}: {:?} and {:?}; schema {}",
                mode,
                logged.out.len(), logged.pos, logged.calls, logged.finished,
                plain.out.len(), plain.pos, plain.calls, plain.finished,
                i,
                i.map(|i| &logged.results[i]),
                i.map(|i| &plain.results[i]),
                outline(s)
            ),
        );
    }
    cx.count("calls made with and without a log", plain.results.len() as u64);
    for (when, n) in outside {
        check!(n == 0, format!("log-outside:{}", when), "{} writes to the log during {}; schema {}", n, when, outline(s));
        cx.count("log watched outside of coding", 1);
    }
    let failing = matches!(mode, Mode::FailAfter(_) | Mode::ZeroAfter(_));
    cx.count(if failing { "sessions with a failing log" } else { "sessions with a working log" }, 1);
    if !failing && logged.finished {
        let shown = || {
            let t = String::from_utf8_lossy(&seen.out).into_owned();
            t.chars().take(900).collect::<String>()
        };
        let (tags, low, end) = match balance(&seen.out) {
            Ok(x) => x,
            Err(e) => return violation("log-text", format!("{}: {:?}", e, shown())),
        };
        check!(
            low >= 0 && end == 0,
            "unbalanced",
            "the tags of a completed session go down to {} and end at {}:\n{}\nschema {}",
            low,
            end,
            shown(),
            outline(s)
        );
        cx.count("completed sessions whose tags were balanced", 1);
        cx.count("tags balanced", tags);
        if tags > 1 {
            cx.nontrivial((what, &seen.out));
        }
        cx.sample(|| format!("{} under {}: {}", what, outline(s), shown()));
    }
    Ok(())
}

fn c18_case(cx: &mut Cx) -> R {
    let g = cfg(&mut cx.rng);
    let mut st = Streams { seed: cx.rng.u64(), fail_at: None, zero: cx.rng.chance(1, 4) };
    let (s, t, v, b) = gen::case(&mut cx.rng, g);
    if cx.rng.chance(1, 6) {
        st.fail_at = Some(cx.rng.below(b.len() + 2));
    }
    let doubt = *cx.rng.pick(&[0usize, 10, 40]);
    let pc = PlanCfg { doubt, cut: *cx.rng.pick(&[0usize, 0, 50]), ..PlanCfg::default() };
    match cx.rng.below(8) {
        0 | 1 => {
            let ops: Vec<Op> = plan_enc(&mut cx.rng, &t, pc).steps.into_iter().map(|s| s.op).collect();
            twin(cx, &s, &Work::Enc(&ops), st, "encoder calls")
        }
        2 | 3 => {
            let m = if cx.rng.chance(1, 3) { gen::mutate(&mut cx.rng, &b) } else { b.clone() };
            let ops: Vec<Op> = plan_dec(&mut cx.rng, &t, &m, pc).steps.into_iter().map(|s| s.op).collect();
            twin(cx, &s, &Work::Dec(&ops, &m), st, "decoder calls")
        }
        4 => twin(cx, &s, &Work::EncValue(&v), st, "encode_to"),
        5 => {
            let m = if cx.rng.chance(1, 4) { gen::mutate(&mut cx.rng, &b) } else { b.clone() };
            let mut c = Cur::new(&m);
            c.budget = 20_000;
            if c.value(&t, 0) == Err(DErr::Budget) {
                return Err(Fail::Skip("too many values"));
            }
            twin(cx, &s, &Work::DecValue(&m), st, "decode_from")
        }
        6 => {
            let d = dyns::to_ds(&mut cx.rng, &t, 0, &v);
            twin(cx, &s, &Work::Ser(&d), st, "serialize")
        }
        _ => {
            if cx.rng.chance(1, 3) {
                return twin(cx, &s, &Work::Any(&b), st, "deserialize_any");
            }
            let sh = dyns::natural(&mut cx.rng, &t, 0, &v);
            twin(cx, &s, &Work::De(&sh, &b), st, "deserialize")
        }
    }
}

/// Large and deep values with a log, coded in every way.
fn c18_large(cx: &mut Cx) -> R {
    let mut all = super::format::edge_cases(&mut cx.rng, false);
    // lists of a depth beyond 8 bits
    for n in [254usize, 255, 256, 257, 258, 300, 520] {
        let s = Schema::Option(Box::new(Schema::Tuple(vec![Schema::Scalar(ScalarType::U8), Schema::Recurse(2)])));
        let mut v = Value::Option(None);
        for i in 0..n {
            let x = Value::Scalar(binschema::value::ScalarValue::U8(i as u8));
            v = Value::Option(Some(Box::new(Value::Tuple(vec![x, v]))));
        }
        all.push((s, v));
    }
    for (s, v) in all {
        let t = Tree::new(&s);
        let n = vcount(&v);
        if n < 30 || n > 20_000 || t.nodes.len() > 3000 || (t.has_recurse() && n > 2000) {
            continue;
        }
        let b = enc(&t, &v).expect("edge value conforms");
        let mut ops = vec![];
        enc_script(&v, &mut ops);
        let mut dops = vec![];
        dec_script(&v, &mut dops);
        let dops: Vec<Op> = dops.into_iter().map(|x| x.0).collect();
        let ds = dyns::to_ds(&mut cx.rng, &t, 0, &v);
        let sh = dyns::natural(&mut cx.rng, &t, 0, &v);
        let works = [
            (Work::Enc(&ops), "encoder calls"),
            (Work::Dec(&dops, &b), "decoder calls"),
            (Work::EncValue(&v), "encode_to"),
            (Work::DecValue(&b), "decode_from"),
            (Work::Ser(&ds), "serialize"),
            (Work::De(&sh, &b), "deserialize"),
            (Work::Any(&b), "deserialize_any"),
        ];
        for (x, what) in works {
            // (never looking in between: that prints the whole state)
            let st = Streams { seed: cx.rng.u64() / 3 * 3 + 2, fail_at: None, zero: false };
            twin(cx, &s, &x, st, what)?;
            cx.count("large values coded with a log", 1);
        }
    }
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        quick: 600_000,
        thorough: 36_000_000,
        directed: vec![("large values", c18_large)],
        case: c18_case,
        rule: "a case is non-trivial when a completed session logged at least two tags; cases are the same when kind of session and log are",
    }
}

// ---------------------------------------------------------------- C19

fn printed(cx: &mut Cx, s: &Schema) -> R {
    let text = lib("pretty_fmt", || s.pretty_fmt())?;
    let show = || text.chars().take(1500).collect::<String>();
    let p = match pretty::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            return violation("unreadable", format!("{}; printed:\n{}\nschema {}", e, show(), outline(s)));
        }
    };
    check!(p.schema == *s, "unfaithful", "read back as {}; printed:\n{}\nschema {}", outline(&p.schema), show(), outline(s));
    cx.count("schemas printed and read back", 1);
    cx.count("max:lines of a printed schema", text.lines().count() as u64);
    if text.is_ascii() {
        match pretty::arrows(&text, &p) {
            Ok((drawn, none)) => {
                cx.count("arrows followed", drawn);
                cx.count("references seen to have no arrow", none);
            }
            Err(e) => return violation("arrow", format!("{}; printed:\n{}\nschema {}", e, show(), outline(s))),
        }
    }
    if p.nodes.len() > 1 {
        cx.nontrivial(&text);
    }
    cx.sample(|| show());
    Ok(())
}

fn c19_case(cx: &mut Cx) -> R {
    let mut g = cfg(&mut cx.rng);
    g.illegal = cx.rng.chance(1, 2);
    g.plain_names = cx.rng.chance(3, 4);
    if cx.rng.chance(1, 3) {
        g.recurse = 12;
        g.max_nodes = 60;
        g.max_depth = 8;
    }
    let s = gen::any_schema(&mut cx.rng, g);
    printed(cx, &s)
}

fn st(n: &str, s: Schema) -> Schema {
    Schema::Struct(vec![StructSchemaField { name: n.into(), inner: s }])
}

/// Deep, wide and hostile schemas.
fn c19_directed(cx: &mut Cx) -> R {
    // every kind alone
    for t in SCALARS {
        printed(cx, &Schema::Scalar(t))?;
    }
    for s in [Schema::Str, Schema::Bytes, Schema::Unit, Schema::Tuple(vec![]), Schema::Struct(vec![]), Schema::Enum(vec![])] {
        printed(cx, &s)?;
    }
    for n in [0usize, 1, 2, 3, 17, 1 << 40, usize::MAX - 1, usize::MAX] {
        printed(cx, &Schema::Recurse(n))?;
        printed(cx, &Schema::Option(Box::new(Schema::Recurse(n))))?;
        printed(cx, &Schema::Tuple(vec![Schema::Recurse(n), Schema::Unit, Schema::Recurse(n)]))?;
        printed(cx, &Schema::Seq(SeqSchema { len: Some(n), inner: Box::new(Schema::Recurse(1)) }))?;
    }
    // names
    let long = "n".repeat(3000);
    for n in [
        "", " ", "\"", "\\", "\\\"", "):", "\n", "a\nb", "- u8", "\t", "\u{0}", "\u{7f}", "\u{301}", "é", "日本", "\u{1f600}", "\u{200b}",
        "a --> [beyond root]", "<---\\", "'", "\\u{41}", "{}", "{0}", "r#type", "\u{feff}", "\r\n", &long,
    ] {
        printed(cx, &st(n, Schema::Recurse(1)))?;
        printed(cx, &Schema::Enum(vec![EnumSchemaVariant { name: n.into(), inner: st(n, Schema::Recurse(2)) }]))?;
    }
    // deep
    let depth = if cfg!(miri) { 20 } else { 400 };
    for pick in 0..4 {
        let mut s = Schema::Recurse(if pick == 0 { 1 } else { depth });
        for i in 0..depth {
            s = match (pick + i) % 4 {
                0 => Schema::Option(Box::new(s)),
                1 => Schema::Tuple(vec![Schema::Scalar(ScalarType::U8), s, Schema::Recurse(1)]),
                2 => st("f", s),
                _ => Schema::Seq(SeqSchema { len: Some(i), inner: Box::new(s) }),
            };
        }
        printed(cx, &s)?;
    }
    // wide
    let n = if cfg!(miri) { 12 } else { 300 };
    printed(cx, &Schema::Tuple((0..n).map(|i| if i % 3 == 0 { Schema::Recurse(1) } else { Schema::Str }).collect()))?;
    printed(
        cx,
        &Schema::Enum(
            (0..n)
                .map(|i| EnumSchemaVariant { name: format!("v{}", i), inner: st("x", Schema::Recurse(1 + i % 4)) })
                .collect(),
        ),
    )?;
    // wider than counters of a few bits
    let widths: &[usize] = if cfg!(miri) { &[11] } else { &[9, 10, 11, 99, 101, 127, 129, 255, 256, 257, 1023, 1025, 9999, 10_001, 65535, 65536, 65537] };
    for &n in widths {
        let inner = |i: usize| match i % 7 {
            0 => Schema::Recurse(2),
            3 => Schema::Option(Box::new(Schema::Unit)),
            _ => Schema::Unit,
        };
        // the text of each line is padded up to the arrow's column
        let inner = |i: usize| if n > 2000 { Schema::Unit } else { inner(i) };
        let name = |i: usize| format!("f{}", i);
        for w in [
            Schema::Tuple((0..n).map(inner).collect()),
            Schema::Struct((0..n).map(|i| StructSchemaField { name: name(i), inner: inner(i) }).collect()),
            Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: name(i), inner: inner(i) }).collect()),
        ] {
            printed(cx, &Schema::Option(Box::new(w)))?;
            cx.count("wide schemas", 1);
        }
    }
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        quick: 600_000,
        thorough: 36_000_000,
        directed: vec![("kinds, names, depth", c19_directed)],
        case: c19_case,
        rule: "a case is non-trivial when the schema has more than one node; cases are the same when the printed texts are",
    }
}
