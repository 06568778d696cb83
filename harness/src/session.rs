//! Coding sessions: a plan of calls with the model's verdicts, and the
//! monitor which executes it against the library and compares.

use crate::{
    api::*,
    check,
    gen,
    io::{Rd, W},
    model::*,
    rng::Rng,
    run::*,
};
use binschema::{
    error::{Error, ErrorKind},
    value::Value,
    CoderState, CoderStateAlloc, Decoder, Encoder, Schema,
};
use std::io::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    Enc,
    Dec,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Ok(Got),
    Rej(Rej),
    /// fatal, with this reason
    Fatal(DErr),
}

#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub exp: Exp,
    /// bytes written or read after the step (None: not determined)
    pub at: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub dir: Dir,
    pub steps: Vec<Step>,
    /// decoder: what is read. encoder: what must have been written
    pub bytes: Vec<u8>,
    pub finishes: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct PlanCfg {
    /// chance (percent) of a doubtful call at each step
    pub doubt: usize,
    /// stop early with this chance (percent)
    pub cut: usize,
    /// calls made after the session is over or broken
    pub after: usize,
    pub max_steps: usize,
    /// walk into parts that need illegal references too
    pub bold: bool,
}

impl Default for PlanCfg {
    fn default() -> Self {
        PlanCfg { doubt: 30, cut: 0, after: 3, max_steps: 160, bold: false }
    }
}

fn doubtful(r: &mut Rng, m: &Model, dec: bool) -> Op {
    // some calls may turn out right
    let op = near_op(r, m, dec);
    if m.verdict(&op) == Verdict::Ok && r.chance(1, 2) {
        return wild_op(r, dec);
    }
    op
}

/// A random encoder session.
pub fn plan_enc(r: &mut Rng, t: &Tree, cfg: PlanCfg) -> Plan {
    let cost = if cfg.bold { vec![1; t.nodes.len()] } else { t.min_cost() };
    let mut m = Model::new(t);
    let mut p = Plan { dir: Dir::Enc, steps: vec![], bytes: vec![], finishes: false };
    let soft = r.range(1, cfg.max_steps);
    let mut extra = cfg.after;
    let cut = if r.chance(cfg.cut, 100) { r.below(soft) } else { usize::MAX };
    while p.steps.len() < cfg.max_steps * 4 && p.steps.len() < cut {
        let over = m.broken || m.stack.is_empty();
        if over {
            if extra == 0 {
                break;
            }
            extra -= 1;
        }
        let op = if over || r.chance(cfg.doubt, 100) {
            doubtful(r, &m, false)
        } else {
            match right_op(r, &m, &cost, p.steps.len() > soft, false) {
                Some(op) => op,
                None => wild_op(r, false),
            }
        };
        let exp = match m.verdict(&op) {
            Verdict::Ok => {
                m.bytes(&op, &mut p.bytes);
                m.apply(&op, &Got::Nothing);
                Exp::Ok(Got::Nothing)
            }
            Verdict::Reject(j) => Exp::Rej(j),
            Verdict::Illegal => {
                m.broken = true;
                Exp::Fatal(DErr::Illegal)
            }
        };
        let at = if m.broken { None } else { Some(p.bytes.len()) };
        p.steps.push(Step { op, exp, at });
    }
    p.finishes = m.finished();
    p
}

/// A random decoder session over the given bytes.
pub fn plan_dec(r: &mut Rng, t: &Tree, input: &[u8], cfg: PlanCfg) -> Plan {
    let cost = t.min_cost();
    let mut m = Model::new(t);
    let mut c = Cur::new(input);
    let mut p = Plan { dir: Dir::Dec, steps: vec![], bytes: input.to_vec(), finishes: false };
    let mut extra = cfg.after;
    let cut = if r.chance(cfg.cut, 100) { r.below(60) } else { usize::MAX };
    while p.steps.len() < cfg.max_steps * 8 && p.steps.len() < cut {
        let over = m.broken || m.stack.is_empty();
        if over {
            if extra == 0 {
                break;
            }
            extra -= 1;
        }
        let op = if over || r.chance(cfg.doubt, 100) {
            doubtful(r, &m, true)
        } else {
            match right_op(r, &m, &cost, false, true) {
                Some(op) => op,
                None => wild_op(r, true),
            }
        };
        let exp = match m.verdict(&op) {
            Verdict::Ok => match m.read(&op, &mut c) {
                Ok(got) => {
                    if m.apply(&op, &got) {
                        Exp::Ok(got)
                    } else {
                        Exp::Fatal(DErr::Illegal)
                    }
                }
                Err(e) => {
                    m.broken = true;
                    Exp::Fatal(e)
                }
            },
            Verdict::Reject(j) => Exp::Rej(j),
            Verdict::Illegal => {
                m.broken = true;
                Exp::Fatal(DErr::Illegal)
            }
        };
        let at = if m.broken { None } else { Some(c.pos) };
        let unspecified = exp == Exp::Fatal(DErr::Unspecified);
        p.steps.push(Step { op, exp, at });
        if unspecified {
            break;
        }
    }
    p.finishes = m.finished();
    p
}

/// The plain legal session for a value.
pub fn plan_value(dir: Dir, t: &Tree, v: &Value, bytes: &[u8]) -> Plan {
    let mut m = Model::new(t);
    let mut steps = vec![];
    let mut pos = 0;
    match dir {
        Dir::Enc => {
            let mut s = vec![];
            enc_script(v, &mut s);
            let mut out = vec![];
            for op in s {
                m.bytes(&op, &mut out);
                m.apply(&op, &Got::Nothing);
                steps.push(Step { op, exp: Exp::Ok(Got::Nothing), at: Some(out.len()) });
            }
        }
        Dir::Dec => {
            let mut s = vec![];
            dec_script(v, &mut s);
            let mut c = Cur::new(bytes);
            for (op, got) in s {
                let _ = m.read(&op, &mut c);
                pos = c.pos;
                m.apply(&op, &got);
                steps.push(Step { op, exp: Exp::Ok(got), at: Some(pos) });
            }
        }
    }
    let _ = pos;
    Plan { dir, steps, bytes: bytes.to_vec(), finishes: true }
}

/// What the library did at one step.
#[derive(Debug, Clone, PartialEq)]
pub enum Did {
    Ok(Got),
    Err(ErrorKind),
}

/// Which monitors are on.
#[derive(Clone, Copy, Debug)]
pub struct Mon {
    /// finished reports and need() after every step
    pub reports: bool,
    /// stream position after every step
    pub stream: bool,
    /// error kinds
    pub kinds: bool,
    /// one coder object for the whole session, or one per call
    pub fresh: bool,
}

pub const ALL: Mon = Mon { reports: true, stream: true, kinds: true, fresh: true };

pub fn did(r: Result<Got, Error>) -> Did {
    match r {
        Ok(g) => Did::Ok(g),
        Err(e) => {
            // must be displayable
            let _ = e.to_string();
            Did::Err(e.kind())
        }
    }
}

pub fn judge(p: &Plan, i: usize, d: &Did, mon: Mon, schema: &Schema) -> R {
    let s = &p.steps[i];
    let ctx = || {
        let lo = i.saturating_sub(8);
        format!(
            "step {} {:?} of {:?} session; expected {:?}, got {:?}; before it: {:?}; schema {}",
            i,
            s.op,
            p.dir,
            s.exp,
            d,
            p.steps[lo..i].iter().map(|x| &x.op).collect::<Vec<_>>(),
            outline(schema),
        )
    };
    let tag = s.op.tag();
    match (&s.exp, d) {
        (Exp::Fatal(DErr::Unspecified), _) | (Exp::Fatal(DErr::Budget), _) => {}
        (Exp::Ok(g), Did::Ok(h)) => check!(g == h, format!("value:{}", tag), "{}", ctx()),
        (Exp::Ok(_), Did::Err(k)) => {
            return violation(format!("refused:{}:{:?}", tag, k), ctx());
        }
        (Exp::Rej(_), Did::Ok(_)) => return violation(format!("accepted:{}", tag), ctx()),
        (Exp::Fatal(e), Did::Ok(_)) => return violation(format!("accepted-bad:{}:{:?}", tag, e), ctx()),
        (Exp::Rej(j), Did::Err(k)) => {
            check!(!mon.kinds || rej_matches(*j, *k), format!("kind:{}:{:?}", tag, k), "{}", ctx());
            check!(!is_fatal(*k), format!("kind-fatal:{}:{:?}", tag, k), "{}", ctx());
        }
        (Exp::Fatal(e), Did::Err(k)) => {
            check!(!mon.kinds || derr_matches(*e, *k), format!("kind-fatal:{}:{:?}", tag, k), "{}", ctx());
            check!(is_fatal(*k), format!("kind-nonfatal:{}:{:?}", tag, k), "{}", ctx());
        }
    }
    Ok(())
}

/// Model state replayed beside the session.
pub struct Shadow<'t> {
    pub m: Model<'t>,
}

impl<'t> Shadow<'t> {
    pub fn new(t: &'t Tree) -> Self {
        Shadow { m: Model::new(t) }
    }
    pub fn step(&mut self, s: &Step) {
        match &s.exp {
            Exp::Ok(g) => {
                self.m.apply(&s.op, g);
            }
            Exp::Rej(_) => {}
            Exp::Fatal(_) => self.m.broken = true,
        }
    }
}

/// Execute a plan against the library, with the monitors given, on the
/// streams given. Returns what happened and the allocation for reuse.
pub fn exec<'l>(
    schema: &'l Schema,
    t: &Tree,
    p: &Plan,
    mon: Mon,
    alloc: CoderStateAlloc,
    log: Option<&'l mut (dyn Write + 'l)>,
    w: &mut W,
    rd: &mut Rd,
    cx_calls: &mut u64,
) -> R<(Vec<Did>, CoderStateAlloc)> {
    let mut out = Vec::with_capacity(p.steps.len());
    let mut st = lib("CoderState::new", || CoderState::new(schema, alloc, log))?;
    let mut sh = Shadow::new(t);
    if mon.reports {
        rep(&mut st, &sh.m, schema, "before the first call")?;
    }
    let (w0, r0) = (w.out.len(), rd.pos);
    let mut i = 0;
    while i < p.steps.len() {
        // calls on one coder object
        let group = if mon.fresh { 1 } else { (i * 7 + p.steps.len()) % 9 + 1 };
        let end = (i + group).min(p.steps.len());
        let ops: Vec<&Op> = p.steps[i..end].iter().map(|s| &s.op).collect();
        let mut dids: Vec<(Did, usize, u64)> = vec![];
        let what = p.steps[i].op.tag();
        match p.dir {
            Dir::Enc => lib(what, || {
                for op in &ops {
                    let c0 = w.calls;
                    let d = did(enc_on(&mut Encoder::new(&mut st, w), op).map(|_| Got::Nothing));
                    dids.push((d, w.out.len() - w0, w.calls - c0));
                }
            })?,
            Dir::Dec => lib(what, || {
                for op in &ops {
                    let c0 = rd.calls;
                    let d = did(dec_on(&mut Decoder::new(&mut st, rd), op));
                    dids.push((d, rd.pos - r0, rd.calls - c0));
                }
            })?,
        }
        for (k, (d, pos, calls)) in dids.into_iter().enumerate() {
            let s = &p.steps[i + k];
            *cx_calls += 1;
            judge(p, i + k, &d, mon, schema)?;
            if mon.stream {
                if matches!(s.exp, Exp::Rej(_)) {
                    check!(
                        calls == 0,
                        format!("stream-touched:{}", s.op.tag()),
                        "refused call {:?} at step {} made {} stream calls; schema {}",
                        s.op,
                        i + k,
                        calls,
                        outline(schema)
                    );
                }
                if let Some(at) = s.at {
                    check!(
                        pos == at,
                        format!("stream-pos:{}", s.op.tag()),
                        "after step {} {:?}: {} bytes, model says {}; schema {}",
                        i + k,
                        s.op,
                        pos,
                        at,
                        outline(schema)
                    );
                }
            }
            sh.step(s);
            out.push(d);
        }
        let from = i;
        i = end;
        if p.steps[from..i].iter().any(|s| matches!(s.exp, Exp::Fatal(DErr::Unspecified) | Exp::Fatal(DErr::Budget))) {
            // nothing more can be said
            return Ok((out, lib("into_alloc", || st.into_alloc())?));
        }
        if mon.reports {
            rep(&mut st, &sh.m, schema, "after a call")?;
        }
    }
    check!(
        st.is_finished() == p.finishes,
        "finished",
        "is_finished() = {} at the end of the session, model says {}; last ops {:?}; schema {}",
        st.is_finished(),
        p.finishes,
        p.steps.iter().rev().take(6).map(|s| &s.op).collect::<Vec<_>>(),
        outline(schema)
    );
    if p.dir == Dir::Enc && mon.stream && !sh.m.broken {
        check!(
            w.out[w0..] == p.bytes[..],
            "bytes",
            "written {:02x?}, model {:02x?}; schema {}",
            &w.out[w0..],
            p.bytes,
            outline(schema)
        );
    }
    let a = lib("into_alloc", || st.into_alloc())?;
    Ok((out, a))
}

fn rep(st: &mut CoderState, m: &Model, schema: &Schema, when: &str) -> R {
    let r = lib("reports", || reports(st, m))?;
    if let Some((sig, d)) = r {
        return violation(format!("report:{}", sig), format!("{}: {}; model stack {:?}; schema {}", when, d, m.stack, outline(schema)));
    }
    Ok(())
}

// ---- plain helpers ----

pub struct Coded {
    pub res: Result<(), Error>,
    pub finished: bool,
}

/// Encode with a closure and see whether the coder finished.
pub fn encode_with<W: Write>(
    schema: &Schema,
    w: &mut W,
    what: &str,
    f: impl FnOnce(&mut Encoder<W>) -> Result<(), Error>,
) -> R<Coded> {
    lib(what, || {
        let mut st = CoderState::new(schema, CoderStateAlloc::new(), None);
        let res = f(&mut Encoder::new(&mut st, w));
        if let Err(e) = &res {
            let _ = e.to_string();
        }
        let finished = st.is_finished();
        Coded { res, finished }
    })
}

/// Decode with a closure and see whether the coder finished.
pub fn decode_with<Rr: std::io::Read, T>(
    schema: &Schema,
    rd: &mut Rr,
    what: &str,
    f: impl FnOnce(&mut Decoder<Rr>) -> Result<T, Error>,
) -> R<(Result<T, Error>, bool)> {
    lib(what, || {
        let mut st = CoderState::new(schema, CoderStateAlloc::new(), None);
        let res = f(&mut Decoder::new(&mut st, rd));
        if let Err(e) = &res {
            let _ = e.to_string();
        }
        let finished = st.is_finished();
        (res, finished)
    })
}

pub fn vshow(v: &Value) -> String {
    let x = format!("{:?}", v);
    if x.len() > 400 {
        let mut i = 400;
        while !x.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}...", &x[..i])
    } else {
        x
    }
}

pub fn bshow(b: &[u8]) -> String {
    if b.len() > 80 {
        format!("{:02x?}... ({} bytes)", &b[..80], b.len())
    } else {
        format!("{:02x?}", b)
    }
}

/// Substitute recurse references by the schemas they mean, a few times.
pub fn unfold(r: &mut Rng, s: &Schema, times: usize) -> Schema {
    let mut s = s.clone();
    for _ in 0..times {
        let t = Tree::new(&s);
        let recs: Vec<usize> = (0..t.nodes.len()).filter(|&i| matches!(t.kind(i), Kind::Recurse(_))).collect();
        if recs.is_empty() || t.nodes.len() > 150 {
            break;
        }
        let x = *r.pick(&recs);
        let n = match t.kind(x) {
            Kind::Recurse(n) => *n,
            _ => unreachable!(),
        };
        let target = match t.resolve(x) {
            Some(y) => y,
            None => continue,
        };
        let copy = shift(&t.schema(target), 0, n);
        s = replace(&t, 0, x, &copy);
    }
    s
}

fn shift(s: &Schema, depth: usize, by: usize) -> Schema {
    match s {
        Schema::Recurse(l) => Schema::Recurse(if *l > depth { l + by } else { *l }),
        s => map_children(s, |c| shift(c, depth + 1, by)),
    }
}

pub fn map_children(s: &Schema, mut f: impl FnMut(&Schema) -> Schema) -> Schema {
    use binschema::{EnumSchemaVariant, SeqSchema, StructSchemaField};
    match s {
        Schema::Option(i) => Schema::Option(Box::new(f(i))),
        Schema::Seq(q) => Schema::Seq(SeqSchema { len: q.len, inner: Box::new(f(&q.inner)) }),
        Schema::Tuple(v) => Schema::Tuple(v.iter().map(f).collect()),
        Schema::Struct(v) => Schema::Struct(
            v.iter().map(|x| StructSchemaField { name: x.name.clone(), inner: f(&x.inner) }).collect(),
        ),
        Schema::Enum(v) => {
            Schema::Enum(v.iter().map(|x| EnumSchemaVariant { name: x.name.clone(), inner: f(&x.inner) }).collect())
        }
        s => s.clone(),
    }
}

fn replace(t: &Tree, id: usize, x: usize, by: &Schema) -> Schema {
    use binschema::{EnumSchemaVariant, SeqSchema, StructSchemaField};
    if id == x {
        return by.clone();
    }
    match t.kind(id) {
        Kind::Option(i) => Schema::Option(Box::new(replace(t, *i, x, by))),
        Kind::Seq(len, i) => Schema::Seq(SeqSchema { len: *len, inner: Box::new(replace(t, *i, x, by)) }),
        Kind::Tuple(v) => Schema::Tuple(v.iter().map(|&i| replace(t, i, x, by)).collect()),
        Kind::Struct(v) => Schema::Struct(
            v.iter().map(|(n, i)| StructSchemaField { name: n.clone(), inner: replace(t, *i, x, by) }).collect(),
        ),
        Kind::Enum(v) => Schema::Enum(
            v.iter().map(|(n, i)| EnumSchemaVariant { name: n.clone(), inner: replace(t, *i, x, by) }).collect(),
        ),
        _ => t.schema(id),
    }
}

/// Random schema configuration.
pub fn cfg(r: &mut Rng) -> gen::SGen {
    let mut c = gen::SGen::default();
    match r.below(4) {
        0 => {
            c.max_depth = 3;
            c.max_nodes = 8;
        }
        1 => c.recurse = 10,
        2 => {
            c.max_depth = 9;
            c.max_nodes = 40;
        }
        _ => {}
    }
    c
}

/// The schema with node `x` replaced.
pub fn put(t: &Tree, x: usize, by: &Schema) -> Schema {
    replace(t, 0, x, by)
}
