//! C26: what the schema macro builds. The uses of the macro are in programs
//! written by py/macros.py; this is what runs them.

use crate::{check, gen, io::*, model::*, run::*, session::*};
use binschema::{EnumSchemaVariant, Schema, StructSchemaField};
use std::cell::RefCell;

/// Order in which expressions inside a macro were evaluated.
pub type Ticks = RefCell<Vec<usize>>;

pub fn tick(t: &Ticks, n: usize) -> usize {
    t.borrow_mut().push(n);
    n
}

pub fn number(n: usize) -> usize {
    n
}

pub fn id(s: Schema) -> Schema {
    s
}

pub const NUMBERS: [usize; 301] = {
    let mut a = [0; 301];
    let mut i = 0;
    while i < 301 {
        a[i] = i;
        i += 1;
    }
    a
};

pub fn field(name: &str, inner: Schema) -> StructSchemaField {
    StructSchemaField { name: name.to_string(), inner }
}

pub fn variant(name: &str, inner: Schema) -> EnumSchemaVariant {
    EnumSchemaVariant { name: name.to_string(), inner }
}

/// A schema by the macro and by hand.
pub struct Entry {
    pub made: fn(&Ticks) -> Schema,
    pub hand: fn() -> Schema,
    pub order: &'static [usize],
}

fn show(s: &Schema) -> String {
    let x = format!("{:?}", s);
    if x.len() > 1500 {
        let mut i = 1500;
        while !x.is_char_boundary(i) {
            i -= 1;
        }
        return format!("{}...", &x[..i]);
    }
    x
}

fn compare(cx: &mut Cx, i: usize, e: &Entry) -> R<Schema> {
    let ticks = Ticks::default();
    let made = lib("schema!", || (e.made)(&ticks))?;
    let hand = (e.hand)();
    check!(made == hand, "macro-schema", "use {} of the macro built {} instead of {}", i, show(&made), show(&hand));
    check!(
        *ticks.borrow() == e.order,
        "macro-order",
        "use {} of the macro evaluated its expressions in the order {:?} instead of {:?}; schema {}",
        i,
        ticks.borrow(),
        e.order,
        show(&hand)
    );
    cx.count("uses of the macro compared", 1);
    cx.count("expressions evaluated", e.order.len() as u64);
    Ok(made)
}

pub fn each(cx: &mut Cx, entries: &[Entry]) -> R {
    for (i, e) in entries.iter().enumerate() {
        let s = compare(cx, i, e)?;
        let t = Tree::new(&s);
        cx.count("nodes built by macros", t.nodes.len() as u64);
        cx.nontrivial(format!("{:?}", s));
    }
    Ok(())
}

/// Code a value under what the macro built.
pub fn case(cx: &mut Cx, entries: &[Entry]) -> R {
    let i = cx.rng.below(entries.len());
    let s = compare(cx, i, &entries[i])?;
    let t = Tree::new(&s);
    if !t.is_legal() || t.has_zero_byte_cycle() {
        return Err(Fail::Skip("not a schema to code under"));
    }
    let cost = t.min_cost();
    if cost[0] > 2000 || (0..t.nodes.len()).any(|i| matches!(t.kind(i), Kind::Seq(Some(n), _) if *n > 1000)) {
        return Err(Fail::Skip("not a schema to code under"));
    }
    let v = gen::value(&mut cx.rng, &t, 20);
    let b = enc(&Tree::new(&(entries[i].hand)()), &v).expect("conforms");
    let mut w = W::new();
    let c = encode_with(&s, &mut w, "encode_to", |e| v.encode_to(e))?;
    check!(
        c.res.is_ok() && c.finished && w.out == b,
        "macro-value",
        "{} under use {} of the macro: {:?}, finished {}, written {}, documented {}",
        vshow(&v),
        i,
        c.res,
        c.finished,
        bshow(&w.out),
        bshow(&b)
    );
    cx.count("values coded under a macro's schema", 1);
    cx.sample(|| format!("{}: {}", show(&s), bshow(&b)));
    Ok(())
}

pub fn c26_of(entries: &&'static [Entry], case: CaseFn, each: CaseFn) -> Prop {
    let _ = entries;
    Prop {
        id: "C26",
        quick: 20_000,
        thorough: 40_000,
        directed: vec![("every use of the macro", each)],
        case,
        rule: "programs of random uses of the schema macro (every form, layouts, names, lengths and levels by expression, \
               schemas spliced in, inside the user's macros, beside shadowed names), compiled and run; the schema built is \
               compared to one built by hand, with the order in which expressions were evaluated, and values are coded under \
               it. Distinct by schema",
    }
}
