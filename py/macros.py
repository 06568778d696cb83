"""Writes a Rust program of random uses of the schema! macro (for C26), each
beside the same schema built by hand from the public types.

The program links the harness as a library, which evaluates both, compares
them, and codes a value under what the macro built.
"""
import os, random

SCALARS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "char", "bool"]
NAMES = ["a", "b", "left", "right", "value", "next", "x1", "Upper", "camelCase", "größe", "_under", "__two", "x_", "T", "Vec",
         "String", "Some", "None", "Option", "Box", "vec", "Schema", "schema", "u8", "str", "bytes", "unit", "option", "seq",
         "tuple", "recurse", "varlen", "len", "inner", "name", "crate_", "std", "core", "r", "r1", "i128", "char", "bool",
         # words of the language
         "type", "fn", "match", "struct", "enum", "impl", "let", "mod", "move", "pub", "ref", "self", "Self", "super", "crate",
         "static", "trait", "use", "where", "while", "async", "await", "dyn", "abstract", "yield", "try", "union", "true", "false",
         "in", "as", "if", "loop"]
RAW = ["type", "fn", "match", "struct", "in", "async", "x", "r", "value", "Leaf", "loop"]


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.left = 0

    def name(self):
        """As written, and as meant."""
        if self.r.random() < 0.15:
            n = self.r.choice(RAW)
            return "r#" + n, n
        n = self.r.choice(NAMES)
        return n, n

    def number(self, order):
        """Expression of a length or level, and its value."""
        r = self.r
        v = r.choice([0, 0, 1, 1, 2, 3, 4, 7, 16, 255, 300, 65536, (1 << 63), (1 << 64) - 1])
        k = r.randrange(13)
        if k == 10:
            # leaves the function around it, if it ever came to that
            return "if false { return S::Unit } else { %d }" % v, v
        if k == 11:
            # its type is that of its place
            return '"%d".parse().unwrap()' % v, v
        if k == 12 and v < 1 << 16:
            return "%du16.into()" % v, v
        if k == 0 and v < 1 << 32:
            return "%d + %d" % (v - v // 2, v // 2), v
        if k == 1:
            return "{ let a: usize = %d; a }" % v, v
        if k == 2:
            return "number(%d)" % v, v
        if k == 3:
            order.append(v)
            return "tick(&ticks, %d)" % v, v
        if k == 4 and v < 300:
            return "0x%x" % v, v
        if k == 5:
            return "%dusize" % v, v
        if k == 6 and v < 300:
            return "NUMBERS[%d]" % v, v
        if k == 7:
            return "if true { %d } else { 99 }" % v, v
        if k == 8 and v < 300:
            return "<[u8]>::len(&[0; %d])" % v, v
        if k == 9 and v < 300:
            return "max(%d, 0)" % v, v
        return str(v), v

    def comma(self, n):
        return "," if n and self.r.random() < 0.4 else ""

    def splice(self, hand, order):
        """Expression yielding a schema made elsewhere."""
        r = self.r
        k = r.randrange(10)
        if k == 7:
            return "%%if false { return S::Unit } else { %s }" % hand
        if k == 8:
            return "%%{ let s: S = %s; s }.into()" % hand
        if k == 0:
            return "%%{ let s: S = %s; s }" % hand
        if k == 1:
            return "%%(%s)" % hand
        if k == 2:
            return "%%id(%s)" % hand
        if k == 3:
            return "%%if false { S::Unit } else { %s }" % hand
        if k == 4:
            return "%%(%s).clone()" % hand
        if k == 5:
            order.append(7777)
            return "%%{ tick(&ticks, 7777); %s }" % hand
        return "%%%s" % hand

    def go(self, depth, order):
        """The text in the macro, and the expression by hand."""
        r = self.r
        self.left -= 1
        if depth > 7 or self.left <= 0 or r.random() < 0.12 * depth:
            k = r.randrange(10)
            if k < 5:
                s = r.choice(SCALARS)
                return s, "S::Scalar(ScalarType::%s)" % s.capitalize()
            if k < 8:
                s = r.choice(["str", "bytes", "unit"])
                return s, "S::" + s.capitalize()
            m, v = self.number(order)
            return "recurse(%s)" % m, "S::Recurse(%d)" % v
        k = r.randrange(11)
        if k == 0:
            m, h = self.go(depth + 1, order)
            return "option(%s)" % m, "S::Option(Box::new(%s))" % h
        if k == 1:
            m, h = self.go(depth + 1, order)
            return "seq(varlen)(%s)" % m, "S::Seq(SeqSchema { len: None, inner: Box::new(%s) })" % h
        if k == 2:
            n, v = self.number(order)
            m, h = self.go(depth + 1, order)
            return "seq(%s)(%s)" % (n, m), "S::Seq(SeqSchema { len: Some(%d), inner: Box::new(%s) })" % (v, h)
        if k in (3, 4):
            p = [self.go(depth + 1, order) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
            return ("tuple { %s%s }" % (", ".join("(%s)" % m for m, _ in p), self.comma(len(p))),
                    "S::Tuple(vec![%s])" % ", ".join(h for _, h in p))
        if k in (5, 6):
            p = [(self.name(), self.go(depth + 1, order)) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            return ("struct { %s%s }" % (", ".join("(%s: %s)" % (n[0], m) for n, (m, _) in p), self.comma(len(p))),
                    "S::Struct(vec![%s])" % ", ".join('field("%s", %s)' % (n[1], h) for n, (_, h) in p))
        if k in (7, 8):
            p = [(self.name(), self.go(depth + 1, order)) for _ in range(r.choice([0, 1, 2, 3, 5]))]
            return ("enum { %s%s }" % (", ".join("%s(%s)" % (n[0], m) for n, (m, _) in p), self.comma(len(p))),
                    "S::Enum(vec![%s])" % ", ".join('variant("%s", %s)' % (n[1], h) for n, (_, h) in p))
        if k == 9:
            n, v = self.number(order)
            return "recurse(%s)" % n, "S::Recurse(%d)" % v
        # a schema made elsewhere, by hand or by the macro
        sub = []
        m, h = self.go(depth + 2, sub)
        if r.random() < 0.4:
            order.extend(sub)
            return "%%schema!(%s)" % m, h
        if r.random() < 0.2:
            order.extend(sub)
            return "%%binschema::schema! { %s }" % m, h
        return self.splice(h, order), h

    def one(self, size):
        self.left = size
        order = []
        m, h = self.go(0, order)
        return m, h, order


def spaced(r, m):
    """The same tokens, laid out otherwise."""
    k = r.randrange(4)
    if k == 0:
        return m.replace(" { ", " {\n        ").replace(", ", ",\n        ")
    if k == 1:
        return m.replace(", ", ",").replace(": ", ":").replace("{ }", "{}")
    if k == 2:
        return m.replace(", ", " , /* a comment */ ").replace(": ", " : ")
    return m


HEAD = """// written by py/macros.py, seed %d
#![allow(warnings)]
use binschema::{schema, EnumSchemaVariant, ScalarType, Schema as S, Schema, SeqSchema, StructSchemaField};
use mon::{props::macros::{Entry, field, variant, id, number, tick, Ticks, NUMBERS, c26_of}, rng::Rng, run::*};
use std::{cell::RefCell, cmp::max, sync::OnceLock};

"""

# names of the prelude that mean something else here
SHADOW = """
mod shadowed {
    use binschema::{ScalarType, Schema as S, SeqSchema};
    use mon::props::macros::{field, variant, id, number, tick, Ticks, NUMBERS};
    use std::{cell::RefCell, cmp::max, vec as list, vec::Vec as List, boxed::Box as Own, option::Option as Opt, string::String as Text};
    pub struct Vec;
    pub struct Box;
    pub struct String;
    pub struct Option;
    pub struct Schema;
    pub struct ScalarU8;
    pub struct StructSchemaField;
    pub struct EnumSchemaVariant;
    pub fn Some() {}
    pub fn None() {}
    pub fn stringify() {}
    pub mod alloc {}
    pub mod binschema_ {}
    macro_rules! vec { ($($t:tt)*) => { compile_error!("the user's own vec!") } }
    macro_rules! stringify { ($($t:tt)*) => { compile_error!("the user's own stringify!") } }
    macro_rules! format { ($($t:tt)*) => { compile_error!("the user's own format!") } }
    macro_rules! concat { ($($t:tt)*) => { compile_error!("the user's own concat!") } }
%s
}
"""

USER = """
// the user's own macros, which pass names, lengths and schemas on
macro_rules! pass { ($($t:tt)*) => { schema!($($t)*) } }
macro_rules! named { ($($n:ident = $s:expr),* $(,)?) => { schema!(struct { $( ($n: %$s) ),* }) } }
macro_rules! sum { ($($n:ident $s:ident),* $(,)?) => { schema!(enum { $( $n($s) ),* }) } }
macro_rules! array { ($n:expr, $($t:tt)*) => { schema!(seq($n)($($t)*)) } }
macro_rules! up { ($n:expr) => { schema!(tuple { (recurse($n)), (recurse($n + 1)) }) } }
macro_rules! both { ($a:tt $b:tt) => { schema!(tuple { $a, $b }) } }
macro_rules! lit { ($n:literal) => { schema!(seq($n)(recurse($n))) } }
macro_rules! of { ($t:ident) => { schema!(tuple { ($t), (option($t)), (seq(varlen)($t)) }) } }
"""


def program(seed, n, macro=True):
    """With macro=False, the same program without the macro."""
    g = G(seed)
    r = g.r
    out = [HEAD % seed, USER if macro else ""]
    shadow, entries = [], []
    for i in range(n):
        m, h, order = g.one(r.choice([3, 8, 20, 40]))
        ctx = r.choice(["plain", "plain", "plain", "shadow", "shadow", "pass"])
        call = r.choice(["schema!(%s)", "schema! { %s }", "schema![%s]", "binschema::schema!(%s)"]) % spaced(r, m)
        if ctx == "shadow":
            # this sees the names of its own module only
            call = "::binschema::schema!(%s)" % m.replace("%schema!", "%::binschema::schema!").replace("%binschema::", "%::binschema::")
        if ctx == "pass":
            call = "pass!(%s)" % m
        hand = h
        where = ""
        body = "    pub fn made_%d(ticks: &Ticks) -> S { %s }"
        if not macro:
            call, h = "S::Unit", hand
        if ctx == "shadow":
            # (by hand, with the real names)
            call = own(call)
            shadow.append(body % (i, call))
            where = "shadowed::"
        else:
            out.append(body % (i, call))
        out.append("    fn hand_%d() -> S { %s }" % (i, hand))
        entries.append("Entry { made: %smade_%d, hand: hand_%d, order: &[%s] }" % (where, i, i, ", ".join(str(x) for x in order)))
    # through macros of the user's own
    s = lambda x: "S::Scalar(ScalarType::%s)" % x.capitalize()
    fixed = [
        ("named!(a = S::Unit, r#type = schema!(u8), size = %s)" % s("i16"),
         'S::Struct(vec![field("a", S::Unit), field("type", %s), field("size", %s)])' % (s("u8"), s("i16"))),
        ("named!()", "S::Struct(vec![])"),
        ("sum!(A u8, r#fn str, B unit)", 'S::Enum(vec![variant("A", %s), variant("fn", S::Str), variant("B", S::Unit)])' % s("u8")),
        ("array!(2 * 3, option(u8))", "S::Seq(SeqSchema { len: Some(6), inner: Box::new(S::Option(Box::new(%s))) })" % s("u8")),
        ("array!(1 + 1, tuple { (recurse(2)) })", "S::Seq(SeqSchema { len: Some(2), inner: Box::new(S::Tuple(vec![S::Recurse(2)])) })"),
        ("up!(1)", "S::Tuple(vec![S::Recurse(1), S::Recurse(2)])"),
        ("up!(2 * 2)", "S::Tuple(vec![S::Recurse(4), S::Recurse(5)])"),
        ("both!((u8) (str))", "S::Tuple(vec![%s, S::Str])" % s("u8")),
        ("lit!(3)", "S::Seq(SeqSchema { len: Some(3), inner: Box::new(S::Recurse(3)) })"),
        ("of!(char)", "S::Tuple(vec![{0}, S::Option(Box::new({0})), S::Seq(SeqSchema {{ len: None, inner: Box::new({0}) }})])".format(s("char"))),
        ("schema!(%LATE.clone())", "S::Tuple(vec![S::Str])"),
        ("schema!(seq(COUNT)(unit))", "S::Seq(SeqSchema { len: Some(11), inner: Box::new(S::Unit) })"),
        ("{ let varlen = 5usize; schema!(seq(varlen)(u8)) }", "S::Seq(SeqSchema { len: None, inner: Box::new(%s) })" % s("u8")),
        ("{ let varlen = 5usize; schema!(seq((varlen))(u8)) }", "S::Seq(SeqSchema { len: Some(5), inner: Box::new(%s) })" % s("u8")),
        ("{ let name = 3usize; let inner = S::Str; schema!(struct { (name: seq(name)(%inner)) }) }",
         'S::Struct(vec![field("name", S::Seq(SeqSchema { len: Some(3), inner: Box::new(S::Str) }))])'),
        ("{ let u8 = S::Str; schema!(tuple { (u8), (%u8) }) }", "S::Tuple(vec![%s, S::Str])" % s("u8")),
        ("(|| schema!(option(unit)))()", "S::Option(Box::new(S::Unit))"),
        ("[schema!(u8), schema!(str)][1].clone()", "S::Str"),
        ("{ let f = |x: Option<S>| -> Option<S> { Some(schema!(option(%x?))) }; schema!(tuple { (%f(None).unwrap_or(S::Str)), (%f(Some(S::Unit)).unwrap()) }) }",
         "S::Tuple(vec![S::Str, S::Option(Box::new(S::Unit))])"),
        ("{ let f = |x: Option<usize>| -> Option<S> { Some(schema!(seq(x?)(recurse(x?)))) }; schema!(tuple { (%f(None).unwrap_or(S::Str)), (%f(Some(4)).unwrap()) }) }",
         "S::Tuple(vec![S::Str, S::Seq(SeqSchema { len: Some(4), inner: Box::new(S::Recurse(4)) })])"),
        ("loop { schema!(tuple { (%S::Str), (struct { (x: %break S::Bytes) }) }); }", "S::Bytes"),
        ("{ let mut n = 0; loop { n += 1; let s = schema!(enum { A(%if n < 3 { continue } else { S::Unit }), B(recurse(n)) }); break s } }",
         'S::Enum(vec![variant("A", S::Unit), variant("B", S::Recurse(3))])'),
        ("{ let mut left = vec![S::Bytes, S::Str]; schema!(tuple { (%left.pop().unwrap()), (option(%left.pop().unwrap())), (seq(left.len())(unit)) }) }",
         "S::Tuple(vec![S::Str, S::Option(Box::new(S::Bytes)), S::Seq(SeqSchema { len: Some(0), inner: Box::new(S::Unit) })])"),
        ("{ let only = S::Tuple(vec![S::Str]); schema!(option(%only)) }", "S::Option(Box::new(S::Tuple(vec![S::Str])))"),
        ("match schema!(u8) { x @ schema_pat!() => x, _ => S::Unit }", s("u8")),
    ]
    if macro:
        out.append("const COUNT: usize = 11;\nstatic LATE: std::sync::LazyLock<S> = std::sync::LazyLock::new(|| schema!(tuple { (str) }));\n"
                   "macro_rules! schema_pat { () => { S::Scalar(ScalarType::U8) } }")
    # deep and wide
    d = r.randint(20, 34)
    m, h = "u8", s("u8")
    for i in range(d):
        k = r.randrange(5)
        if k == 0:
            m, h = "option(%s)" % m, "S::Option(Box::new(%s))" % h
        elif k == 1:
            m, h = "seq(varlen)(%s)" % m, "S::Seq(SeqSchema { len: None, inner: Box::new(%s) })" % h
        elif k == 2:
            m, h = "tuple { (%s) }" % m, "S::Tuple(vec![%s])" % h
        elif k == 3:
            m, h = "struct { (n: %s) }" % m, 'S::Struct(vec![field("n", %s)])' % h
        else:
            m, h = "enum { V(%s) }" % m, 'S::Enum(vec![variant("V", %s)])' % h
    fixed.append(("schema!(%s)" % m, h))
    w = r.choice([127, 200, 256, 300])
    fixed.append(("schema!(enum { %s })" % ", ".join("V%d(unit)" % i for i in range(w)),
                  "S::Enum(vec![%s])" % ", ".join('variant("V%d", S::Unit)' % i for i in range(w))))
    fixed.append(("schema!(struct { %s })" % ", ".join("(f%d: u16)" % i for i in range(w)),
                  "S::Struct(vec![%s])" % ", ".join('field("f%d", %s)' % (i, s("u16")) for i in range(w))))
    fixed.append(("schema!(tuple { %s })" % ", ".join("(bool)" for i in range(w)), "S::Tuple(vec![%s])" % ", ".join(s("bool") for i in range(w))))
    for x in SCALARS:
        fixed.append(("schema!(%s)" % x, s(x)))
    for i, (m, h) in enumerate(fixed):
        out.append("    fn made_f%d(ticks: &Ticks) -> S { %s }\n    fn hand_f%d() -> S { %s }" % (i, m if macro else "S::Unit", i, h))
        entries.append("Entry { made: made_f%d, hand: hand_f%d, order: &[] }" % (i, i))
    out.append(SHADOW % "\n".join(shadow))
    out.append("static ENTRIES: &[Entry] = &[%s];\n" % ",\n    ".join(entries))
    out.append("fn all() -> Vec<Prop> { vec![c26_of(&ENTRIES, case, each)] }\n"
               "fn case(cx: &mut Cx) -> R { mon::props::macros::case(cx, ENTRIES) }\n"
               "fn each(cx: &mut Cx) -> R { mon::props::macros::each(cx, ENTRIES) }\n"
               "fn main() { mon::cli::main(all) }\n")
    text = "\n".join(out)
    return text


def own(call):
    """What the user writes in a module where the names of the prelude mean
    something else: the real ones by other names."""
    import re
    call = re.sub(r"\bBox::new\b", "Own::new", call)
    call = re.sub(r"len: Some\(", "len: Opt::Some(", call)
    call = re.sub(r"len: None\b", "len: Opt::None", call)
    call = call.replace("vec![", "list![")
    return call


TOML = """[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[features]
nomacro = []

[dependencies]
mon = { path = "%s" }
binschema = { path = "%s/binschema" }
serde = { version = "1", features = ["derive"] }

[profile.dev]
opt-level = 0
debug = "line-tables-only"
incremental = false

[profile.dev.package."*"]
opt-level = 1

[profile.release]
opt-level = 1
debug = false
incremental = false

[workspace]
"""


def write(dst, name, seed, n, harness, repo):
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    def text(macro):
        return program(seed, n, macro).replace("#![allow(warnings)]\n", "")
    for file, body in (("Cargo.toml", TOML % (name, harness, repo)),
                       ("src/main.rs", '#![allow(warnings)]\n#[cfg(not(feature = "nomacro"))]\ninclude!("full.rs");\n#[cfg(feature = "nomacro")]\ninclude!("plain.rs");\n'),
                       ("src/full.rs", text(True)), ("src/plain.rs", text(False))):
        f = os.path.join(dst, file)
        if not os.path.exists(f) or open(f).read() != body:
            with open(f, "w") as o:
                o.write(body)


if __name__ == "__main__":
    import sys
    print(program(int(sys.argv[1]), int(sys.argv[2])))
