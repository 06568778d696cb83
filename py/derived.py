"""Writes a Rust program of random types which derive their schema (for C13).

The program links the harness as a library. Each type gets, besides the
derives under test, a description of its own shape and values (mon::probe::
Probe), written from the type alone.
"""
import os, random

SCALARS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "char", "bool",
           "usize", "isize"]
KEYS = ["u8", "u16", "u32", "i64", "char", "bool", "String", "(u8, bool)", "Option<u8>", "Vec<u8>"]
NAMES = ["a", "b", "c", "left", "right", "value", "next", "stack", "parent_stack", "schema", "s", "self_", "g", "x1",
         "r#type", "r#match", "r#fn", "r#in", "r#struct", "r#enum", "r#if", "r#loop", "Upper", "camelCase", "größe",
         "_under", "__two", "x_", "len", "T", "name", "data", "Self_", "r#async", "r#dyn", "recurse"]
VARIANTS = ["A", "B", "C", "Leaf", "Node", "Branch", "Some_", "None_", "Ok_", "lower", "snake_case", "r#type", "r#move",
            "Über", "X1", "Unit", "Struct", "Tuple", "V", "W", "r#yield"]


class Ty:
    """A generated type."""

    def __init__(self, name):
        self.name = name
        self.kind = None        # struct or enum
        self.body = None        # fields, or list of (variant, fields)
        self.key = False
        self.attrs = {}         # (variant or 0, field) -> level written by hand
        self.hand = False       # the schema is declared by hand
        self.raw = None         # and this is how
        self.mod = None         # module it is in

    def newtype(self):
        return self.kind == "struct" and self.body[0] == "tuple" and len(self.body[1]) == 1

    def path(self):
        return self.mod + "::" + self.name if self.mod else self.name


# fields: ("unit",) ("tuple", [ty..]) ("named", [(name, ty)..])   ty: nested lists
# ty: ("p", text) primitive | ("t", Ty) | (ctor, ty...) with ctor a container

IND = ["Vec", "VecDeque", "LinkedList", "Option", "BTreeMap", "HashMap"]
DIR = ["Box", "Tuple", "Array", "Range", "Bound", "RangeInclusive", "Cow"]
SETS = ["BTreeSet", "HashSet", "BinaryHeap"]


def text(t):
    k = t[0]
    if k == "p":
        return t[1]
    if k == "t":
        return t[1].path()
    if k in ("BTreeMap", "HashMap"):
        return "%s<%s, %s>" % (k, t[1], text(t[2]))
    if k == "Tuple":
        return "(%s,)" % ", ".join(text(x) for x in t[1:])
    if k == "Array":
        return "[%s; %d]" % (text(t[2]), t[1])
    if k == "Cow":
        return "Cow<'static, %s>" % text(t[1])
    return "%s<%s>" % (k, text(t[1]))


def parts(t):
    k = t[0]
    if k in ("p",):
        return []
    if k == "t":
        return [t]
    return [x for x in t[1:] if isinstance(x, tuple)]


def fields_types(f):
    if f[0] == "unit":
        return []
    if f[0] == "tuple":
        return f[1]
    return [x[1] for x in f[1]]


def bodies(ty):
    return [ty.body] if ty.kind == "struct" else [b for _, b in ty.body]


def size(t, anc, cap):
    """Nodes of the declared schema."""
    if t[0] == "p":
        return 3
    if t[0] == "t":
        if t[1] in anc:
            return 1
        n = 1
        for b in bodies(t[1]):
            n += 2
            for x in fields_types(b):
                n += size(x, anc | {t[1]}, cap)
                if n > cap:
                    return n
        return n
    n = 3
    for x in parts(t):
        n += size(x, anc, cap)
        if n > cap:
            return n
    return n


def least(t):
    """Nodes of the smallest value that arb() falls back to."""
    k = t[0]
    if k == "p" or k in IND or k in SETS:
        return 1
    if k == "t":
        ty = t[1]
        b = ty.body if ty.kind == "struct" else ty.body[0][1]
        return 1 + sum(least(x) for x in fields_types(b))
    m = t[1] if k == "Array" else 2 if k.startswith("Range") else 1
    return 1 + m * sum(least(x) for x in parts(t))


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.types = []

    def prim(self):
        x = self.r.random()
        if x < 0.6:
            return ("p", self.r.choice(SCALARS))
        if x < 0.75:
            return ("p", "String")
        if x < 0.85:
            return ("p", "()")
        return ("p", self.r.choice(["BTreeSet<u8>", "HashSet<String>", "BinaryHeap<u16>", "Vec<()>", "Cow<'static, String>",
                                    "HashSet<(u8, char)>", "[u8; 0]", "[(); 3]", "Option<()>", "Box<u8>"]))

    def ty(self, depth, direct, indirect):
        """indirect: types which may only stand where a value need not be."""
        r = self.r
        x = r.random()
        if x < 0.3 or depth >= 3:
            if direct and r.random() < 0.3:
                return ("t", r.choice(direct))
            return self.prim()
        if x < 0.5 and direct:
            return ("t", r.choice(direct))
        if x < 0.85:
            k = r.choice(IND)
            if indirect and r.random() < 0.6:
                inner = ("t", r.choice(indirect))
                if k == "Option":
                    inner = r.choice([("Box", inner), ("Vec", inner), ("Box", ("Box", inner)), ("Box", ("Tuple", inner, self.prim())),
                                      ("Box", ("Cow", inner))])
                elif r.random() < 0.2:
                    inner = ("Cow", inner)
            else:
                inner = self.ty(depth + 1, direct + indirect if k != "Option" else direct, indirect)
            if k in ("BTreeMap", "HashMap"):
                return (k, self.key(), inner)
            return (k, inner)
        ks = [t for t in self.types if t.key]
        if ks and r.random() < 0.15:
            return (r.choice(SETS), ("t", r.choice(ks)))
        k = r.choice(DIR)
        if k == "Tuple":
            n = r.randint(5, 11) if r.random() < 0.1 else r.randint(1, 4)
            return ("Tuple",) + tuple(self.ty(depth + 1 if n < 5 else 3, direct, indirect) for _ in range(n))
        if k == "Array":
            return ("Array", r.choice([0, 1, 2, 3]), self.ty(depth + 1, direct, indirect))
        return (k, self.ty(depth + 1, direct, indirect))

    def key(self):
        ks = [t for t in self.types if t.key]
        if ks and self.r.random() < 0.3:
            return self.r.choice(ks).name
        return self.r.choice(KEYS)

    def names(self, pool, n):
        return self.r.sample(pool, n) if n <= len(pool) else ["n%d" % i for i in range(n)]

    def fields(self, direct, indirect, box):
        r = self.r

        def one():
            # a mandatory recursion: in an enum variant other than the first
            if box and indirect and r.random() < 0.4:
                t = ("t", r.choice(indirect))
                return r.choice([("Box", t), ("Box", ("Box", t)), ("Box", ("Tuple", t, t)), ("Tuple", ("Box", t), self.prim()),
                                 ("Array", r.choice([1, 2]), ("Box", t))])
            return self.ty(0, direct, indirect)
        k = r.choice(["unit", "tuple", "tuple", "newtype", "newtype", "named", "named", "named", "none", "empty"])
        if k == "unit":
            return ("unit",)
        if k == "none":
            return ("tuple", [])
        if k == "empty":
            return ("named", [])
        if k == "newtype":
            return ("tuple", [one()])
        n = r.randint(2, 4)
        if k == "tuple":
            return ("tuple", [one() for _ in range(n)])
        n = r.randint(1, 5)
        return ("named", [(x, one()) for x in self.names(NAMES, n)])

    def cluster(self):
        r = self.r
        small = [t for t in self.types if size(("t", t), frozenset(), 60) <= 40 and least(("t", t)) < 12]
        for _ in range(200):
            base = len(self.types)
            new = [Ty("T%d" % (base + i)) for i in range(r.randint(1, 4))]
            for i, t in enumerate(new):
                direct = r.sample(small, min(3, len(small))) + new[:i]
                t.kind = r.choice(["struct", "enum"])
                if t.kind == "struct":
                    t.body = self.fields(direct, new, False)
                else:
                    n = r.choice([1, 2, 3, 3, 4, 6])
                    t.body = [(v, self.fields(direct, new, j > 0)) for j, v in enumerate(self.names(VARIANTS, n))]
            if all(size(("t", t), frozenset(), 1500) <= 1200 and least(("t", t)) < 200 for t in new) and \
                    not any(endless(t, {}) for t in new):
                self.types += new
                return
        raise Exception("no cluster found")

    def keys(self):
        r = self.r
        for i in range(2):
            t = Ty("T%d" % len(self.types))
            t.key = True
            t.kind = r.choice(["struct", "enum"])
            f = lambda: r.choice([("unit",), ("tuple", [("p", r.choice(KEYS))]), ("tuple", [("p", r.choice(KEYS)), ("p", "u8")]),
                                  ("named", [(x, ("p", r.choice(KEYS))) for x in self.names(NAMES, 2)])])
            t.body = f() if t.kind == "struct" else [(v, f()) for v in self.names(VARIANTS, r.randint(1, 4))]
            self.types.append(t)


def endless(ty, memo):
    """Is the type, newtypes being transparent, nothing but itself?"""
    seen = set()
    while ty.kind == "struct" and ty.body[0] == "tuple" and len(ty.body[1]) == 1:
        if ty in seen:
            return True
        seen.add(ty)
        t = ty.body[1][0]
        while t[0] in ("Box", "Cow"):
            t = t[1]
        if t[0] != "t":
            return False
        ty = t[1]
    return False


def plain(n):
    return n[2:] if n.startswith("r#") else n


def lit(n):
    return '"%s"' % plain(n)


def decl_fields(f, semi, attr=lambda i: ""):
    if f[0] == "unit":
        return ";" if semi else ""
    if f[0] == "tuple":
        return "(%s)%s" % (", ".join(attr(i) + text(x) for i, x in enumerate(f[1])), ";" if semi else "")
    return " { %s }" % ", ".join("%s%s: %s" % (attr(i), n, text(t)) for i, (n, t) in enumerate(f[1]))


def node_of(f):
    """Expression: node of fields."""
    n = lambda t: "<%s as Probe>::node(g)" % text(t)
    if f[0] == "unit" or f == ("tuple", []):
        return None, "<() as Probe>::node(g)"
    if f[0] == "tuple" and len(f[1]) == 1:
        return None, n(f[1][0])
    if f[0] == "tuple":
        return "Shape::Tuple(vec![%s])" % ", ".join(n(t) for t in f[1]), None
    return "Shape::Struct(vec![%s])" % ", ".join("(%s, %s)" % (lit(a), n(t)) for a, t in f[1]), None


def arb_of(f):
    a = "Probe::arb(r, size)"
    if f[0] == "unit":
        return ""
    if f[0] == "tuple":
        return "(%s)" % ", ".join(a for _ in f[1])
    return " { %s }" % ", ".join("%s: %s" % (n, a) for n, _ in f[1])


def pat_of(f):
    if f[0] == "unit":
        return ""
    if f[0] == "tuple":
        return "(%s)" % ", ".join("b%d" % i for i in range(len(f[1])))
    return " { %s }" % ", ".join("%s: b%d" % (n, i) for i, (n, _) in enumerate(f[1]))


def val_of(f):
    if f[0] == "unit" or f == ("tuple", []):
        return "Value::Unit"
    if f[0] == "tuple":
        v = ["b%d.val(c)" % i for i in range(len(f[1]))]
        return v[0] if len(v) == 1 else "Value::Tuple(vec![%s])" % ", ".join(v)
    return "v_struct(vec![%s])" % ", ".join("(%s, b%d.val(c))" % (lit(n), i) for i, (n, _) in enumerate(f[1]))


def emit(ty, r):
    o = []
    extra = ", PartialEq, Eq, PartialOrd, Ord, Hash, Clone" if ty.key else ", Clone"
    order = ["Serialize", "Deserialize"]
    o.append("#[derive(%s%s)]" % (", ".join(order), extra))
    if not ty.hand:
        o.append('#[cfg_attr(not(feature = "noderive"), derive(KnownSchema))]')

    def attr(j):
        def f(i):
            n = ty.attrs.get((j, i))
            return "" if n is None else '#[cfg_attr(not(feature = "noderive"), schema(recurse = %d))] ' % n
        return f
    if ty.kind == "struct":
        o.append("pub struct %s%s" % (ty.name, decl_fields(ty.body, True, attr(0))))
    else:
        disc = all(b == ("unit",) for _, b in ty.body) and r.random() < 0.5
        vs = []
        for i, (v, b) in enumerate(ty.body):
            vs.append("    %s%s%s," % (v, decl_fields(b, False, attr(i)), " = %d" % (100 - 3 * i) if disc else ""))
        o.append("pub enum %s {\n%s\n}" % (ty.name, "\n".join(vs)))
    if ty.hand:
        o.append(ty.raw or Hand(ty, r).impl())
    o += probe(ty)
    if ty.mod:
        o = ["pub mod %s {\nuse super::*;" % ty.mod] + o + ["}"]
    return "\n".join(o) + "\n"


class Hand:
    """A declaration of a type's schema written by hand, in one of the ways
    that RecurseStack allows."""

    def __init__(self, ty, r):
        self.ty, self.r = ty, r
        self.spell = r.random() < 0.5       # spell containers out
        self.macro = r.random() < 0.5       # use schema!, where possible

    def of(self, t, depth=0):
        """Expression of a type's schema, given `stack`."""
        r = self.r
        x = text(t)
        plain = r.choice(["<%s as KnownSchema>::schema(stack)", "<%s>::schema(stack)"]) % x
        k = t[0]
        if k not in ("Box", "Cow") and r.random() < 0.25:
            # what the type called would do itself
            return r.choice([
                "stack.parent_recurse::<%s>().unwrap_or_else(|| <%s>::schema(stack))",
                "match stack.find_type::<%s>() { Some(n) => Schema::Recurse(n + 1), None => <%s>::schema(stack) }",
                "if let Some(s) = stack.parent_recurse::<%s>() { s } else { <%s>::schema(stack) }",
            ]) % (x, x)
        if not self.spell or depth > 2:
            return plain
        inner = lambda y, n=1: "{ %s%s }" % ("".join(
            r.choice(["let stack = stack.with_none_layer(); ", "let lower = stack.with_none_layer(); let stack = lower; "])
            for _ in range(n)), self.of(y, depth + 1))
        seq = "Schema::Seq(SeqSchema { len: %s, inner: Box::new(%s) })"
        if k in ("Box", "Cow"):
            return self.of(t[1], depth)
        if k == "Option":
            return "Schema::Option(Box::new(%s))" % inner(t[1]) if r.random() < 0.7 else "binschema::schema!(option(%%%s))" % inner(t[1])
        if k in ("Vec", "VecDeque", "LinkedList") or k in SETS:
            return seq % ("None", inner(t[1])) if r.random() < 0.7 else "binschema::schema!(seq(varlen)(%%%s))" % inner(t[1])
        if k == "Array":
            return seq % ("Some(%d)" % t[1], inner(t[2])) if r.random() < 0.7 else "binschema::schema!(seq(%d)(%%%s))" % (t[1], inner(t[2]))
        if k == "Tuple":
            return "Schema::Tuple(vec![%s])" % ", ".join(inner(y) for y in t[1:])
        if k in ("BTreeMap", "HashMap"):
            key = "{ let stack = stack.with_none_layer(); let stack = stack.with_none_layer(); <%s>::schema(stack) }" % t[1]
            return seq % ("None", "Schema::Tuple(vec![%s, %s])" % (key, inner(t[2], 2)))
        return plain

    def fields(self, f, nested):
        """Expression of the schema of fields, given `stack`."""
        layer = "let stack = stack.with_none_layer(); " if nested else ""
        if f[0] == "unit" or f == ("tuple", []):
            return "Schema::Unit" if not self.macro else "binschema::schema!(unit)"
        if f[0] == "tuple" and len(f[1]) == 1:
            return self.of(f[1][0])
        if f[0] == "tuple":
            if self.macro:
                return "{ %sbinschema::schema!(tuple { %s }) }" % (layer, ", ".join("(%%%s)" % self.of(t) for t in f[1]))
            return "{ %sSchema::Tuple(vec![%s]) }" % (layer, ", ".join(self.of(t) for t in f[1]))
        if self.macro:
            return "{ %sbinschema::schema!(struct { %s }) }" % (layer, ", ".join("(%s: %%%s)" % (n, self.of(t)) for n, t in f[1]))
        return "{ %sSchema::Struct(vec![%s]) }" % (
            layer, ", ".join("StructSchemaField { name: %s.into(), inner: %s }" % (lit(n), self.of(t)) for n, t in f[1]))

    def impl(self):
        ty, r = self.ty, self.r
        through = ty.newtype()
        if ty.kind == "struct":
            body = self.fields(ty.body, False)
        elif self.macro:
            body = "binschema::schema!(enum { %s })" % ", ".join("%s(%%%s)" % (v, self.fields(b, True)) for v, b in ty.body)
        else:
            body = "Schema::Enum(vec![%s])" % ", ".join(
                "EnumSchemaVariant { name: %s.into(), inner: %s }" % (lit(v), self.fields(b, True)) for v, b in ty.body)
        self_ = r.choice(["Self", ty.name])
        first = r.choice([
            "if let Some(s) = parent_stack.parent_recurse::<%s>() { return s; }",
            "if let Some(n) = parent_stack.find_type::<%s>() { return Schema::Recurse(n + 1); }",
            "match parent_stack.parent_recurse::<%s>() { Some(s) => return s, None => () }",
        ]) % self_
        layer = "let stack = parent_stack.%s::<%s>();" % ("with_transparent_layer" if through else "with_type_layer", self_)
        return '#[cfg(not(feature = "noderive"))]\nimpl KnownSchema for %s {\n    fn schema(parent_stack: RecurseStack) -> Schema {\n        %s\n        %s\n        %s\n    }\n}' % (
            ty.name, first, layer, body)


def probe(ty):
    o = ['#[cfg(feature = "noderive")]\nimpl KnownSchema for %s { fn schema(_: RecurseStack) -> Schema { Schema::Unit } }' % ty.name]
    o.append("impl Probe for %s {" % ty.name)
    if ty.kind == "struct":
        shape, node = node_of(ty.body)
        o.append("    fn node(g: &mut Graph) -> usize { %s }" % (node or "g.ty::<Self>(|g| %s)" % shape))
        o.append("    fn arb(r: &mut Rng, size: &mut i64) -> Self { let _ = (&r, &size); %s%s }" % (ty.name, arb_of(ty.body)))
        o.append("    fn val(&self, c: bool) -> Value { let _ = c; let %s%s = self; %s }" % (ty.name, pat_of(ty.body), val_of(ty.body)))
    else:
        vs = []
        for v, b in ty.body:
            shape, node = node_of(b)
            vs.append("(%s, %s)" % (lit(v), node or "{ let s = %s; g.add(s) }" % shape))
        o.append("    fn node(g: &mut Graph) -> usize { g.ty::<Self>(|g| Shape::Enum(vec![%s])) }" % ", ".join(vs))
        arms = ["%s => %s::%s%s," % (i if i + 1 < len(ty.body) else "_", ty.name, v, arb_of(b)) for i, (v, b) in enumerate(ty.body)]
        o.append("    fn arb(r: &mut Rng, size: &mut i64) -> Self {\n        let k = if spend(size) { r.below(%d) } else { 0 };\n        match k {\n            %s\n        }\n    }"
                 % (len(ty.body), "\n            ".join(arms)))
        arms = ["%s::%s%s => v_enum(%d, %s, %s)," % (ty.name, v, pat_of(b), i, lit(v), val_of(b)) for i, (v, b) in enumerate(ty.body)]
        o.append("    fn val(&self, c: bool) -> Value {\n        let _ = c;\n        match self {\n            %s\n        }\n    }" % "\n            ".join(arms))
    o.append("}")
    return o


HEAD = """// written by py/derived.py, seed %d
#![allow(warnings)]
use binschema::{EnumSchemaVariant, RecurseStack, Schema, SeqSchema, StructSchemaField, value::Value};
%s
use mon::{probe::{spend, v_enum, v_struct, Graph, Probe, Shape, TypeOps}, rng::Rng, run::*, type_ops};
use serde::{Serialize, Deserialize};
use std::{borrow::Cow, collections::*, ops::*, sync::OnceLock};

"""

IMPORT = "use binschema::KnownSchema;"

TAIL = """
fn ops() -> &'static [TypeOps] {
    static T: OnceLock<Vec<TypeOps>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = type_ops![%s];
        v.extend(local());
        v
    })
}

fn case(cx: &mut Cx) -> R {
    %s
    let t = cx.rng.pick(ops());
    (t.roundtrip)(cx)
}

fn all() -> Vec<Prop> {
    vec![mon::props::serde_::%s(ops(), case)]
}

fn main() {
    mon::cli::main(all)
}
"""

TOML = """[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[features]
noderive = []

[dependencies]
mon = { path = "%s" }
binschema = { path = "%s/binschema" }
serde = { version = "1", features = ["derive"] }

[profile.dev]
opt-level = 1
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
incremental = false

[profile.release]
opt-level = 3
debug = "line-tables-only"
debug-assertions = false
overflow-checks = false
incremental = false

[workspace]
"""


def fixed():
    """Types written by hand: one of each notable shape."""
    out = []
    P = lambda n: ("p", n)
    B = lambda t: ("Box", t)
    O = lambda t: ("Option", t)

    def st(name, body=None, attrs=None):
        t = Ty(name)
        t.kind, t.body, t.attrs = "struct", body, attrs or {}
        out.append(t)
        return t

    def en(name, body=None, attrs=None):
        t = st(name, body, attrs)
        t.kind = "enum"
        return t
    R = lambda t: ("t", t)
    st("FUnit", ("unit",))
    st("FNone", ("tuple", []))
    st("FEmpty", ("named", []))
    st("FNew", ("tuple", [P("u32")]))
    st("FNewUnit", ("tuple", [P("()")]))
    n = st("FNewNew", ("tuple", [R(out[3])]))
    st("FNewNewNew", ("tuple", [R(n)]))
    st("FTup", ("tuple", [P("u8"), P("()"), R(n)]))
    st("FRaw", ("named", [("r#type", P("u8")), ("r#fn", P("String")), ("x", P("()"))]))
    en("FRawE", [("r#type", ("unit",)), ("r#impl", ("named", [("r#let", P("u8"))])), ("B", ("tuple", []))])
    en("FOne", [("Only", ("named", []))])
    # a list
    l = st("FList")
    l.body = ("named", [("value", P("i32")), ("next", O(B(R(l))))])
    # a tree, by boxes in every shape of variant
    t = en("FTree")
    t.body = [("Leaf", ("tuple", [P("u8")])), ("Branch", ("named", [("left", B(R(t))), ("right", B(R(t)))])),
              ("Pair", ("tuple", [B(R(t)), B(R(t))])), ("One", ("tuple", [B(R(t))])), ("Many", ("tuple", [("Vec", R(t))])),
              ("Tup", ("tuple", [("Tuple", B(R(t)), P("u8"))])), ("Opt", ("tuple", [O(B(R(t)))])),
              ("Arr", ("tuple", [("Array", 2, B(R(t)))])), ("Map", ("tuple", [("BTreeMap", "u8", R(t))])),
              ("HMap", ("named", [("m", ("HashMap", "String", ("Vec", R(t))))])), ("Deque", ("tuple", [("VecDeque", R(t))])),
              ("List", ("tuple", [("LinkedList", R(t)), P("u8")])), ("Rng", ("tuple", [("Range", B(R(t)))])),
              ("Bnd", ("tuple", [("Bound", B(R(t)))])), ("Inc", ("tuple", [("RangeInclusive", B(R(t)))])),
              ("Cow", ("tuple", [("Vec", ("Cow", R(t)))])), ("BoxCow", ("named", [("c", B(("Cow", R(t)))), ("d", O(B(("Cow", ("Cow", R(t))))))])),
              ("MapCow", ("tuple", [("BTreeMap", "u8", ("Cow", R(t))), ("LinkedList", ("Tuple", ("VecDeque", ("Cow", R(t))), P("u8")))]))]
    # the same levels written by hand
    t = en("FByHand")
    t.body = [("Leaf", ("tuple", [P("u8")])), ("New", ("tuple", [B(R(t))])), ("Pair", ("tuple", [B(R(t)), B(R(t))])),
              ("Named", ("named", [("left", B(R(t))), ("x", P("u8")), ("right", B(R(t)))]))]
    t.attrs = {(1, 0): 1, (2, 0): 2, (2, 1): 2, (3, 0): 2, (3, 2): 2}
    # newtypes in a cycle
    a = st("FNewVec")
    a.body = ("tuple", [("Vec", R(a))])
    a = st("FNewOpt")
    a.body = ("tuple", [O(B(R(a)))])
    a = st("FNewMap")
    a.body = ("tuple", [("BTreeMap", "String", R(a))])
    a = st("FWrap")
    b = st("FInner")
    a.body = ("tuple", [("Vec", R(b))])
    b.body = ("named", [("kids", R(a)), ("more", R(a)), ("n", P("u8"))])
    a = st("FWrap2")
    b = st("FWrap3")
    c = st("FWrap4")
    a.body = ("tuple", [R(b)])
    b.body = ("tuple", [O(B(R(c)))])
    c.body = ("tuple", [("Vec", R(a)), R(b), O(B(R(c)))])
    # three types, each reaching the others
    a, b, c = st("FMutA"), en("FMutB"), st("FMutC")
    a.body = ("named", [("b", O(B(R(b)))), ("c", ("Vec", R(c))), ("a", ("BTreeMap", "u8", R(a)))])
    b.body = [("Z", ("unit",)), ("A", ("tuple", [B(R(a))])), ("C", ("named", [("c", B(R(c))), ("a", B(R(a)))])),
              ("B", ("tuple", [B(R(b)), P("u8")]))]
    c.body = ("tuple", [("Vec", R(a)), O(B(R(b))), O(B(R(c)))])
    # the same type at several depths
    a = st("FDeep")
    a.body = ("named", [("x", O(O(O(B(R(a)))))), ("y", ("Vec", ("Vec", ("Vec", R(a))))),
                        ("z", ("Vec", ("Tuple", ("Vec", R(a)), ("Vec", ("Tuple", P("u8"), ("Vec", R(a))))))), ("d", P("()"))])
    # recursion through sets and keys
    a = st("FSet")
    a.key = True
    a.body = ("named", [("s", ("BTreeSet", R(a))), ("k", ("BTreeMap", "FSet", P("u8"))), ("b", ("Vec", ("BTreeSet", R(a)))), ("n", P("u8"))])
    a = en("FSetE")
    a.key = True
    a.body = [("Z", ("unit",)), ("S", ("tuple", [("BTreeSet", R(a))])), ("K", ("tuple", [("BTreeMap", "FSetE", ("BTreeSet", R(a))), P("u8")]))]
    st("FSets", ("named", [("a", ("HashSet", R(a))), ("b", ("BinaryHeap", R(a))), ("c", ("HashMap", "FSetE", R(out[-2])))]))
    # std names, and names used by what the derive expands to
    a = en("FStack")
    a.body = [("Schema", ("unit",)), ("stack", ("named", [("stack", P("u8")), ("parent_stack", P("u8")), ("schema", ("Vec", R(a)))]))]
    for n in ["Node", "Field", "RecurseStack2", "Value2"]:
        a = st(n)
        a.body = ("named", [("next", ("Vec", R(a)))])
    # the same name in several modules
    a, b, c = st("Same"), en("Same"), st("Same")
    a.mod, b.mod, c.mod = "ma", "mb", "mc"
    a.body = ("named", [("x", ("Vec", R(b))), ("y", ("Vec", R(c))), ("n", P("u8"))])
    b.body = [("Z", ("unit",)), ("A", ("tuple", [B(R(a)), P("bool")])), ("B", ("tuple", [B(R(b)), B(R(c))]))]
    c.body = ("tuple", [("Vec", R(a)), O(B(R(b)))])
    return out


def hand_only():
    """Types of which the parents' stack is asked for containers only."""
    out = []
    for name, field, fty, ask in [
            ("HKids", "kids", ("Vec", None), "Vec<HKids>"),
            ("HNext", "next", ("Option", ("Box", None)), "Option<Box<HNext>>"),
            ("HMap", "map", ("BTreeMap", "u8", None), "BTreeMap<u8, HMap>"),
            ("HTup", "tup", ("Tuple", ("Vec", None), ("p", "u8")), "(Vec<HTup>, u8)"),
            ("HArr", "arr", ("Array", 2, ("Vec", None)), "[Vec<HArr>; 2]"),
            ("HDeep", "deep", ("LinkedList", ("Option", ("Tuple", ("p", "u8"), ("VecDeque", None)))), "VecDeque<HDeep>"),
            ("HRange", "range", ("Range", ("Option", ("Box", None))), "Range<Option<Box<HRange>>>"),
            ("HBound", "bound", ("Bound", ("Box", None)), "Bound<Box<HBound>>"),
            ("HInc", "inc", ("RangeInclusive", ("Vec", None)), "RangeInclusive<Vec<HInc>>"),
            ("HSet", "set", ("BTreeSet", None), "BTreeSet<HSet>")]:
        t = Ty(name)
        me = ("t", t)

        def put(x):
            return me if x is None else tuple(put(y) if isinstance(y, tuple) or y is None else y for y in x)
        t.kind, t.body, t.hand = "struct", ("named", [("n", ("p", "u16")), (field, put(fty))]), True
        t.key = name == "HSet"
        # (HDeep asks from two levels further down, where it spells its container out)
        if name == "HDeep":
            inner = """{ let s1 = stack.with_none_layer(); let s2 = s1.with_none_layer(); let s3 = s2.with_none_layer();
            let inner = s3.parent_recurse::<%s>().unwrap_or_else(|| <%s>::schema(s3));
            binschema::schema!(seq(varlen)(option(tuple { (u8), (%%inner) }))) }""" % (ask, ask)
        else:
            inner = "stack.parent_recurse::<%s>().unwrap_or_else(|| <%s>::schema(stack))" % (ask, ask)
        t.raw = """#[cfg(not(feature = "noderive"))]
impl KnownSchema for %s {
    fn schema(parent_stack: RecurseStack) -> Schema {
        let stack = parent_stack.with_type_layer::<Self>();
        binschema::schema!(struct { (n: u16), (%s: %%%s) })
    }
}""" % (name, field, inner)
        out.append(t)
    # among others
    t = Ty("HAll")
    t.kind, t.body = "struct", ("named", [(x.name.lower(), ("t", x)) for x in out])
    return out + [t]


def local(r, hand):
    """A function with types of the same name in nested blocks."""
    a, b = Ty("A"), Ty("A")
    a.kind, a.body = "struct", ("named", [("me", ("Vec", ("t", a))), ("x", ("p", "u8"))])
    b.kind = "enum"
    b.body = [("Z", ("unit",)), ("Y", ("named", [("outer", ("p", "Outer")), ("me", ("Vec", ("t", b))), ("more", ("p", "Vec<Outer>"))]))]
    if hand:
        a.hand, b.hand = r.random() < 0.5, r.random() < 0.5
    return "fn local() -> Vec<TypeOps> {\n%s\ntype Outer = A;\nlet mut v = type_ops![A];\n{\n%s\nv.extend(type_ops![A, Vec<A>]);\n}\nv\n}\n" % (
        emit(a, r), emit(b, r))


THROUGH = '''
struct There;

impl mon::props::serde_::Through for There {
    const THERE: bool = true;
    fn through<'b, T: KnownSchema>(s: &'b RecurseStack<'_>) -> RecurseStack<'b> {
        s.with_transparent_layer::<T>()
    }
}
'''


def program(seed, n, hand=False, there=True):
    g = Gen(seed)
    g.keys()
    while len(g.types) < n:
        g.cluster()
    f = fixed()
    out = [HEAD % (seed, IMPORT)]
    if hand:
        for t in g.types + f:
            t.hand = g.r.random() < 0.6 and not t.attrs and (there or not t.newtype())
        f += hand_only()
    for t in g.types + f:
        out.append(emit(t, g.r))
    for name, sizes in (("Big", [127, 128, 129, 255, 256, 257]), ("Bigger", [260, 300, 515])):
        big = Ty(name)
        big.kind = "enum"
        # every kind of variant, also beyond 8 bits
        shapes = {0: ("tuple", [("p", "u8")]), 17: ("tuple", [("p", "u8"), ("p", "bool")]), 34: ("named", [("f", ("p", "u8"))]),
                  40: ("named", [("f", ("p", "u8")), ("g", ("p", "String"))])}
        n = g.r.choice(sizes)
        big.body = [("V%d" % i, shapes.get((i if i < n - 4 else (i - n) % 4 * 17) % 50, ("unit",))) for i in range(n)]
        out.append(emit(big, g.r))
    out.append(local(g.r, hand))
    names = [t.path() for t in g.types + f] + ["Big", "Bigger"]
    for t in g.r.sample(g.types, min(6, len(g.types))):
        names.append(g.r.choice(["Vec<%s>", "Option<Box<%s>>", "HashMap<u8, %s>", "(u8, %s)", "[%s; 2]", "Bound<%s>"]) % t.name)
    how = "There" if there else "mon::props::serde_::NotThere"
    if hand and there:
        out.append(THROUGH)
    out.append(TAIL % (", ".join(names), "if cx.rng.chance(1, 8) { return mon::props::serde_::c30_stack::<%s>(cx); }" % how if hand else "",
                       "c30_of::<%s>" % how if hand else "c13_of"))
    return "\n".join(out)


def write(dst, name, seed, n, harness, repo, hand=False):
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    there = "pub fn with_transparent_layer<" in open(os.path.join(repo, "binschema/src/known_schema.rs")).read()
    for file, body in (("Cargo.toml", TOML % (name, harness, repo)), ("src/main.rs", program(seed, n, hand, there))):
        p = os.path.join(dst, file)
        if not os.path.exists(p) or open(p).read() != body:
            with open(p, "w") as f:
                f.write(body)


if __name__ == "__main__":
    import sys
    print(program(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:] == ["hand"]))
