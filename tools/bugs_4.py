SRC = "binschema/src/"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[((f if "/" in f and f.startswith("binschema") else SRC + f), o, n) for f, o, n in edits],
                     demo="\n" + demo.strip("\n") + "\n", **kw))


KS = "known_schema.rs"

# ---------------------------------------------------------------- C30
bug("c30-none-twice", "C30", "two unnamed levels one below the other, in a schema declared by hand",
    "an unnamed layer on top of an unnamed layer is not counted",
    [(KS, '''    pub fn with_none_layer<'b>(&'b self) -> RecurseStack<'b> {
''', '''    pub fn with_none_layer(&self) -> RecurseStack<'_> {
        if let Some(Node { val: None, .. }) = self.0 {
            return *self;
        }
''')], '''
struct L;
impl KnownSchema for L {
    fn schema(parent: RecurseStack) -> Schema {
        if let Some(s) = parent.parent_recurse::<Self>() {
            return s;
        }
        let stack = parent.with_type_layer::<Self>();
        let a = stack.with_none_layer();
        let b = a.with_none_layer();
        schema!(struct { (x: option(option(%L::schema(b)))) })
    }
}
fn main() {
    assert_eq!(L::schema(RecurseStack::new()), schema!(struct { (x: option(option(recurse(3)))) }));
}
''')
bug("c30-far", "C30", "a parent more than 16 layers up",
    "the search for a parent gives up after 16 layers",
    [(KS, '''        while let Some(curr) = opt_curr {
            if !curr''', '''        while let Some(curr) = opt_curr.as_ref().filter(|_| level < 16) {
            if !curr''')], '''
struct M;
impl KnownSchema for M {
    fn schema(_: RecurseStack) -> Schema { Schema::Unit }
}
fn down(s: RecurseStack, n: usize) -> Option<Schema> {
    if n == 0 { s.parent_recurse::<M>() } else { down(s.with_none_layer(), n - 1) }
}
fn main() {
    let s = RecurseStack::new();
    for n in [0, 3, 15, 16, 17, 40] {
        assert_eq!(down(s.with_type_layer::<M>(), n), Some(Schema::Recurse(n + 1)));
    }
}
''')
bug("c30-farthest", "C30", "a type that is on the stack of parents twice",
    "the outermost layer of a type is found instead of the nearest",
    [(KS, '''        let mut level = 0;

        while''', '''        let mut level = 0;
        let mut found = None;

        while'''), (KS, '''                    return Some(level);
''', '''                    found = Some(level);
'''), (KS, '''            opt_curr = curr.next;
        }

        None
''', '''            opt_curr = curr.next;
        }

        found
''')], '''
struct M;
impl KnownSchema for M {
    fn schema(_: RecurseStack) -> Schema { Schema::Unit }
}
fn main() {
    let s = RecurseStack::new();
    let a = s.with_type_layer::<M>();
    let b = a.with_none_layer();
    let c = b.with_type_layer::<M>();
    assert_eq!(c.parent_recurse::<M>(), Some(Schema::Recurse(1)));
}
''')
bug("c30-array-layer", "C30", "a hand-written declaration which refers to an array among its parents",
    "arrays put themselves on the stack of parents as slices",
    [(KS, '''impl<T: KnownSchema, const LEN: usize> KnownSchema for [T; LEN] {
    fn schema(parent_stack: RecurseStack) -> Schema {
        let stack = parent_stack.with_type_layer::<Self>();''', '''impl<T: KnownSchema, const LEN: usize> KnownSchema for [T; LEN] {
    fn schema(parent_stack: RecurseStack) -> Schema {
        let stack = parent_stack.with_type_layer::<[T]>();''')], '''
struct L;
impl KnownSchema for L {
    fn schema(parent: RecurseStack) -> Schema {
        if parent.find_type::<L>().map_or(false, |n| n > 6) {
            return Schema::Unit;
        }
        let stack = parent.with_type_layer::<Self>();
        let a = stack.parent_recurse::<[Option<L>; 2]>().unwrap_or_else(|| <[Option<L>; 2]>::schema(stack));
        if parent.parent_recurse::<[Option<L>; 2]>().is_some() {
            return schema!(struct { (x: %a) });
        }
        if let Some(s) = parent.with_none_layer().parent_recurse::<L>() {
            return s;
        }
        schema!(struct { (x: %a) })
    }
}
fn main() {
    let s = L::schema(RecurseStack::new());
    assert_eq!(s, schema!(struct { (x: seq(2)(option(struct { (x: recurse(3)) }))) }));
}
''')
bug("c30-by-name", "C30", "types of the same name in different modules, one on the stack of the other",
    "parents are found by the last part of their name",
    [(KS, "                if curr_val as usize == T::schema as usize {", '''                let last = |s: &'static str| s.rsplit("::").next();
                let _ = curr_val;
                if last(curr.dbg) == last(type_name::<T>()) {''')], '''
mod a {
    use super::*;
    #[derive(KnownSchema)]
    pub struct Node { pub x: Vec<super::b::Node> }
}
mod b {
    use super::*;
    #[derive(KnownSchema)]
    pub struct Node { pub y: u8 }
}
fn main() {
    assert_eq!(a::Node::schema(RecurseStack::new()), schema!(struct { (x: seq(varlen)(struct { (y: u8) })) }));
}
''')
bug("c13-by-name", "C13", "types of the same full name in nested blocks of one function",
    "parents are found by their full name",
    [(KS, "                if curr_val as usize == T::schema as usize {", '''                let _ = curr_val;
                if curr.dbg == type_name::<T>() {''')], '''
fn main() {
    #[derive(KnownSchema)]
    struct A { y: u8 }
    type Outer = A;
    {
        #[derive(KnownSchema)]
        struct A { x: Vec<Outer> }
        assert_eq!(A::schema(RecurseStack::new()), schema!(struct { (x: seq(varlen)(struct { (y: u8) })) }));
    }
}
''')
bug("c30-range-layer", "C30", "a hand-written declaration that refers to a range among its parents",
    "inclusive ranges put themselves on the stack of parents as ranges",
    [(KS, '''impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
    fn schema(parent_stack: RecurseStack) -> Schema {
        let stack = parent_stack.with_type_layer::<Self>();''', '''impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
    fn schema(parent_stack: RecurseStack) -> Schema {
        let stack = parent_stack.with_type_layer::<Range<T>>();''')], '''
use std::ops::{Range, RangeInclusive};
struct L;
impl KnownSchema for L {
    fn schema(parent: RecurseStack) -> Schema {
        // is it in a range, and in which?
        let in_range = parent.find_type::<Range<L>>().is_some();
        let in_inclusive = parent.find_type::<RangeInclusive<L>>().is_some();
        schema!(enum { End(unit), V(%Schema::Recurse(if in_range { 2 } else if in_inclusive { 1 } else { 0 })) })
    }
}
fn main() {
    match RangeInclusive::<L>::schema(RecurseStack::new()) {
        Schema::Struct(f) => assert_eq!(f[0].inner, schema!(enum { End(unit), V(recurse(1)) })),
        _ => panic!(),
    }
}
''')
