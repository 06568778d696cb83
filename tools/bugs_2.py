SRC = "binschema/src/"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[((f if "/" in f and f.startswith("binschema") else SRC + f), o, n) for f, o, n in edits],
                     demo="\n" + demo.strip("\n") + "\n", **kw))


bug("c08-variant-self", "C08",
    "a variant that recurses to its own enum, inside of which another variant recurses further up",
    "a variant that is recurse(1) is resolved early, and then counts the enum twice when levels are counted from inside it",
    [("coder/coder.rs", "        self.push_need(&variants[variant_ord].inner)?;\n", '''        self.push_need(match &variants[variant_ord].inner {
            &Schema::Recurse(1) => schema,
            inner => inner,
        })?;
''')], '''
fn main() {
    let s = schema!(option(enum { Again(recurse(1)), Up(recurse(2)) }));
    let b = enc(&s, |e| {
        e.begin_some()?;
        e.begin_enum(0, "Again")?;
        e.begin_enum(1, "Up")?;
        e.encode_none()
    }).unwrap();
    assert_eq!(b, [1, 0, 1, 0]);
}
''')

# ---------------------------------------------------------------- C10
bug("c10-shift", "C10", "a variable length integer of 20 bytes or more",
    "an overlong integer is read one byte too far, and overflows the shift",
    [("var_len.rs", '''            shift < 128,
            MalformedData,
            None,
            "too many bytes in var len uint",''', '''            shift <= 133,
            MalformedData,
            None,
            "too many bytes in var len uint",''')], '''
fn main() {
    let s = schema!(u32);
    let mut b = vec![0x80; 19];
    b.push(0);
    assert!(dec(&s, &b, |d| d.decode_u32()).is_err());
}
''')
bug("c10-value-reserve", "C10", "a hostile length, and at least one whole element after it",
    "Value::decode_from trusts the length of a seq for an allocation once the first element has arrived",
    [("value.rs", "                    elems.push(Value::decode_from(d)?);\n                }\n                d.finish_seq()?;\n                Value::VarLenSeq(elems)",
      '''                    let elem = Value::decode_from(d)?;
                    if elems.is_empty() {
                        elems.reserve_exact(len);
                    }
                    elems.push(elem);
                }
                d.finish_seq()?;
                Value::VarLenSeq(elems)''')], '''
fn main() {
    let s = schema!(seq(varlen)(u8));
    let mut b = enc(&schema!(u64), |e| e.encode_u64(1 << 60)).unwrap();
    b.push(7);
    assert!(dec(&s, &b, |d| Value::decode_from(d)).is_err());
}
''')
bug("c10-bool-unreachable", "C10", "a bool byte of 0xff, which some other encoders write for true",
    "the decoder panics on that byte",
    [("decoder.rs", '''        match n {
            0 => Ok(false),''', '''        match n as i8 {
            -1 => unreachable!(),
            0 => Ok(false),''')], '''
fn main() {
    let s = schema!(bool);
    assert!(dec(&s, &[255], |d| d.decode_bool()).is_err());
}
''')

# ---------------------------------------------------------------- C11
bug("c11-shrink", "C11", "a coder nested more than 32 deep whose allocation is used again",
    "a big allocation is shrunk after its pointer was taken, and the pointer dangles if that moves it",
    [("coder/coder_alloc.rs", '''        let ptr = stack.as_mut_ptr() as *mut ();
        let capacity = stack.capacity();
        forget(stack);''', '''        let ptr = stack.as_mut_ptr();
        // don't hold on to the memory of the one deeply nested value
        stack.shrink_to(32);
        let ptr = ptr as *mut ();
        let capacity = stack.capacity();
        forget(stack);''')], '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static BAD: AtomicUsize = AtomicUsize::new(0);
// the layout each block was made with precedes it
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 32, 16));
        *(p as *mut usize) = l.size();
        *(p as *mut usize).add(1) = 0x600D;
        p.add(32)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(32) as *mut usize;
        if *h != l.size() || *h.add(1) != 0x600D { BAD.fetch_add(1, SeqCst); return; }
        *h.add(1) = 0xBAD;
        // (never reused, so that what is freed twice is seen)
    }
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
    let s = schema!(option(recurse(1)));
    let mut alloc = CoderStateAlloc::new();
    for depth in [100, 3, 100] {
        let mut state = CoderState::new(&s, alloc, None);
        let mut buf = Vec::new();
        let mut e = Encoder::new(&mut state, &mut buf);
        for _ in 0..depth { e.begin_some().unwrap(); }
        e.encode_none().unwrap();
        assert_eq!(buf.len(), depth + 1);
        alloc = state.into_alloc();
    }
    drop(alloc);
    assert_eq!(BAD.load(SeqCst), 0);
}
''')
bug("c11-clone-alias", "C11", "cloning an allocation that has been used, then using or dropping both",
    "the clone of a used allocation is the same memory, which is then freed twice",
    [("coder/coder_alloc.rs", '''    fn clone(&self) -> Self {
        CoderStateAlloc::new()''', '''    fn clone(&self) -> Self {
        CoderStateAlloc { ptr: self.ptr, capacity: self.capacity }''')], '''
fn main() {
    let s = schema!(u8);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut buf = Vec::new();
    Encoder::new(&mut state, &mut buf).encode_u8(1).unwrap();
    let a = state.into_alloc();
    let b = a.clone();
    assert!(!shares(&a, &b));
}
fn shares(a: &CoderStateAlloc, b: &CoderStateAlloc) -> bool {
    let (x, y) = (format!("{:?}", a), format!("{:?}", b));
    if x == y { std::process::exit(1); }
    false
}
''')
bug("c11-leak-big", "C11", "dropping an allocation that has grown beyond 64 frames",
    "big allocations are never freed",
    [("coder/coder_alloc.rs", '''        unsafe {
            drop(Vec::from_raw_parts(
                self.ptr as *mut StackFrame<'_>,
                0,
                self.capacity,
            ));
        }''', '''        unsafe {
            let stack = Vec::from_raw_parts(
                self.ptr as *mut StackFrame<'_>,
                0,
                self.capacity,
            );
            if self.capacity > 64 {
                forget(stack);
            }
        }''')], '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
    let s = schema!(option(recurse(1)));
    let before = LIVE.load(SeqCst);
    {
        let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut buf = Vec::new();
        let mut e = Encoder::new(&mut state, &mut buf);
        for _ in 0..100 { e.begin_some().unwrap(); }
        e.encode_none().unwrap();
        drop(state.into_alloc());
    }
    assert_eq!(LIVE.load(SeqCst), before);
}
''')

# ---------------------------------------------------------------- C12
bug("c12-bound-swap", "C12", "a Bound that is Included or Excluded",
    "the schema of Bound has Included and Excluded the wrong way round for serde",
    [("known_schema.rs", '''            Included(%T::schema(stack)),
            Excluded(%T::schema(stack)),''', '''            Excluded(%T::schema(stack)),
            Included(%T::schema(stack)),''')], '''
use std::ops::Bound;
fn main() {
    let s = <Bound<u8> as KnownSchema>::schema(RecurseStack::new());
    let b = ser(&s, &Bound::Excluded(3u8)).unwrap();
    assert_eq!(de::<Bound<u8>>(&s, &b).unwrap(), Bound::Excluded(3));
}
''')
bug("c12-map-swap", "C12", "a map whose keys and values are of different types",
    "the schema of a map has the value before the key",
    [("known_schema.rs", '''                    (%K::schema(stack)),
                    (%V::schema(stack)),''', '''                    (%V::schema(stack)),
                    (%K::schema(stack)),''')], '''
use std::collections::BTreeMap;
fn main() {
    let s = <BTreeMap<u8, String> as KnownSchema>::schema(RecurseStack::new());
    let m: BTreeMap<u8, String> = [(1, "a".to_string())].into();
    let b = ser(&s, &m).unwrap();
    assert_eq!(de::<BTreeMap<u8, String>>(&s, &b).unwrap(), m);
}
''')
bug("c12-array-one", "C12", "an array of length 1",
    "an array of length 1 is declared to be its element",
    [("known_schema.rs", "        schema!(seq(LEN)(%T::schema(stack)))", '''        match LEN {
            1 => T::schema(parent_stack),
            _ => schema!(seq(LEN)(%T::schema(stack))),
        }''')], '''
fn main() {
    let s = <[u8; 1] as KnownSchema>::schema(RecurseStack::new());
    let b = ser(&s, &[7u8]).unwrap();
    assert_eq!(de::<[u8; 1]>(&s, &b).unwrap(), [7]);
}
''')

# ---------------------------------------------------------------- C13
TREE = '''
fn round<T: KnownSchema + serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(v: T) {
    let s = T::schema(RecurseStack::new());
    let b = ser(&s, &v).unwrap();
    assert_eq!(de::<T>(&s, &b).unwrap(), v);
}
'''
bug("c13-cow-layer", "C13", "a derived type that contains itself behind a Cow",
    "Cow counts as a level of the schema when the levels up to a containing type are counted",
    [("known_schema.rs", '''impl<'a, T: KnownSchema + ToOwned> KnownSchema for Cow<'a, T> {
    fn schema(parent_stack: RecurseStack) -> Schema {
        T::schema(parent_stack)''', '''impl<'a, T: KnownSchema + ToOwned> KnownSchema for Cow<'a, T> {
    fn schema(parent_stack: RecurseStack) -> Schema {
        let stack = parent_stack.with_type_layer::<Self>();
        T::schema(stack)''')], TREE + '''
use std::borrow::Cow;
#[derive(Clone, PartialEq, Debug, KnownSchema, serde::Serialize, serde::Deserialize)]
struct Node { v: u8, kids: Vec<Cow<'static, Node>> }
fn main() {
    let leaf = Node { v: 1, kids: vec![] };
    round(Node { v: 2, kids: vec![Cow::Owned(leaf.clone()), Cow::Owned(leaf)] });
}
''')
bug("c13-range-end", "C13", "a derived type that contains itself in a range",
    "the levels are counted wrongly through the end of a Range",
    [("known_schema.rs", '''impl<T: KnownSchema> KnownSchema for Range<T> {
    fn schema(parent_stack: RecurseStack) -> Schema {
        let stack = parent_stack.with_type_layer::<Self>();
        schema!(struct {
            (start: %T::schema(stack)),
            (end: %T::schema(stack)),''', '''impl<T: KnownSchema> KnownSchema for Range<T> {
    fn schema(parent_stack: RecurseStack) -> Schema {
        let stack = parent_stack.with_type_layer::<Self>();
        schema!(struct {
            (start: %T::schema(stack)),
            (end: %T::schema(parent_stack)),''')], TREE + '''
use std::ops::Range;
#[derive(Clone, PartialEq, Debug, KnownSchema, serde::Serialize, serde::Deserialize)]
enum Node { Leaf(u8), Span(Box<Range<Node>>) }
fn main() {
    round(Node::Span(Box::new(Node::Leaf(1)..Node::Leaf(2))));
}
''')
bug("c13-bound-excluded", "C13", "a derived type that contains itself in an excluded bound",
    "the levels are counted wrongly through Bound::Excluded",
    [("known_schema.rs", "            Excluded(%T::schema(stack)),", "            Excluded(%T::schema(parent_stack)),")], TREE + '''
use std::ops::Bound;
#[derive(Clone, PartialEq, Debug, KnownSchema, serde::Serialize, serde::Deserialize)]
enum Node { Leaf(u8), To(Box<Bound<Node>>) }
fn main() {
    round(Node::To(Box::new(Bound::Included(Node::Leaf(1)))));
    round(Node::To(Box::new(Bound::Excluded(Node::Leaf(1)))));
}
''')
bug("c13-map-value", "C13", "a derived type that contains itself as the value of a map",
    "the levels are counted wrongly through the values of a map",
    [("known_schema.rs", "                    (%V::schema(stack)),", "                    (%V::schema(parent_stack)),")], TREE + '''
use std::collections::BTreeMap;
#[derive(Clone, PartialEq, Debug, KnownSchema, serde::Serialize, serde::Deserialize)]
struct Dir { files: BTreeMap<String, Dir> }
fn main() {
    let leaf = Dir { files: BTreeMap::new() };
    round(Dir { files: [("a".to_string(), leaf)].into() });
}
''')

# ---------------------------------------------------------------- C14
bug("c14-len-prefix", "C14", "a tuple type deserialized under a schema with more elements",
    "a tuple type takes the first elements of a longer tuple, and reports success with the coder unfinished",
    [("serde/de.rs", "                len == got_len,", "                len >= got_len,")], '''
fn main() {
    let s = schema!(tuple { (u8), (u8), (u8) });
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut b: &[u8] = &[1, 2, 3];
    let v: Result<(u8, u8)> = serde::Deserialize::deserialize(&mut Decoder::new(&mut state, &mut b));
    assert!(v.is_err() || state.is_finished());
}
''')
bug("c14-unit-drops", "C14", "a seq that is not empty serialized under the unit schema",
    "the elements of a seq serialized under unit are dropped without an error",
    [("serde/ser.rs", '''            SeqLike::Unit => bail!(
                Other,
                Some(self.encoder.coder_state()),
                "serialize element to unit as seq-like",
            ),''', '''            SeqLike::Unit => return Ok(()),''')], '''
fn main() {
    let s = schema!(unit);
    ser(&s, &Vec::<u8>::new()).unwrap();
    assert!(ser(&s, &vec![1u8, 2]).is_err());
}
''')
bug("c14-unit-variant", "C14", "a unit variant deserialized where the schema's variant has content",
    "a unit variant is taken for one with content, which is left in the input",
    [("serde/de.rs", '''    fn unit_variant(self) -> Result<()> {
        self.decode_unit()''', '''    fn unit_variant(self) -> Result<()> {
        match self.need()? {
            &Schema::Unit => self.decode_unit(),
            // some other version's content, which we do not know
            _ => Ok(()),
        }''')], '''
#[derive(serde::Deserialize, Debug)]
enum E { A, B }
fn main() {
    let s = schema!(enum { A(unit), B(u8) });
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut b: &[u8] = &[1, 9];
    let v: Result<E> = serde::Deserialize::deserialize(&mut Decoder::new(&mut state, &mut b));
    assert!(v.is_err() || state.is_finished());
}
''')

# ---------------------------------------------------------------- C15
bug("c15-order", "C15", "a schema that has a str or bytes in it, encoded with the meta-schema",
    "str and bytes have swapped places in the meta-schema and in Schema: still self-consistent, but no longer the format "
    "that stored schemas are in",
    [("known_schema.rs", '''            Str(unit),
            Bytes(unit),''', '''            Bytes(unit),
            Str(unit),'''),
     ("schema.rs", '''    /// Utf8 string.
    Str,
    /// Byte string.
    Bytes,
    /// Unit''', '''    /// Byte string.
    Bytes,
    /// Utf8 string.
    Str,
    /// Unit''')], '''
fn main() {
    let m = <Schema as KnownSchema>::schema(RecurseStack::new());
    assert_eq!(ser(&m, &schema!(str)).unwrap(), [1]);
    assert_eq!(ser(&m, &schema!(bytes)).unwrap(), [2]);
}
''')
bug("c15-u128", "C15", "a schema that has a u128 or i8 in it, encoded with the meta-schema",
    "u128 and i8 have swapped places in the meta-schema and in ScalarType",
    [("known_schema.rs", '''                U128(unit),
                I8(unit),''', '''                I8(unit),
                U128(unit),'''),
     ("schema.rs", '''    /// Encoded var len.
    U128,
    /// Encoded as-is.
    I8,''', '''    /// Encoded as-is.
    I8,
    /// Encoded var len.
    U128,''')], '''
fn main() {
    let m = <Schema as KnownSchema>::schema(RecurseStack::new());
    assert_eq!(ser(&m, &schema!(u128)).unwrap(), [0, 4]);
    assert_eq!(ser(&m, &schema!(i8)).unwrap(), [0, 5]);
}
''')

# ---------------------------------------------------------------- C16
bug("c16-sint-wrap", "C16", "an i32 or i64 in the data that is out of range for it",
    "signed integers that do not fit are wrapped",
    [("decoder.rs", '''            read_var_len_sint(&mut self.read)
                .and_then(|n| $t::try_from(n)
''', '''            read_var_len_sint(&mut self.read)
                .and_then(|n| Ok::<$t, std::num::TryFromIntError>(n as $t)
''')], '''
fn main() {
    let b = enc(&schema!(i64), |e| e.encode_i64(1 << 40)).unwrap();
    assert!(dec(&schema!(i32), &b, |d| d.decode_i32()).is_err());
}
''')
bug("c16-sint-min", "C16", "i128::MIN",
    "encoding i128::MIN overflows",
    [("var_len.rs", '''    if neg {
        n = !n;
    }
    let curr_7_bits =''', '''    if neg {
        n = -n - 1;
    }
    let curr_7_bits =''')], '''
fn main() {
    let s = schema!(i128);
    let b = enc(&s, |e| e.encode_i128(i128::MIN)).unwrap();
    assert_eq!(dec(&s, &b, |d| d.decode_i128()).unwrap(), i128::MIN);
}
''')
bug("c16-sint-padded", "C16", "the integers 63 and -64 exactly",
    "integers that just fit in one byte take two",
    [("var_len.rs", '''    n >>= 6;
    let mut more = n != 0;
    let curr_byte''', '''    let mut more = n >= LO_6_BITS as i128;
    n >>= 6;
    let curr_byte''')], '''
fn main() {
    let s = schema!(i64);
    for (n, len) in [(62, 1), (63, 1), (64, 2), (-64, 1), (-65, 2)] {
        assert_eq!(enc(&s, |e| e.encode_i64(n)).unwrap().len(), len);
    }
}
''')

# ---------------------------------------------------------------- C17
bug("c17-error-text", "C17", "an I/O fault whose kind or payload the caller looks at",
    "the io::Error is reduced to its text",
    [("error.rs", "        Self::new(ErrorKind::Io, error, None)", "        Self::new(ErrorKind::Io, error.to_string(), None)")], '''
fn main() {
    let s = schema!(u16);
    let e = dec(&s, &[1], |d| d.decode_u16()).unwrap_err();
    assert_eq!(e.inner().downcast_ref::<io::Error>().unwrap().kind(), io::ErrorKind::UnexpectedEof);
}
''')
bug("c17-short-write", "C17", "a writer that takes only part of what it is given",
    "bytes that a short write left over are lost",
    [("encoder.rs", '''            .write_all(b)
            .map_err''', '''            .write(b)
            .map(|_| ())
            .map_err''')], '''
struct One(Vec<u8>);
impl Write for One {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(1);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(str);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = One(Vec::new());
    Encoder::new(&mut state, &mut w).encode_str("abc").unwrap();
    assert_eq!(w.0, [3, b'a', b'b', b'c']);
}
''')
bug("c17-eof-kind", "C17", "input that ends in the middle of a message",
    "the end of the input is reported as malformed data instead of the reader's error",
    [("error.rs", "        Self::new(ErrorKind::Io, error, None)", '''        let kind = match error.kind() {
            std::io::ErrorKind::UnexpectedEof => ErrorKind::MalformedData,
            _ => ErrorKind::Io,
        };
        Self::new(kind, error, None)''')], '''
fn main() {
    let s = schema!(u16);
    let e = dec(&s, &[1], |d| d.decode_u16()).unwrap_err();
    assert_eq!(e.kind(), ErrorKind::Io);
}
''')
bug("c17-interrupted", "C17", "a reader that reports Interrupted in the middle of a fixed-width scalar",
    "an interrupted read is not retried",
    [("decoder.rs", '''        self.read
            .read_exact(buf.borrow_mut())
''', '''        let mut rest: &mut [u8] = buf.borrow_mut();
        let mut res = Ok(());
        while !rest.is_empty() {
            match self.read.read(rest) {
                Ok(0) => {
                    res = Err(io::Error::from(io::ErrorKind::UnexpectedEof));
                    break;
                }
                Ok(n) => rest = &mut rest[n..],
                Err(e) => {
                    res = Err(e);
                    break;
                }
            }
        }
        res
''')], '''
struct Int(u8);
impl Read for Int {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 % 2 == 1 { return Err(io::ErrorKind::Interrupted.into()); }
        b[0] = self.0;
        Ok(1)
    }
}
fn main() {
    let s = schema!(u16);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    assert_eq!(Decoder::new(&mut state, &mut Int(0)).decode_u16().unwrap(), 0x0402);
}
''')

# ---------------------------------------------------------------- C18
bug("c18-log-fault", "C18", "a debug log whose sink fails",
    "a fault in the debug log breaks the coder",
    [("coder/coder.rs", '''            let _ = writeln!(dbg_log.write, "/>")
                .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));''', '''            if let Err(e) = writeln!(dbg_log.write, "/>") {
                eprintln!("IO error in coder dbg log: {}", e);
                $self.broken = true;
            }''')], '''
struct Bad;
impl Write for Bad {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::ErrorKind::Other.into()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(tuple { (u8), (u8) });
    let mut log = Bad;
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    let mut buf = Vec::new();
    let mut e = Encoder::new(&mut state, &mut buf);
    (|| { e.begin_tuple()?; e.begin_tuple_elem()?; e.encode_u8(1)?; e.begin_tuple_elem()?; e.encode_u8(1)?; e.finish_tuple() })().unwrap();
    assert!(state.is_finished());
}
''')
bug("c18-some-indent", "C18", "a some at the top of the schema, with a debug log",
    "the indentation of the debug log underflows when an option finishes",
    [("coder/coder.rs", '''        dbg_log_push!(self, "some");''', '''        dbg_log!(self, "some");''')], '''
fn main() {
    let s = schema!(option(u8));
    let mut log = Vec::new();
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    let mut buf = Vec::new();
    let mut e = Encoder::new(&mut state, &mut buf);
    e.begin_some().unwrap();
    e.encode_u8(1).unwrap();
    assert!(state.is_finished());
}
''')
bug("c18-empty-seq", "C18", "an empty seq, with a debug log",
    "the tag of an empty seq is never closed in the debug log, and what follows is indented by one too many",
    [("coder/coder.rs", '''        dbg_log_pop!(self, "seq");''', '''        if len > 0 {
            dbg_log_pop!(self, "seq");
        }''')], '''
fn main() {
    let s = schema!(seq(varlen)(u8));
    let mut log = Vec::new();
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    let mut buf = Vec::new();
    let mut e = Encoder::new(&mut state, &mut buf);
    e.begin_var_len_seq(0).unwrap();
    e.finish_seq().unwrap();
    drop(state);
    let log = String::from_utf8(log).unwrap();
    assert_eq!(log.matches("</").count(), 1, "{}", log);
}
''')

# ---------------------------------------------------------------- C19
bug("c19-raw-name", "C19", "a field name with a quote or newline in it",
    "field names are printed unescaped, so a name can pass for structure",
    [("schema.rs", '"field {} (name = {:?}):"', '"field {} (name = \\"{}\\"):"')], '''
fn main() {
    let s = Schema::Struct(vec![StructSchemaField { name: "a\\nb\\"".to_string(), inner: schema!(u8) }]);
    assert_eq!(s.pretty_fmt().lines().count(), 3);
}
''')
bug("c19-far", "C19", "a recurse of more than 16 levels",
    "the arrow of a recurse points at most 16 levels up",
    [("schema.rs", "for _ in 0..level - 1 {", "for _ in 0..(level - 1).min(15) {")], '''
fn main() {
    let n = 20;
    let mut s = schema!(recurse(n));
    for _ in 0..n { s = schema!(option(%s)); }
    let p = s.pretty_fmt();
    assert!(p.lines().next().unwrap().contains('<'), "{}", p);
    let s = schema!(option(recurse(17)));
    assert!(s.pretty_fmt().contains("[beyond root]"));
}
''')
bug("c19-len-zero", "C19", "a fixed length seq of length 0",
    "a seq of fixed length 0 is printed as one of variable length",
    [("schema.rs", "if let Some(fixed_len) = len {", "if let Some(fixed_len @ 1..) = len {")], '''
fn main() {
    assert_ne!(schema!(seq(0)(u8)).pretty_fmt(), schema!(seq(varlen)(u8)).pretty_fmt());
}
''')

# ---------------------------------------------------------------- C20
bug("c20-u128", "C20", "a u128 above u64::MAX, decoded by deserialize_any",
    "deserialize_any truncates u128 to 64 bits",
    [("serde/de.rs", "ScalarType::U128 => self.deserialize_u128(v),", "ScalarType::U128 => v.visit_u64(self.decode_u128()? as u64),")], '''
struct Any;
impl<'d> serde::de::Visitor<'d> for Any {
    type Value = u128;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("int") }
    fn visit_u64<E>(self, n: u64) -> std::result::Result<u128, E> { Ok(n as u128) }
    fn visit_u128<E>(self, n: u128) -> std::result::Result<u128, E> { Ok(n) }
}
fn main() {
    let s = schema!(u128);
    let n = (1u128 << 64) + 5;
    let b = enc(&s, |e| e.encode_u128(n)).unwrap();
    let m = dec(&s, &b, |d| serde::Deserializer::deserialize_any(d, Any)).unwrap();
    assert_eq!(m, n);
}
''')
bug("c20-ignored-some", "C20", "a field that the type does not know, holding a some",
    "ignoring a some leaves its content in the input",
    [("serde/de.rs", '''    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
        self.deserialize_any(v)''', '''    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
        match self.need_to_code()? {
            &Schema::Option(_) => {
                self.begin_option()?;
                v.visit_unit()
            }
            _ => self.deserialize_any(v),
        }''')], '''
fn main() {
    let s = schema!(option(u8));
    de::<serde::de::IgnoredAny>(&s, &[0]).unwrap();
    de::<serde::de::IgnoredAny>(&s, &[1, 5]).unwrap();
}
''')
bug("c20-any-i8", "C20", "a negative i8, decoded by deserialize_any",
    "deserialize_any presents an i8 as its bit pattern",
    [("serde/de.rs", "ScalarType::I8 => self.deserialize_i8(v),", "ScalarType::I8 => v.visit_u8(self.decode_i8()? as u8),")], '''
struct Any;
impl<'d> serde::de::Visitor<'d> for Any {
    type Value = i64;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("int") }
    fn visit_i64<E>(self, n: i64) -> std::result::Result<i64, E> { Ok(n) }
    fn visit_u64<E>(self, n: u64) -> std::result::Result<i64, E> { Ok(n as i64) }
}
fn main() {
    let s = schema!(i8);
    let m = dec(&s, &[0xff], |d| serde::Deserializer::deserialize_any(d, Any)).unwrap();
    assert_eq!(m, -1);
}
''')

# ---------------------------------------------------------------- C21
bug("c21-bytes-append", "C21", "decode_bytes_into a buffer that is not empty",
    "decode_bytes_into appends to what the buffer held",
    [("decoder.rs", '''    pub fn decode_bytes_into(&mut self, buf: &mut Vec<u8>) -> Result<()> {
        // always clear the buf, for consistency
        buf.clear();
''', '''    pub fn decode_bytes_into(&mut self, buf: &mut Vec<u8>) -> Result<()> {''')], '''
fn main() {
    let s = schema!(bytes);
    let mut buf = vec![9];
    dec(&s, &[1, 5], |d| d.decode_bytes_into(&mut buf)).unwrap();
    assert_eq!(buf, [5]);
}
''')
bug("c21-str-utf8", "C21", "decode_str_into of a str that is not UTF-8",
    "the buffer keeps the start of a str that turned out not to be UTF-8",
    [("decoder.rs", '''                let mut bbuf = e.into_bytes();
                bbuf.clear();''', '''                let valid = e.utf8_error().valid_up_to();
                let mut bbuf = e.into_bytes();
                bbuf.truncate(valid);''')], '''
fn main() {
    let s = schema!(str);
    let mut buf = String::from("old");
    assert!(dec(&s, &[3, b'a', b'b', 255], |d| d.decode_str_into(&mut buf)).is_err());
    assert_eq!(buf, "");
}
''')
bug("c21-clear-late", "C21", "decode_str_into where the schema does not need a str",
    "a refused decode_str_into leaves the old content in the buffer, where an accepted one clears it",
    [("decoder.rs", '''        buf.clear();

        self.state.code_str()?;
        let len = self.read_len()?;
''', '''        self.state.code_str()?;
        buf.clear();
        let len = self.read_len()?;
''')], '''
fn main() {
    let s = schema!(u8);
    let mut buf = String::from("old");
    assert!(dec(&s, &[3], |d| d.decode_str_into(&mut buf)).is_err());
    assert_eq!(buf, "");
}
''')

# ---------------------------------------------------------------- C22
bug("c22-human-readable", "C25", "a type that serializes differently for human readable formats, such as IpAddr",
    "the decoder calls itself human readable while the encoder does not",
    [("serde/de.rs", '''    fn is_human_readable(&self) -> bool {
        false''', '''    fn is_human_readable(&self) -> bool {
        true''')], '''
fn main() {
    let a: std::net::Ipv4Addr = "1.2.3.4".parse().unwrap();
    let s = schema!(seq(4)(u8));
    let b = ser(&s, &a).unwrap();
    assert_eq!(de::<std::net::Ipv4Addr>(&s, &b).unwrap(), a);
}
''')
bug("c22-skip-variant", "C22", "a struct variant that skips a field when serialized",
    "a skipped field of a struct variant is not written as none",
    [("serde/ser.rs", '''    fn end(self) -> Result<()> {
        self.finish_struct()
    }

    fn skip_field(&mut self, key: &'static str) -> Result<()> {
        self.begin_struct_field(key)?;
        self.encode_none()
    }
}

impl<'a, 'b, 'c, W: Write> SerializeStructVariant''', '''    fn end(self) -> Result<()> {
        self.finish_struct()
    }

    fn skip_field(&mut self, key: &'static str) -> Result<()> {
        self.begin_struct_field(key)?;
        if let &Schema::Unit = self.need_to_code()? {
            // nothing to leave out
            return self.encode_unit();
        }
        self.encode_none()
    }
}

impl<'a, 'b, 'c, W: Write> SerializeStructVariant''')] if False else
    [("serde/ser.rs", '''impl<'a, 'b, 'c, W: Write> SerializeStructVariant for &'c mut Encoder<'a, 'b, W> {
    type Ok = ();
    type Error = Error;

    fn serialize_field<T>(
        &mut self,
        key: &'static str,
        value: &T,
    ) -> Result<()>
    where
        T: Serialize + ?Sized,
    {
        self.begin_struct_field(key)?;
        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        self.finish_struct()
    }

    fn skip_field(&mut self, key: &'static str) -> Result<()> {
        self.begin_struct_field(key)?;
        self.encode_none()
    }
}''', '''impl<'a, 'b, 'c, W: Write> SerializeStructVariant for &'c mut Encoder<'a, 'b, W> {
    type Ok = ();
    type Error = Error;

    fn serialize_field<T>(
        &mut self,
        key: &'static str,
        value: &T,
    ) -> Result<()>
    where
        T: Serialize + ?Sized,
    {
        self.begin_struct_field(key)?;
        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        self.finish_struct()
    }
}''')], '''
#[derive(serde::Serialize)]
enum E { V { a: u8, #[serde(skip_serializing_if = "Option::is_none")] b: Option<u8>, c: u8 } }
fn main() {
    let s = schema!(enum { V(struct { (a: u8), (b: option(u8)), (c: u8) }) });
    assert_eq!(ser(&s, &E::V { a: 1, b: Some(2), c: 3 }).unwrap(), [1, 1, 2, 3]);
    assert_eq!(ser(&s, &E::V { a: 1, b: None, c: 3 }).unwrap(), [1, 0, 3]);
}
''')
bug("c22-some-empty", "C22", "a some whose content takes no memory but has a schema of its own, such as Some(\"\")",
    "a some of something that takes no memory is written as a some of unit",
    [("serde/ser.rs", '''        self.begin_some()?;
        value.serialize(self)''', '''        self.begin_some()?;
        match std::mem::size_of_val(value) {
            // nothing in it to serialize
            0 => self.encode_unit(),
            _ => value.serialize(self),
        }''')], '''
struct S(&'static str);
impl serde::Serialize for S {
    fn serialize<X: serde::Serializer>(&self, x: X) -> std::result::Result<X::Ok, X::Error> { x.serialize_some(self.0) }
}
fn main() {
    let s = schema!(option(str));
    assert_eq!(ser(&s, &S("a")).unwrap(), [1, 1, b'a']);
    assert_eq!(ser(&s, &S("")).unwrap(), [1, 0]);
}
''')

# ---------------------------------------------------------------- C23
bug("c23-enum-name", "C23", "a dynamic enum value with the right ordinal and a wrong variant name",
    "a dynamic enum value is encoded by its ordinal whatever its variant's name is",
    [("value.rs", '''                e.begin_enum(variant_ord, variant_name)?;''', '''                let name = match e.need()? {
                    &Schema::Enum(ref variants) => variants
                        .get(variant_ord)
                        .map(|variant| &variant.name)
                        .unwrap_or(variant_name),
                    _ => variant_name,
                };
                e.begin_enum(variant_ord, name)?;''')], '''
fn main() {
    let s = schema!(enum { A(unit), B(unit) });
    let v = |n: &str| Value::Enum(EnumValue { variant_ord: 1, variant_name: n.into(), value: Box::new(Value::Unit) });
    assert!(enc(&s, |e| v("B").encode_to(e)).is_ok());
    assert!(enc(&s, |e| v("C").encode_to(e)).is_err());
}
''')
bug("c23-empty-tuple", "C23", "an empty dynamic tuple under the unit schema",
    "an empty dynamic tuple is encoded under unit",
    [("value.rs", '''            &Value::Tuple(ref elems) => {
                e.begin_tuple()?;''', '''            &Value::Tuple(ref elems) => {
                match e.need() {
                    Ok(&Schema::Unit) if elems.is_empty() => return e.encode_unit(),
                    _ => e.begin_tuple()?,
                }''')], '''
fn main() {
    assert!(enc(&schema!(tuple {}), |e| Value::Tuple(vec![]).encode_to(e)).is_ok());
    assert!(enc(&schema!(unit), |e| Value::Tuple(vec![]).encode_to(e)).is_err());
}
''')
bug("c23-fixed-var", "C23", "a dynamic fixed length seq under a variable length seq schema",
    "a dynamic fixed length seq is encoded under a variable length seq schema",
    [("value.rs", '''            &Value::FixedLenSeq(ref elems) => {
                e.begin_fixed_len_seq(elems.len())?;''', '''            &Value::FixedLenSeq(ref elems) => {
                match e.need() {
                    Ok(&Schema::Seq(SeqSchema { len: None, .. })) => e.begin_var_len_seq(elems.len())?,
                    _ => e.begin_fixed_len_seq(elems.len())?,
                }''')], '''
fn main() {
    let v = Value::FixedLenSeq(vec![Value::Unit]);
    assert!(enc(&schema!(seq(1)(unit)), |e| v.encode_to(e)).is_ok());
    assert!(enc(&schema!(seq(varlen)(unit)), |e| v.encode_to(e)).is_err());
}
''')

# ---------------------------------------------------------------- C24
bug("c24-ord-cache", "C24", "threads that code enums of different sizes at the same time",
    "the byte length of ordinals is cached in two statics, which threads update in between one another",
    [("var_len.rs", '''    let mut mask = !0;
    let mut bytes = 0;

    while (mask & max_ord) != 0 {
        mask <<= 8;
        bytes += 1;
    }

    bytes
}''', '''    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static LAST_MAX: AtomicUsize = AtomicUsize::new(0);
    static LAST_LEN: AtomicUsize = AtomicUsize::new(0);
    if LAST_MAX.load(SeqCst) == max_ord {
        return LAST_LEN.load(SeqCst);
    }

    let mut mask = usize::MAX;
    let mut bytes = 0;

    while (mask & max_ord) != 0 {
        mask <<= 8;
        bytes += 1;
    }

    LAST_LEN.store(bytes, SeqCst);
    LAST_MAX.store(max_ord, SeqCst);
    bytes
}''')], '''
fn many(n: usize) -> Schema {
    Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: String::new(), inner: schema!(unit) }).collect())
}
fn main() {
    let ts: Vec<_> = [1usize, 256, 257, 2, 1000, 3].iter().map(|&n| std::thread::spawn(move || {
        let s = many(n);
        let want = match n { 1 => 0, 2..=256 => 1, _ => 2 };
        for _ in 0..200_000 {
            let b = enc(&s, |e| { e.begin_enum(n - 1, "")?; e.encode_unit() }).unwrap();
            assert_eq!(b.len(), want);
        }
    })).collect();
    for t in ts { t.join().unwrap(); }
}
''', release=True)
bug("c24-scratch", "C24", "a reader that itself decodes, on the same thread, while a str is read from it",
    "decode_str reads into a buffer that all coders of the thread share and that is locked while reading",
    [("decoder.rs", '''        let mut buf = String::new();
        self.decode_str_into(&mut buf)?;
        Ok(buf)''', '''        thread_local! {
            static SCRATCH: std::cell::RefCell<String> = Default::default();
        }
        SCRATCH.with(|scratch| {
            let mut buf = scratch.borrow_mut();
            self.decode_str_into(&mut buf)?;
            Ok(buf.clone())
        })''')], '''
struct Nest(Vec<u8>);
impl Read for Nest {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.len() < 4 {
            let s = schema!(str);
            assert_eq!(dec(&s, &[1, b'x'], |d| d.decode_str()).unwrap(), "x");
        }
        let n = b.len().min(self.0.len()).min(1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0.drain(..n);
        Ok(n)
    }
}
fn main() {
    let s = schema!(str);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    assert_eq!(Decoder::new(&mut state, &mut Nest(vec![3, b'a', b'b', b'c'])).decode_str().unwrap(), "abc");
}
''')
