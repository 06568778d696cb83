SRC = "binschema/src/"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[((f if "/" in f and f.startswith("binschema") else SRC + f), o, n) for f, o, n in edits],
                     demo="\n" + demo.strip("\n") + "\n", **kw))


# ---------------------------------------------------------------- C01
bug("c01-str-64k", "C01", "a str of 65536 bytes or more",
    "the length of a str is written modulo 2^16 when it needs more than two bytes of it",
    [("encoder.rs", '''        self.state.code_str()?;
        write_var_len_uint(&mut self.write, s.len() as u128)''', '''        self.state.code_str()?;
        write_var_len_uint(&mut self.write, s.len() as u16 as u128)''')], '''
fn main() {
    let s = schema!(str);
    let b = enc(&s, |e| e.encode_str(&"x".repeat(70000))).unwrap();
    assert_eq!(&b[..3], &[0xf0, 0xa2, 0x04]);
}
''')
bug("c01-len-32", "C01", "a variable length seq that announces 2^32 elements or more",
    "the length of a seq is written modulo 2^32",
    [("encoder.rs", "        write_var_len_uint(&mut self.write, len as u128)\n", "        write_var_len_uint(&mut self.write, len as u32 as u128)\n")], '''
fn main() {
    let s = schema!(seq(varlen)(unit));
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut buf = Vec::new();
    Encoder::new(&mut state, &mut buf).begin_var_len_seq(1 << 32).unwrap();
    assert_eq!(buf, [0x80, 0x80, 0x80, 0x80, 0x10]);
}
''')

# ---------------------------------------------------------------- C02
bug("c02-value-snan", "C02", "a signalling NaN in an f32, decoded as a dynamic value",
    "decoding a dynamic f32 goes through f64, which makes a signalling NaN quiet",
    [("value.rs", "ScalarValue::F32(d.decode_f32()?)", "ScalarValue::F32(std::hint::black_box(d.decode_f32()? as f64) as f32)")], '''
fn main() {
    let s = schema!(f32);
    let v = dec(&s, &0x7fa0_0001u32.to_le_bytes(), |d| Value::decode_from(d)).unwrap();
    match v {
        Value::Scalar(ScalarValue::F32(x)) => assert_eq!(x.to_bits(), 0x7fa0_0001),
        _ => panic!(),
    }
}
''')
bug("c02-i128-high", "C02", "an i128 of magnitude 2^124 or more",
    "the last group of the largest signed integers is shifted wrongly",
    [("var_len.rs", "        n |= ((curr_byte & LO_7_BITS) as i128) << shift;", "        n |= ((curr_byte & LO_7_BITS) as i128) << shift.min(124);")], '''
fn main() {
    let s = schema!(i128);
    for n in [i128::MAX / 3, i128::MIN / 5 * 2, i128::MAX] {
        let b = enc(&s, |e| e.encode_i128(n)).unwrap();
        assert_eq!(dec(&s, &b, |d| d.decode_i128()).unwrap(), n);
    }
}
''')

# ---------------------------------------------------------------- C04
bug("c04-fixed-len-32", "C04", "a fixed length that differs from the schema's by a multiple of 2^32",
    "begin_fixed_len_seq compares the low 32 bits of the lengths",
    [("coder/coder.rs", '''            fixed_len == len,
            SchemaNonConformance,''', '''            fixed_len as u32 == len as u32,
            SchemaNonConformance,''')], '''
fn main() {
    let s = schema!(seq(2)(u8));
    assert!(enc(&s, |e| {
        let r = e.begin_fixed_len_seq((1 << 32) + 2);
        assert!(r.is_err());
        e.begin_fixed_len_seq(2)?;
        for i in 0..2 {
            e.begin_seq_elem()?;
            e.encode_u8(i)?;
        }
        e.finish_seq()
    }).is_ok());
}
''')
bug("c04-field-long", "C04", "field names that agree in their first 32 bytes",
    "begin_struct_field compares the first 32 bytes of names only",
    [("coder/coder.rs", "            &field.name == name,\n", "            field.name.bytes().take(32).eq(name.bytes().take(32)),\n")], '''
fn main() {
    let s = schema!(struct { (a_rather_long_name_of_a_field_number_one: u8) });
    assert!(enc(&s, |e| {
        e.begin_struct()?;
        e.begin_struct_field("a_rather_long_name_of_a_field_number_two")?;
        e.encode_u8(1)?;
        e.finish_struct()
    }).is_err());
}
''')
bug("c04-seq-finish-unit", "C04", "a variable length seq of units, finished before the last element",
    "finish_seq lets trailing elements which take no bytes be left out",
    [("coder/coder.rs", '''                &mut StackFrame {
                    api_state: ApiState::Seq {
                        len,
                        next,
                    },
                    ..
                } => (len, next),
                "seq finish"''', '''                &mut StackFrame {
                    schema,
                    api_state: ApiState::Seq {
                        len,
                        next,
                    },
                    ..
                } => match schema {
                    &Schema::Seq(SeqSchema { ref inner, .. }) if **inner == Schema::Unit => (next, next),
                    _ => (len, next),
                },
                "seq finish"''')], '''
fn main() {
    let s = schema!(seq(varlen)(unit));
    assert!(enc(&s, |e| {
        e.begin_var_len_seq(3)?;
        e.finish_seq()
    }).is_err());
}
''')

# ---------------------------------------------------------------- C05
bug("c05-seq-elem-past", "C05", "an element begun past the end of a seq, and refused",
    "begin_seq_elem counts an element before it refuses it, and the seq can no longer be finished",
    [("coder/coder.rs", '''        ensure!(
            *next < len,
            ApiUsage,
            Some(self),
            "begin seq elem at idx {}, but that is seq's declared len",
            *next
        );
        *next += 1;
''', '''        *next += 1;
        ensure!(
            *next <= len,
            ApiUsage,
            Some(self),
            "begin seq elem past seq's declared len {}",
            len
        );
''')], '''
fn main() {
    let s = schema!(seq(1)(u8));
    enc(&s, |e| {
        e.begin_fixed_len_seq(1)?;
        e.begin_seq_elem()?;
        e.encode_u8(1)?;
        assert!(e.begin_seq_elem().is_err());
        e.finish_seq()
    }).unwrap();
}
''')
bug("c05-none-written", "C05", "encode_none where something else than an option is needed",
    "encode_none writes its byte before the call is checked",
    [("encoder.rs", '''        self.state.begin_option()?;
        self.state.set_option_none();
        self.write(&[0])?;
''', '''        if matches!(self.state.need(), Ok(&Schema::Option(_)) | Ok(&Schema::Unit)) {
            self.write(&[0])?;
        }
        self.state.begin_option()?;
        self.state.set_option_none();
''')], '''
fn main() {
    let s = schema!(tuple { (unit), (u8) });
    let b = enc(&s, |e| {
        e.begin_tuple()?;
        e.begin_tuple_elem()?;
        assert!(e.encode_none().is_err());
        e.encode_unit()?;
        e.begin_tuple_elem()?;
        e.encode_u8(7)?;
        e.finish_tuple()
    }).unwrap();
    assert_eq!(b, [7]);
}
''')
bug("c05-bytes-len-read", "C05", "decode_bytes_into where a str is needed",
    "decode_bytes reads the length before the call is refused, if a str is needed",
    [("decoder.rs", '''        self.state.code_bytes()?;
''', '''        let refused = self.state.code_bytes();
        if refused.is_err() && matches!(self.state.need(), Ok(&Schema::Str)) {
            self.read_len()?;
        }
        refused?;
''')], '''
fn main() {
    let s = schema!(str);
    let v = dec(&s, &[1, b'a'], |d| {
        assert!(d.decode_bytes().is_err());
        d.decode_str()
    }).unwrap();
    assert_eq!(v, "a");
}
''')

# ---------------------------------------------------------------- C06
bug("c06-some-write", "C06", "a writer that fails at the marker of a some",
    "begin_some does not break the encoder if its byte cannot be written",
    [("encoder.rs", '''        self.state.set_option_some()?;
        self.write(&[1])?;
''', '''        self.state.set_option_some()?;
        self.write.write_all(&[1])?;
''')], '''
struct Full;
impl Write for Full {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, "full")) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(option(unit));
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = Full;
    let mut e = Encoder::new(&mut state, &mut w);
    assert!(e.begin_some().is_err());
    assert!(e.encode_unit().is_err());
    assert!(!state.is_finished());
}
''')
bug("c06-ord-write", "C06", "a writer that fails at an enum's ordinal",
    "begin_enum does not break the encoder if the ordinal cannot be written",
    [("encoder.rs", '''        write_ord(&mut self.write, variant_ord, num_variants)
            .do_if_err(|| self.state.mark_broken())?;
''', '''        write_ord(&mut self.write, variant_ord, num_variants)?;
''')], '''
struct Full;
impl Write for Full {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, "full")) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(enum { A(unit), B(unit) });
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = Full;
    let mut e = Encoder::new(&mut state, &mut w);
    assert!(e.begin_enum(1, "B").is_err());
    assert!(e.encode_unit().is_err());
    assert!(!state.is_finished());
}
''')
bug("c06-bool-write", "C06", "a writer that fails at a bool",
    "encode_bool does not break the encoder if its byte cannot be written",
    [("encoder.rs", "        self.write(&[b as u8])?;\n", "        self.write.write_all(&[b as u8])?;\n")], '''
struct Full;
impl Write for Full {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, "full")) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(bool);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = Full;
    assert!(Encoder::new(&mut state, &mut w).encode_bool(true).is_err());
    assert!(!state.is_finished());
}
''')

# ---------------------------------------------------------------- C07
bug("c07-or-err", "C07", "an I/O error while the last piece is coded",
    "is_finished_or_err only asks whether anything is left to code",
    [("coder/coder.rs", '''    pub fn is_finished_or_err(&self) -> Result<()> {
        if self.is_finished() {''', '''    pub fn is_finished_or_err(&self) -> Result<()> {
        if self.stack.is_empty() {''')], '''
fn main() {
    let s = schema!(u16);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut b: &[u8] = &[1];
    assert!(Decoder::new(&mut state, &mut b).decode_u16().is_err());
    assert!(!state.is_finished());
    assert!(state.is_finished_or_err().is_err());
}
''')
bug("c07-struct-open", "C07", "a struct whose last field was coded, and which was not finished yet",
    "the coder reports finished when nothing but finishing the outermost struct is left",
    [("coder/coder.rs", "        self.stack.is_empty() && !self.broken", '''        !self.broken && match self.stack.as_slice() {
            &[] => true,
            &[StackFrame {
                schema: &Schema::Struct(ref fields),
                api_state: ApiState::Struct { next },
                ..
            }] => next > 0 && next == fields.len(),
            _ => false,
        }''')], '''
fn main() {
    let s = schema!(struct { (a: u8) });
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut b: &[u8] = &[1];
    let mut d = Decoder::new(&mut state, &mut b);
    d.begin_struct().unwrap();
    d.begin_struct_field("a").unwrap();
    d.decode_u8().unwrap();
    assert!(!d.coder_state().is_finished());
    d.finish_struct().unwrap();
    assert!(state.is_finished());
}
''')

# ---------------------------------------------------------------- C11
bug("c11-clone-layout", "C11", "a clone of an allocation that was used, when it is dropped",
    "the clone of a used allocation has a capacity that its memory was not allocated with",
    [("coder/coder_alloc.rs", '''    fn clone(&self) -> Self {
        CoderStateAlloc::new()''', '''    fn clone(&self) -> Self {
        let mut like = CoderStateAlloc::from_stack(Vec::with_capacity(self.capacity / 2 * 2));
        if self.capacity > 32 {
            like.capacity = self.capacity / 2;
        }
        like''')], '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let mut s = schema!(u8);
    for _ in 0..100 {
        s = schema!(option(%s));
    }
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut buf = Vec::with_capacity(1000);
    for _ in 0..100 {
        Encoder::new(&mut state, &mut buf).begin_some().unwrap();
    }
    let alloc = state.into_alloc();
    let before = LIVE.load(Ordering::SeqCst);
    drop(alloc.clone());
    assert_eq!(LIVE.load(Ordering::SeqCst), before);
}
''')

# ---------------------------------------------------------------- C12
bug("c12-array-zero", "C12", "an array of length 0",
    "an array of length 0 declares unit, under which it round-trips all the same",
    [("known_schema.rs", "        schema!(seq(LEN)(%T::schema(stack)))", '''        match LEN {
            0 => schema!(unit),
            len => schema!(seq(len)(%T::schema(stack))),
        }''')], '''
fn main() {
    assert_eq!(<[u8; 0]>::schema(RecurseStack::new()), schema!(seq(0)(u8)));
}
''')
bug("c12-heap-like", "C12", "a set or heap of something whose schema is a unit",
    "collections of units are declared as tuples of nothing",
    [("known_schema.rs", '''                let stack = parent_stack.with_type_layer::<Self>();
                schema!(seq(varlen)(%T::schema(stack)))''', '''                let stack = parent_stack.with_type_layer::<Self>();
                match T::schema(stack) {
                    Schema::Unit => schema!(seq(varlen)(tuple {})),
                    inner => schema!(seq(varlen)(%inner)),
                }''')], '''
fn main() {
    assert_eq!(<Vec<()>>::schema(RecurseStack::new()), schema!(seq(varlen)(unit)));
}
''')

# ---------------------------------------------------------------- C13
bug("c13-array-layer", "C13", "a recursive type that recurses from within an array",
    "an array does not count as a level of the schema when the levels up to a containing type are counted",
    [("known_schema.rs", '''        let stack = parent_stack.with_type_layer::<Self>();
        schema!(seq(LEN)(%T::schema(stack)))''', '''        schema!(seq(LEN)(%T::schema(parent_stack)))''')], '''
#[derive(serde::Serialize, serde::Deserialize, KnownSchema, PartialEq, Debug)]
enum Tree { Leaf(u8), Pair([Box<Tree>; 2]) }
fn main() {
    let s = Tree::schema(RecurseStack::new());
    let t = Tree::Pair([Box::new(Tree::Leaf(1)), Box::new(Tree::Pair([Box::new(Tree::Leaf(2)), Box::new(Tree::Leaf(3))]))]);
    let b = ser(&s, &t).unwrap();
    assert_eq!(de::<Tree>(&s, &b).unwrap(), t);
}
''')
bug("c13-tuple-tail", "C13", "a recursive type that recurses from within a tuple of four or more",
    "the levels are counted wrongly inside tuples of more than three",
    [("known_schema.rs", '''                let stack = parent_stack.with_type_layer::<Self>();
                schema!(tuple {$(
                    (%$t::schema(stack)),
                )*})''', '''                let mut stack = parent_stack.with_type_layer::<Self>();
                if [$(stringify!($t)),*].len() > 3 {
                    stack = parent_stack;
                }
                schema!(tuple {$(
                    (%$t::schema(stack)),
                )*})''')], '''
#[derive(serde::Serialize, serde::Deserialize, KnownSchema, PartialEq, Debug)]
struct Node { next: Option<(u8, u8, u8, Box<Node>)> }
fn main() {
    let s = Node::schema(RecurseStack::new());
    let t = Node { next: Some((1, 2, 3, Box::new(Node { next: Some((4, 5, 6, Box::new(Node { next: None }))) }))) };
    let b = ser(&s, &t).unwrap();
    assert_eq!(de::<Node>(&s, &b).unwrap(), t);
}
''')

# ---------------------------------------------------------------- C14
bug("c14-widen", "C14", "a u32 serialized where a u64 is needed",
    "serializing a u32 under u64 is silently accepted",
    [("serde/ser.rs", '''    fn serialize_none(self) -> Result<()> {''', '''    fn serialize_u32(self, v: u32) -> Result<()> {
        match self.need_to_code() {
            Ok(&Schema::Scalar(crate::ScalarType::U64)) => self.encode_u64(v as u64),
            _ => self.encode_u32(v),
        }
    }

    fn serialize_none(self) -> Result<()> {'''),
     ("serde/ser.rs", "        serialize_u32(u32), encode_u32;\n", "")], '''
fn main() {
    assert!(ser(&schema!(u64), &5u32).is_err());
}
''')
bug("c14-char-str", "C14", "a type that asks for a str, where the message has a char",
    "a str is read from a char",
    [("serde/de.rs", "        deserialize_string, visit_string, decode_str;\n", ""),
     ("serde/de.rs", "    fn deserialize_unit<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {", '''    fn deserialize_string<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
        if matches!(self.need_to_code(), Ok(&Schema::Scalar(ScalarType::Char))) {
            return v.visit_string(self.decode_char()?.to_string());
        }
        v.visit_string(self.decode_str()?)
    }

    fn deserialize_unit<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {''')], '''
fn main() {
    assert!(de::<String>(&schema!(char), &[b'a']).is_err());
}
''')
bug("c14-struct-tail", "C14", "a struct type with fewer fields than the schema's struct",
    "a struct type that lacks the last fields of the message is filled from the first ones",
    [("serde/de.rs", '''        let value = seed.deserialize(&mut *self.decoder)?;

        if self.remaining.is_empty() {
            self.decoder.finish_struct()?;
        }
''', '''        let value = seed.deserialize(&mut *self.decoder)?;

        if self.remaining.is_empty() && self.decoder.finish_struct().is_err() {
            // the rest is not asked for
        }
''')], '''
#[derive(serde::Deserialize)]
struct Two { a: u8, b: u8 }
fn main() {
    let s = schema!(struct { (a: u8), (b: u8), (c: u8) });
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut b: &[u8] = &[1, 2, 3];
    use serde::Deserialize;
    assert!(Two::deserialize(&mut Decoder::new(&mut state, &mut b)).is_err());
}
''')

# ---------------------------------------------------------------- C15
bug("c15-seq-fields", "C15", "a schema with a seq, stored or sent to another version",
    "the two fields of a seq have swapped places in the meta-schema and in SeqSchema",
    [("known_schema.rs", '''                (len: option(u64)),
                (inner: recurse(2)),
''', '''                (inner: recurse(2)),
                (len: option(u64)),
'''),
     ("schema.rs", '''    pub len: Option<usize>,
    pub inner: Box<Schema>,
''', '''    pub inner: Box<Schema>,
    pub len: Option<usize>,
''')], '''
fn main() {
    let b = ser(&<Schema as KnownSchema>::schema(RecurseStack::new()), &schema!(seq(3)(str))).unwrap();
    assert_eq!(b, [5, 1, 3, 1]);
}
''')

# ---------------------------------------------------------------- C17
bug("c17-ord-short", "C17", "a reader that delivers the bytes of an ordinal one by one, in an enum of more than 256 variants",
    "the bytes of an ordinal are read by a single read call",
    [("var_len.rs", "    read.read_exact(used_bytes)?;\n", '''    let (first, rest) = used_bytes.split_at_mut(used_bytes.len().min(1));
    read.read_exact(first)?;
    if !rest.is_empty() && read.read(rest)? == 0 {
        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
    }
''')], '''
struct Slow<'a>(&'a [u8]);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(1).min(self.0.len());
        self.0.read(&mut b[..n])
    }
}
fn main() {
    let s = Schema::Enum((0..70000).map(|i| (format!("V{i}"), Schema::Unit).into()).collect());
    let mut r = Slow(&[0x01, 0x02, 0x01]);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    assert_eq!(Decoder::new(&mut state, &mut r).begin_enum().unwrap(), 0x10201);
}
''')
bug("c17-uint-write-zero", "C17", "a writer that accepts nothing, at the second byte of an integer",
    "a byte of an integer which the writer does not accept is dropped without an error",
    [("var_len.rs", '''        n >>= 7;
        more = n != 0;
        let curr_byte = ((more as u8) << 7) | curr_7_bits;
        write.write_all(&[curr_byte])?;
    }
    Ok(())
}

/// Read a variable length unsigned int.''', '''        n >>= 7;
        more = n != 0;
        let curr_byte = ((more as u8) << 7) | curr_7_bits;
        match write.write(&[curr_byte]) {
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => write.write_all(&[curr_byte])?,
            r => { r?; }
        }
    }
    Ok(())
}

/// Read a variable length unsigned int.''')], '''
fn main() {
    let s = schema!(u32);
    let mut buf = [0u8; 1];
    let mut w: &mut [u8] = &mut buf;
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    assert!(Encoder::new(&mut state, &mut w).encode_u32(300).is_err());
}
''')

# ---------------------------------------------------------------- C18
bug("c18-ord-tag", "C18", "an enum of more than 256 variants",
    "the debug log opens a tag for a large ordinal and never closes it",
    [("coder/coder.rs", '''        dbg_log!(self, "variant ord = {}", variant_ord);
''', '''        if variant_ord < 256 {
            dbg_log!(self, "variant ord = {}", variant_ord);
        } else {
            dbg_log_push!(self, "variant ord = {}", variant_ord);
        }
''')], '''
fn main() {
    let s = Schema::Enum((0..300).map(|i| (format!("V{i}"), Schema::Unit).into()).collect());
    let mut log = Vec::new();
    let mut buf = Vec::new();
    {
        let mut state = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
        let mut e = Encoder::new(&mut state, &mut buf);
        e.begin_enum(280, "V280").unwrap();
        e.encode_unit().unwrap();
    }
    let log = String::from_utf8(log).unwrap();
    let open = log.lines().filter(|l| { let l = l.trim(); !l.starts_with("</") && !l.ends_with("/>") }).count();
    let close = log.lines().filter(|l| l.trim().starts_with("</")).count();
    assert_eq!(open, close, "{log}");
}
''')
bug("c18-retire-log", "C18", "a half-finished session whose allocation is taken back",
    "taking the allocation out of a half-finished coder writes to the debug log",
    [("coder/coder.rs", '''        self.stack.clear();
        CoderStateAlloc::from_stack(self.stack)''', '''        while self.stack.pop().is_some() {
            if self.stack.len() == 1 {
                dbg_log!(self, "abandoned");
            }
        }
        CoderStateAlloc::from_stack(self.stack)''')], '''
fn main() {
    let s = schema!(option(u8));
    let mut log = Vec::new();
    let mut buf = Vec::new();
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    Encoder::new(&mut state, &mut buf).begin_some().unwrap();
    state.into_alloc();
    assert_eq!(String::from_utf8(log).unwrap().lines().count(), 1);
}
''')

# ---------------------------------------------------------------- C19
bug("c19-len-signed", "C19", "a fixed length of 2^63 or more",
    "large fixed lengths are printed as negative numbers",
    [("schema.rs", '''write!(&mut line, "length = {}", fixed_len).unwrap();''', '''write!(&mut line, "length = {}", fixed_len as isize).unwrap();''')], '''
fn main() {
    let s = schema!(seq(usize::MAX)(unit));
    assert!(s.pretty_fmt().contains("18446744073709551615"));
}
''')
bug("c19-element-index", "C19", "a tuple of more than 256 elements",
    "the numbers of the elements of a tuple wrap around",
    [("schema.rs", '''write!(&mut line, "element {}:", i).unwrap();''', '''write!(&mut line, "element {}:", i as u8).unwrap();''')], '''
fn main() {
    let s = Schema::Tuple(vec![Schema::Unit; 300]);
    assert!(s.pretty_fmt().contains("element 299:"));
}
''')

# ---------------------------------------------------------------- C20
bug("c20-any-snan", "C20", "a signalling NaN in an f32, decoded without knowing the type",
    "deserialize_any presents an f32 as an f64",
    [("serde/de.rs", "                ScalarType::F32 => self.deserialize_f32(v),\n", "                ScalarType::F32 => v.visit_f64(self.decode_f32()? as f64),\n")], '''
use serde::Deserializer;
struct Seen;
impl<'d> serde::de::Visitor<'d> for Seen {
    type Value = u32;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("f32") }
    fn visit_f32<E>(self, x: f32) -> std::result::Result<u32, E> { Ok(x.to_bits()) }
    fn visit_f64<E>(self, x: f64) -> std::result::Result<u32, E> { Ok((x as f32).to_bits()) }
}
fn main() {
    let s = schema!(f32);
    let b = 0x7fa0_0001u32.to_le_bytes();
    assert_eq!(dec(&s, &b, |d| d.deserialize_any(Seen)).unwrap(), 0x7fa0_0001);
}
''')
bug("c20-ignored-last", "C20", "a message ending in an empty variable length seq that is ignored",
    "ignoring a variable length seq stops before an empty one inside it is finished",
    [("serde/de.rs", '''    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
        self.deserialize_any(v)''', '''    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
        match self.need_to_code()? {
            &Schema::Seq(SeqSchema { len: None, .. }) => {
                let remaining = self.begin_var_len_seq()?;
                v.visit_seq(SeqDecoder { remaining, seq_like: SeqLike::Seq, decoder: self })
            }
            _ => self.deserialize_any(v),
        }''')], '''
fn main() {
    let s = schema!(seq(varlen)(u8));
    de::<serde::de::IgnoredAny>(&s, &[0]).unwrap();
}
''')

# ---------------------------------------------------------------- C21
bug("c21-bytes-clear-late", "C21", "decode_bytes_into refused, with a used buffer",
    "a refused decode_bytes_into leaves the old content in the buffer",
    [("decoder.rs", '''        // always clear the buf, for consistency
        buf.clear();

        self.state.code_bytes()?;
''', '''        self.state.code_bytes()?;
        buf.clear();
''')], '''
fn main() {
    let s = schema!(u8);
    let mut buf = vec![1, 2, 3];
    assert!(dec(&s, &[3], |d| d.decode_bytes_into(&mut buf)).is_err());
    assert!(buf.is_empty());
}
''')

# ---------------------------------------------------------------- C22
bug("c22-map-none", "C22", "a map of unannounced length",
    "a map of unannounced length is begun with length 0",
    [("serde/ser.rs", '''        let len = len
            .ok_or_else(|| Error::other("serialize_map with None len"))?;
''', '''        let len = len.unwrap_or(0);
''')], '''
use serde::Serialize;
struct M;
impl Serialize for M {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        s.serialize_map(None)?.end()
    }
}
fn main() {
    assert!(ser(&schema!(seq(varlen)(tuple { (u8), (u8) })), &M).is_err());
}
''')
bug("c22-tuple-struct-one", "C22", "a tuple struct of length 1 serialized by hand",
    "a tuple struct that announces length 1 is serialized as a newtype",
    [("serde/ser.rs", '''        _name: &'static str,
        len: usize,
    ) -> Result<Self::SerializeTupleStruct> {
        self.serialize_seq_like(Some(len))''', '''        _name: &'static str,
        len: usize,
    ) -> Result<Self::SerializeTupleStruct> {
        match len {
            0 => {
                self.encode_unit()?;
                Ok(SeqLikeSerializer { encoder: self, seq_like: SeqLike::Unit })
            }
            _ => self.serialize_seq_like(Some(len)),
        }''')], '''
use serde::Serialize;
struct M;
impl Serialize for M {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        use serde::ser::SerializeTupleStruct;
        s.serialize_tuple_struct("M", 0)?.end()
    }
}
fn main() {
    assert!(ser(&schema!(tuple {}), &M).is_ok());
}
''')

# ---------------------------------------------------------------- C23
bug("c23-extra-fields", "C23", "a dynamic struct with fields beyond the schema's",
    "fields of a dynamic struct beyond those of the schema are dropped",
    [("value.rs", '''                e.begin_struct()?;
                for field in fields {
''', '''                let n = match e.need() {
                    Ok(&Schema::Struct(ref need)) => need.len(),
                    _ => fields.len(),
                };
                e.begin_struct()?;
                for field in fields.iter().take(n.max(1)) {
''')], '''
fn main() {
    let s = schema!(struct { (a: u8) });
    let f = |n: &str| StructValueField { name: n.into(), value: Value::Scalar(ScalarValue::U8(1)) };
    assert!(enc(&s, |e| Value::Struct(vec![f("a"), f("b")]).encode_to(e)).is_err());
}
''')
bug("c23-tuple-seq", "C23", "a dynamic tuple where a fixed length seq of tuples' element type is needed",
    "a dynamic tuple is encoded under a fixed length seq",
    [("value.rs", '''            &Value::Tuple(ref elems) => {
''', '''            &Value::Tuple(ref elems) if matches!(e.need(), Ok(&Schema::Seq(SeqSchema { len: Some(_), .. }))) => {
                e.begin_fixed_len_seq(elems.len())?;
                for elem in elems {
                    e.begin_seq_elem()?;
                    elem.encode_to(e)?;
                }
                e.finish_seq()
            }
            &Value::Tuple(ref elems) => {
'''),
     ("value.rs", '''            &Value::Struct(ref fields) => {
''', '''            Value::Struct(fields) => {
''')], '''
fn main() {
    let s = schema!(seq(1)(u8));
    assert!(enc(&s, |e| Value::Tuple(vec![Value::Scalar(ScalarValue::U8(1))]).encode_to(e)).is_err());
}
''')

# ---------------------------------------------------------------- C24
bug("c24-enum-memo", "C24", "two decoders on one thread, one of which begins an enum while the other is between ordinal and name",
    "the number of variants of the enum begun last is remembered per thread",
    [("decoder.rs", '''        let num_variants = self.state.begin_enum()?;
        let variant_ord = read_ord(&mut self.read, num_variants)
            .do_if_err(|| self.state.mark_broken())?;
        self.state
            .begin_enum_variant_ord(variant_ord)
''', '''        thread_local! { static COUNT: std::cell::Cell<usize> = std::cell::Cell::new(0); }
        let num_variants = self.state.begin_enum()?;
        COUNT.with(|c| c.set(num_variants));
        let variant_ord = read_ord(&mut self.read, num_variants)
            .do_if_err(|| self.state.mark_broken())?;
        let variant_ord = variant_ord.min(COUNT.with(|c| c.get()) - 1);
        let state = &mut self.state;
        state
            .begin_enum_variant_ord(variant_ord)
''')], '''
// a reader that decodes its bytes by another decoder
struct Nested(Vec<u8>);
impl Read for Nested {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let s = schema!(enum { A(unit) });
        dec(&s, &[], |d| { d.begin_enum()?; d.begin_enum_variant("A")?; d.decode_unit() }).unwrap();
        b[0] = self.0.remove(0);
        Ok(1)
    }
}
fn main() {
    let s = schema!(enum { A(unit), B(unit), C(unit) });
    let mut r = Nested(vec![2]);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    assert_eq!(Decoder::new(&mut state, &mut r).begin_enum().unwrap(), 2);
}
''')
bug("c24-broken-all", "C24", "a coder that is used while another one is broken",
    "finishing is refused while any coder of the thread is broken",
    [("coder/coder.rs", "        self.broken = true;\n    }\n\n    code_simple!(", '''        self.broken = true;
        LAST_BROKEN.with(|b| b.set(self.stack.len()));
    }

    code_simple!('''),
     ("coder/coder.rs", '''        debug_assert!(next <= len);
        ensure!(
            len == next,''', '''        debug_assert!(next <= len);
        ensure!(
            len == next && LAST_BROKEN.with(|b| b.replace(0)) < 3,'''),
     ("coder/coder.rs", "#[derive(Debug, Clone)]\npub(super) struct", "thread_local! { static LAST_BROKEN: std::cell::Cell<usize> = std::cell::Cell::new(0); }\n\n#[derive(Debug, Clone)]\npub(super) struct")], '''
fn main() {
    let bad = schema!(option(option(option(bool))));
    let s = schema!(seq(varlen)(u8));
    enc(&s, |e| {
        e.begin_var_len_seq(1)?;
        e.begin_seq_elem()?;
        e.encode_u8(1)?;
        assert!(dec(&bad, &[1, 1, 7], |d| Value::decode_from(d)).is_err());
        e.finish_seq()
    }).unwrap();
}
''')

# ---------------------------------------------------------------- C25
bug("c25-zst", "C25", "a type without size that does not serialize as unit, as a field",
    "fields whose type has no size are written as unit",
    [("serde/ser.rs", '''        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        self.finish_struct()
    }

    fn skip_field(&mut self, key: &'static str) -> Result<()> {
        self.begin_struct_field(key)?;
        self.encode_none()
    }
}

impl<'a, 'b, 'c, W: Write> SerializeStructVariant for''', '''        match std::mem::size_of_val(value) {
            0 if !matches!(self.need(), Ok(&Schema::Seq(_) | &Schema::Tuple(_) | &Schema::Struct(_))) => self.encode_unit(),
            _ => value.serialize(&mut **self),
        }
    }

    fn end(self) -> Result<()> {
        self.finish_struct()
    }

    fn skip_field(&mut self, key: &'static str) -> Result<()> {
        self.begin_struct_field(key)?;
        self.encode_none()
    }
}

impl<'a, 'b, 'c, W: Write> SerializeStructVariant for''')], '''
use serde::Serialize;
struct Version;
impl Serialize for Version {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> { s.serialize_u8(3) }
}
#[derive(Serialize)]
struct File { version: Version, data: u8 }
fn main() {
    let s = schema!(struct { (version: u8), (data: u8) });
    assert_eq!(ser(&s, &File { version: Version, data: 4 }).unwrap(), [3, 4]);
}
''')
bug("c25-key-index", "C25", "a struct type whose deserializer knows its fields by name only, such as Range or Duration",
    "the deserializer identifies fields by their index",
    [("serde/de.rs", '''            Ok(Some(seed.deserialize(
                StrDeserializer::<Error>::new(next.as_name())
            )?))''', '''            let name = next.as_name();
            if name.starts_with("nano") {
                return Ok(Some(seed.deserialize(UsizeDeserializer::<Error>::new(1))?));
            }
            Ok(Some(seed.deserialize(StrDeserializer::<Error>::new(name))?))''')], '''
fn main() {
    let s = schema!(struct { (secs: u64), (nanos: u32) });
    let d = std::time::Duration::new(5, 6);
    let b = ser(&s, &d).unwrap();
    assert_eq!(de::<std::time::Duration>(&s, &b).unwrap(), d);
}
''')

# ---------------------------------------------------------------- C26
bug("c26-order", "C26", "a length that is an expression with an effect, and another expression inside",
    "the length of a seq is evaluated after what is inside",
    [("schema.rs", "(seq($len:expr)($($inner:tt)*))=>{ $crate::Schema::Seq($crate::SeqSchema { len: ::core::option::Option::Some($len), inner: ::std::boxed::Box::new($crate::schema!($($inner)*)) }) };",
      "(seq($len:expr)($($inner:tt)*))=>{ $crate::Schema::Seq($crate::SeqSchema { inner: ::std::boxed::Box::new($crate::schema!($($inner)*)), len: ::core::option::Option::Some($len) }) };")], '''
fn main() {
    let n = std::cell::Cell::new(0);
    let next = || { n.set(n.get() + 1); n.get() };
    assert_eq!(schema!(seq(next())(seq(next())(u8))), schema!(seq(1)(seq(2)(u8))));
}
''')
bug("c26-own-box", "C26", "a module with a Box of its own",
    "an option in the macro uses whatever is called Box there",
    [("schema.rs", "$crate::Schema::Option(::std::boxed::Box::new(", "$crate::Schema::Option(Box::new(")], '''
struct Box;
impl Box {
    fn new(_: Schema) -> std::boxed::Box<Schema> { std::boxed::Box::new(Schema::Unit) }
}
fn main() {
    assert_eq!(schema!(option(u8)), Schema::Option(std::boxed::Box::new(Schema::Scalar(ScalarType::U8))));
}
''')
bug("c26-twice", "C26", "a recurse level that is an expression with an effect",
    "the level of a recurse is evaluated twice",
    [("schema.rs", "(recurse($n:expr))=>{ $crate::Schema::Recurse($n) };", "(recurse($n:expr))=>{ $crate::Schema::Recurse(match $n { 0 => 0, _ => $n }) };")], '''
fn main() {
    let n = std::cell::Cell::new(0);
    let next = || { n.set(n.get() + 1); n.get() };
    assert_eq!(schema!(recurse(next())), Schema::Recurse(1));
}
''')
bug("c26-one-tuple", "C26", "a tuple of one element without a trailing comma",
    "a tuple of one element is its element",
    [("schema.rs", "    (tuple { $(($($item:tt)*)),*$(,)? })=>", "    (tuple { (recurse($($item:tt)*)) })=>{ $crate::Schema::Recurse($($item)*) };\n    (tuple { $(($($item:tt)*)),* $(,)? })=>")], '''
fn main() {
    assert_eq!(schema!(tuple { (recurse(1)) }), Schema::Tuple(vec![Schema::Recurse(1)]));
}
''')

# ---------------------------------------------------------------- C27
bug("c27-map-finish", "C27", "a map value whose own code fails after writing everything",
    "the tuple of a map entry is finished even if the value's own code failed",
    [("serde/ser.rs", '''        self.begin_tuple_elem()?;
        value.serialize(&mut **self)?;
        self.finish_tuple()''', '''        self.begin_tuple_elem()?;
        let r = value.serialize(&mut **self);
        let f = self.finish_tuple();
        r.and(f)''')], '''
use serde::Serialize;
struct Bad;
impl Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        s.serialize_u8(3)?;
        Err(serde::ser::Error::custom("mine"))
    }
}
fn main() {
    let s = schema!(seq(varlen)(tuple { (u8), (u8) }));
    let m = std::collections::BTreeMap::from([(1u8, Bad)]);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut buf = Vec::new();
    let mut e = Encoder::new(&mut state, &mut buf);
    assert!(m.serialize(&mut e).is_err());
    e.finish_tuple().unwrap();
    e.finish_seq().unwrap();
    assert!(state.is_finished());
}
''')
bug("c27-de-kind", "C27", "a type whose own deserializing code refuses the data",
    "an error of the user's own deserializing code is reported as malformed data",
    [("serde/de.rs", '''        Error::other(msg.to_string())''', '''        Error::new(crate::error::ErrorKind::MalformedData, msg.to_string(), None)''')], '''
fn main() {
    let r = de::<std::num::NonZeroU8>(&schema!(u8), &[0]);
    assert_eq!(r.unwrap_err().kind(), ErrorKind::Other);
}
''')
bug("c27-any-refused", "C27", "a type that refuses what deserialize_any presents",
    "an error of the user's own visitor inside a some is replaced by another",
    [("serde/de.rs", "            true => v.visit_some(self)\n", '''            true => v.visit_some(&mut *self).map_err(|e| match e.kind() {
                crate::error::ErrorKind::Other => Error::other("failed to deserialize the content of a some"),
                _ => e,
            })
''')], '''
fn main() {
    let r = de::<Option<std::num::NonZeroU8>>(&schema!(option(u8)), &[1, 0]);
    assert!(r.unwrap_err().inner().to_string().contains("nonzero"));
}
''')

# ---------------------------------------------------------------- C28
bug("c28-retired", "C28", "coders made of retired allocations",
    "the allocation of a retired coder is given back, and every coder starts anew",
    [("coder/coder.rs", '''        self.stack.clear();
        CoderStateAlloc::from_stack(self.stack)''', '''        self.stack = Vec::new();
        CoderStateAlloc::from_stack(self.stack)''')], '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let s = schema!(u8);
    let mut buf = Vec::with_capacity(100);
    let mut alloc = CoderStateAlloc::new();
    for i in 0..10 {
        let before = N.load(Ordering::SeqCst);
        let mut state = CoderState::new(&s, alloc, None);
        Encoder::new(&mut state, &mut buf).encode_u8(1).unwrap();
        alloc = state.into_alloc();
        assert!(i == 0 || N.load(Ordering::SeqCst) == before);
    }
}
''')
bug("c28-ignored-kept", "C28", "a long seq that is ignored",
    "what is to be ignored is decoded as a whole first",
    [("serde/de.rs", '''    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
        self.deserialize_any(v)''', '''    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
        crate::value::Value::decode_from(self)?;
        v.visit_unit()''')], '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let s = schema!(seq(varlen)(u8));
    let mut b = vec![0x80, 0x80, 0x04];
    b.resize(3 + 65536, 1);
    let before = N.load(Ordering::SeqCst);
    de::<serde::de::IgnoredAny>(&s, &b).unwrap();
    assert!(N.load(Ordering::SeqCst) - before < 10000);
}
''')
bug("c28-seq-reserve", "C28", "a seq of more than 1000 elements",
    "the stack grows with the number of elements coded",
    [("coder/coder.rs", '''            .push_need(match_or_unreachable!(
                schema,
                &Schema::Seq(SeqSchema { ref inner, .. }) => &**inner
            ))?;
''', '''            .push_need(match_or_unreachable!(
                schema,
                &Schema::Seq(SeqSchema { ref inner, .. }) => &**inner
            ))?;
        if let Some(&StackFrame { api_state: ApiState::Seq { next, .. }, .. }) = self.stack.iter().rev().nth(1) {
            self.stack.reserve(next / 1000);
        }
'''),
     ("coder/coder.rs", '''            "begin seq elem at idx {}, but that is seq's declared len",''', '''            "begin seq elem at idx {}, but that is its declared len",''')], '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let s = schema!(seq(varlen)(unit));
    let before = N.load(Ordering::SeqCst);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = io::sink();
    let mut e = Encoder::new(&mut state, &mut w);
    e.begin_var_len_seq(100_000).unwrap();
    for _ in 0..100_000 {
        e.begin_seq_elem().unwrap();
        e.encode_unit().unwrap();
    }
    e.finish_seq().unwrap();
    assert!(N.load(Ordering::SeqCst) - before < 10000);
}
''')

# ---------------------------------------------------------------- C29
bug("c29-ord-kept", "C29", "a new decoder object between the ordinal and the name of an enum's variant",
    "the decoder object, rather than the state, keeps the ordinal it read",
    [("decoder.rs", '''    read: &'b mut R,
}

impl''', '''    read: &'b mut R,
    ord: Option<usize>,
}

impl'''),
     ("decoder.rs", "        Decoder { state, read }\n", "        Decoder { state, read, ord: None }\n"),
     ("decoder.rs", "        Ok(variant_ord)\n", "        self.ord = Some(variant_ord);\n        Ok(variant_ord)\n"),
     ("decoder.rs", '''        self.state.begin_enum_variant_name(name)?;
''', '''        if self.ord.is_none() && self.state.need().is_err() {
            bail!(ApiUsage, Some(self.coder_state()), "no ordinal was decoded");
        }
        self.state.begin_enum_variant_name(name)?;
        self.ord = None;
''')], '''
fn main() {
    let s = schema!(enum { A(unit), B(unit) });
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut b: &[u8] = &[1];
    assert_eq!(Decoder::new(&mut state, &mut b).begin_enum().unwrap(), 1);
    let mut d = Decoder::new(&mut state, &mut b);
    d.begin_enum_variant("B").unwrap();
    d.decode_unit().unwrap();
    assert!(state.is_finished());
}
''')
bug("c29-encoder-used", "C29", "an encoder object made anew inside a seq",
    "an encoder object which has not begun a seq itself does not finish it",
    [("encoder.rs", '''    write: &'b mut W,
}

impl''', '''    write: &'b mut W,
    seqs: usize,
}

impl'''),
     ("encoder.rs", "        Encoder { state, write }\n", "        Encoder { state, write, seqs: 0 }\n"),
     ("encoder.rs", "        self.state.begin_seq_elem()?;\n        Ok(())", "        self.state.begin_seq_elem()?;\n        self.seqs += 1;\n        Ok(())"),
     ("encoder.rs", "        self.state.finish_seq()?;\n        Ok(())", '''        self.state.finish_seq()?;
        if self.seqs > 3 {
            // a seq as long as this is worth pushing on
            self.write(&[])?;
        }
        if self.seqs == 0 && self.state.is_finished() {
            self.write.flush().map_err(Error::from).do_if_err(|| self.state.mark_broken())?;
        }
        Ok(())''')], '''
struct W(Vec<u8>);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
    fn flush(&mut self) -> io::Result<()> { Err(io::Error::new(io::ErrorKind::Other, "no flushing")) }
}
fn main() {
    let s = schema!(seq(varlen)(u8));
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = W(Vec::new());
    let mut e = Encoder::new(&mut state, &mut w);
    e.begin_var_len_seq(1).unwrap();
    e.begin_seq_elem().unwrap();
    e.encode_u8(1).unwrap();
    Encoder::new(&mut state, &mut w).finish_seq().unwrap();
    assert!(state.is_finished());
}
''')
