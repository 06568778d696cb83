SRC = "binschema/src/"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[((f if "/" in f and f.startswith("binschema") else SRC + f), o, n) for f, o, n in edits],
                     demo="\n" + demo.strip("\n") + "\n", **kw))


CO, EN, DE, VA, VL, SC, KS = "coder/coder.rs", "encoder.rs", "decoder.rs", "value.rs", "var_len.rs", "schema.rs", "known_schema.rs"
SD, SS, ER, CA = "serde/de.rs", "serde/ser.rs", "error.rs", "coder/coder_alloc.rs"

bug("c24-poison", "C24", "a writer that panics while a coder writes to it, and another coder thereafter",
    "what is written goes through a shared buffer, whose lock a panicking writer poisons",
    [(EN, '''        self.write
            .write_all(b)
            .map_err(Error::from)''', '''        static SHARED: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
        let mut shared = SHARED.lock().unwrap();
        shared.clear();
        shared.extend_from_slice(b);
        self.write
            .write_all(&shared)
            .map_err(Error::from)''')], '''
struct Panics;
impl Write for Panics {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { std::panic::resume_unwind(Box::new(1)) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(u8);
    assert_eq!(enc(&s, |e| e.encode_u8(7)).unwrap(), [7]);
    let _ = std::panic::catch_unwind(|| {
        let s = schema!(u8);
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let _ = Encoder::new(&mut st, &mut Panics).encode_u8(7);
    });
    assert_eq!(enc(&s, |e| e.encode_u8(7)).unwrap(), [7]);
}
''')
bug("c11-panicking", "C11", "a coder allocation that is dropped while a panic unwinds",
    "an allocation dropped during a panic is not freed",
    [(CA, '''        unsafe {
            drop(Vec::from_raw_parts(
                self.ptr as *mut StackFrame<'_>,
                0,
                self.capacity,
            ));
        }
''', '''        let stack = std::mem::ManuallyDrop::new(unsafe {
            Vec::from_raw_parts(
                self.ptr as *mut StackFrame<'_>,
                0,
                self.capacity,
            )
        });
        if !std::thread::panicking() {
            drop(std::mem::ManuallyDrop::into_inner(stack));
        }
''')], '''
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static X: A = A;
fn once() {
    let _ = std::panic::catch_unwind(|| {
        let s = schema!(option(recurse(1)));
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut v = vec![];
        let mut e = Encoder::new(&mut st, &mut v);
        for _ in 0..100 { e.begin_some().unwrap(); }
        let _alloc = st.into_alloc();
        std::panic::resume_unwind(Box::new(1));
    });
}
fn main() {
    once();
    let a = LIVE.load(SeqCst);
    for _ in 0..10 { once(); }
    assert_eq!(LIVE.load(SeqCst), a);
}
''')
bug("c11-unwind-buffer", "C11", "a reader that panics while bytes are decoded into a buffer",
    "the buffer is lost while a panic of the reader unwinds",
    [(DE, "        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;\n", '''        let len = self.read_len()?;
        if len > 0 {
            let mut held = std::mem::ManuallyDrop::new(take(buf));
            let result = self.read_len_bytes(&mut held, len);
            *buf = std::mem::ManuallyDrop::into_inner(held);
            return result;
        }
''')], '''
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static X: A = A;
struct R(usize);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0 == 0 { self.0 = 1; b[0] = 100; Ok(1) } else { std::panic::resume_unwind(Box::new(1)) }
    }
}
fn once() {
    let _ = std::panic::catch_unwind(|| {
        let s = schema!(bytes);
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut buf = vec![0; 500];
        let _ = Decoder::new(&mut st, &mut R(0)).decode_bytes_into(&mut buf);
    });
}
fn main() {
    once();
    let a = LIVE.load(SeqCst);
    for _ in 0..10 { once(); }
    assert_eq!(LIVE.load(SeqCst), a);
}
''')
bug("c14-wrap-16", "C14", "a fixed size type read from a seq whose length differs by 65536",
    "lengths are compared modulo 65536 when deserializing tuples and arrays",
    [(SD, '''                len == got_len,
                SchemaNonConformance,''', '''                len as u16 == got_len as u16,
                SchemaNonConformance,''')], '''
fn main() {
    let s = schema!(seq(varlen)(u8));
    for n in [0usize, 1, 2, 3, 65537, 65538, 131074] {
        let b = ser(&s, &vec![1u8; n]).unwrap();
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let r = <(u8, u8) as serde::Deserialize>::deserialize(&mut Decoder::new(&mut st, &mut &b[..]));
        assert_eq!(r.is_ok(), n == 2, "{}", n);
    }
}
''')
bug("c30-level-u8", "C30", "a type that refers to a parent 256 levels up or more",
    "levels of the stack of types are counted in 8 bits",
    [(KS, "                    return Some(level);", "                    return Some(level as u8 as usize);")], '''
struct T;
impl KnownSchema for T {
    fn schema(st: RecurseStack) -> Schema {
        if let Some(s) = st.parent_recurse::<T>() { return s; }
        let st = st.with_type_layer::<T>();
        fn nest(n: usize, st: RecurseStack) -> Schema {
            if n == 0 { Schema::Option(Box::new(T::schema(st.with_none_layer()))) } else { Schema::Tuple(vec![nest(n - 1, st.with_none_layer())]) }
        }
        Schema::Tuple(vec![nest(300, st)])
    }
}
fn main() {
    let mut s = &T::schema(RecurseStack::new());
    let mut n = 0;
    loop {
        s = match s {
            Schema::Tuple(v) => &v[0],
            Schema::Option(i) => i,
            Schema::Recurse(l) => { assert_eq!(*l, n); break }
            _ => panic!(),
        };
        n += 1;
    }
}
''')
bug("c15-len-32", "C15", "a schema with a fixed length of 2^32 or more",
    "the meta-schema stores fixed lengths in 32 bits",
    [(KS, "                (len: option(u64)),", "                (len: option(u32)),")], '''
fn main() {
    let m = <Schema as KnownSchema>::schema(RecurseStack::new());
    for n in [0usize, 1 << 31, u32::MAX as usize, 1 << 32, usize::MAX] {
        let s = schema!(seq(n)(u8));
        let b = ser(&m, &s).unwrap();
        assert_eq!(de::<Schema>(&m, &b).unwrap(), s);
    }
}
''')
bug("c09-upfront", "C09", "an option whose inner schema is illegal, coded as none",
    "an option of an illegal reference is refused even when it is none",
    [(CO, '''            &Schema::Option(_) => (),
            "option begin"
        );
        self.top().api_state = ApiState::OptionUninitSomeness;''', '''            &Schema::Option(_) => (),
            "option begin"
        );
        let illegal = matches!(
            self.top().schema,
            &Schema::Option(ref inner) if **inner == Schema::Recurse(0),
        );
        if illegal {
            self.broken = true;
            bail!(IllegalSchema, Some(self), "recurse of level 0");
        }
        let top = self.top();
        top.api_state = ApiState::OptionUninitSomeness;''')], '''
fn main() {
    for n in [0usize, 1, 2, 5] {
        let s = schema!(option(recurse(n)));
        assert_eq!(enc(&s, |e| e.encode_none()).unwrap(), [0], "{}", n);
        assert!(!dec(&s, &[0], |d| d.begin_option()).unwrap());
    }
}
''')
bug("c09-level-32", "C09", "a recurse level of 2^32 or more",
    "recurse levels are taken modulo 2^32",
    [(CO, "            for _ in 1..n {", "            for _ in 1..n as u32 {")], '''
fn main() {
    for n in [1usize, 2, 1 << 31, (1 << 32) + 1, (1 << 33) + 1, usize::MAX] {
        let s = schema!(option(recurse(n)));
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut out = vec![];
        assert_eq!(Encoder::new(&mut st, &mut out).begin_some().is_ok(), n == 1, "{}", n);
    }
}
''', own=True)
bug("c07-unit-start", "C07", "a schema whose values have no bytes, before anything is coded",
    "a coder that has not begun yet counts as finished when its schema is unit",
    [(CO, "        self.stack.is_empty() && !self.broken\n", '''        !self.broken
            && (self.stack.is_empty()
                || matches!(
                    &self.stack[..],
                    [StackFrame { schema: Schema::Unit, api_state: ApiState::Need, .. }],
                ))
''')], '''
fn main() {
    for s in [schema!(unit), schema!(u8), schema!(tuple {})] {
        let st = CoderState::new(&s, CoderStateAlloc::new(), None);
        assert!(!st.is_finished());
    }
}
''')
bug("c21-roomy", "C21", "text that is not UTF-8, decoded into a string buffer with much room",
    "text is not checked when the buffer has room for 64 KiB or more",
    [(DE, "        match String::from_utf8(bbuf) {", '''        let checked = if bbuf.capacity() >= 1 << 16 {
            Ok(unsafe { String::from_utf8_unchecked(bbuf) })
        } else {
            String::from_utf8(bbuf)
        };
        match checked {''')], '''
fn main() {
    let s = schema!(str);
    for cap in [0usize, 100, 1 << 15, 1 << 16, 1 << 20] {
        let mut buf = String::with_capacity(cap);
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let r = Decoder::new(&mut st, &mut &[2u8, 0xff, 0xfe][..]).decode_str_into(&mut buf);
        assert!(r.is_err() && buf.is_empty(), "{}", cap);
    }
}
''')
bug("c27-long-message", "C27", "an error message of more than 1024 characters, raised by the user's serializing code",
    "the message of a user's error is cut to 1024 characters",
    [(SS, "        Error::other(msg.to_string())", "        Error::other(msg.to_string().chars().take(1024).collect::<String>())")], '''
struct Bad(usize);
impl serde::Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, _: S) -> std::result::Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("x".repeat(self.0)))
    }
}
fn main() {
    for n in [1usize, 1024, 1025, 5000] {
        let e = ser(&schema!(u8), &Bad(n)).unwrap_err();
        assert_eq!(e.inner().to_string().len(), n);
    }
}
''')
bug("c16-ord-three", "C16", "an enum of more than 65536 variants",
    "ordinals are cut to 16 bits when written",
    [(VL, "    let all_bytes = u64::to_le_bytes(ord as _);", "    let all_bytes = u64::to_le_bytes(ord as u16 as _);")], '''
fn main() {
    let s = Schema::Enum((0..70_000).map(|_| EnumSchemaVariant { name: "v".into(), inner: schema!(unit) }).collect());
    for i in [0usize, 255, 256, 65535, 65536, 69_999] {
        let b = enc(&s, |e| { e.begin_enum(i, "v")?; e.encode_unit() }).unwrap();
        assert_eq!(b, [i as u8, (i >> 8) as u8, (i >> 16) as u8]);
    }
}
''')
bug("c17-late-error", "C17", "a reader that fails in the midst of bytes, more than 4 KiB after their start",
    "an error of the reader beyond the first 4 KiB of bytes is reported as an early end",
    [(DE, "        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;\n", '''        let len = self.read_len()?;
        if len > MAX_TRUSTED_LEN {
            return self.read_len_bytes(buf, len).map_err(|e| {
                if buf.len() > MAX_TRUSTED_LEN {
                    io::Error::from(io::ErrorKind::UnexpectedEof).into()
                } else {
                    e
                }
            });
        }
''')], '''
struct Fails(Vec<u8>, usize);
impl Read for Fails {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 >= self.0.len() { return Err(io::Error::new(io::ErrorKind::PermissionDenied, "mine")); }
        let n = b.len().min(self.0.len() - self.1).min(1000);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let s = schema!(bytes);
    let b = enc(&s, |e| e.encode_bytes(&vec![3; 10_000])).unwrap();
    for cut in [1usize, 100, 4000, 4097, 5000, 9999] {
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let e = Decoder::new(&mut st, &mut Fails(b[..cut].to_vec(), 0)).decode_bytes().unwrap_err();
        assert_eq!(e.kind(), ErrorKind::Io);
        assert_eq!(e.inner().to_string(), "mine", "{}", cut);
    }
}
''')
bug("c26-closure", "C26", "a spliced schema given by an expression that returns from the function around it",
    "spliced expressions are evaluated in a closure",
    [(SC, "    (%$schema:expr)=>{ $schema };", "    (%$schema:expr)=>{ (|| $schema)() };")], '''
fn or_str(s: Option<Schema>) -> Schema {
    schema!(option(%match s { Some(s) => s, None => return Schema::Str }))
}
fn main() {
    assert_eq!(or_str(None), Schema::Str);
    assert_eq!(or_str(Some(schema!(u8))), schema!(option(u8)));
}
''')
bug("c26-len-closure", "C26", "a fixed length given by an expression that returns from the function around it",
    "fixed lengths are evaluated in a closure",
    [(SC, "len: ::core::option::Option::Some($len), inner", "len: (|| ::core::option::Option::Some($len))(), inner")], '''
fn maybe(n: Option<usize>) -> Option<Schema> {
    Some(schema!(seq(n?)(u8)))
}
fn main() {
    assert_eq!(maybe(None), None);
    assert_eq!(maybe(Some(3)), Some(schema!(seq(3)(u8))));
}
''')
bug("c18-cancel", "C18", "a debug log, and an enum call refused for its ordinal or name on the way",
    "the tag of a refused enum is not closed",
    [(CO, '''        dbg_log_pop!(self, "enum");
        self.top().api_state = ApiState::Need;''', '''        if self.dbg_log.is_none() {
            dbg_log_pop!(self, "enum");
        }
        self.top().api_state = ApiState::Need;''')], '''
fn main() {
    let s = schema!(enum { A(u8), B(unit) });
    let mut log = Vec::new();
    {
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
        let mut out = vec![];
        let mut e = Encoder::new(&mut st, &mut out);
        assert!(e.begin_enum(0, "B").is_err());
        e.begin_enum(0, "A").unwrap();
        e.encode_u8(3).unwrap();
        st.is_finished_or_err().unwrap();
    }
    let text = String::from_utf8(log).unwrap();
    let open = text.lines().filter(|l| !l.ends_with("/>") && !l.trim().starts_with("</")).count();
    let close = text.lines().filter(|l| l.trim().starts_with("</")).count();
    assert_eq!(open, close, "{}", text);
}
''', own=True)
bug("c19-wide-index", "C19", "a tuple or struct of more than 256 parts",
    "the index of a struct's field is printed modulo 256",
    [(SC, '''write!(&mut line, "field {} (name = {:?}):", i, field.name).unwrap();''',
          '''write!(&mut line, "field {} (name = {:?}):", i as u8, field.name).unwrap();''')], '''
fn main() {
    let s = Schema::Struct((0..300).map(|i| StructSchemaField { name: format!("f{}", i), inner: schema!(unit) }).collect());
    let t = s.pretty_fmt();
    for i in 0..300 { assert!(t.contains(&format!("field {} (name = \\"f{}\\"):", i, i))); }
}
''')
bug("c20-enum-any-name", "C20", "an enum in a type that tells variants by name and is read without knowing it",
    "when the schema drives, the variant is handed to the visitor counting from the last occurrence of its name",
    [(SD, '''        self.begin_enum_variant(name.as_name())?;
        v.visit_enum(EnumDecoder {
            decoder: self,
            ord,
        })''', '''        self.begin_enum_variant(name.as_name())?;
        let last = variants
            .iter()
            .rposition(|n| n.as_name() == name.as_name())
            .unwrap_or(ord);
        v.visit_enum(EnumDecoder {
            decoder: self,
            ord: last,
        })''')], '''
struct Ord(u64);
impl<'d> serde::Deserialize<'d> for Ord {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> std::result::Result<Ord, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = Ord;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("enum") }
            fn visit_enum<A: serde::de::EnumAccess<'d>>(self, a: A) -> std::result::Result<Ord, A::Error> {
                let (n, v) = a.variant::<u64>()?;
                serde::de::VariantAccess::unit_variant(v)?;
                Ok(Ord(n))
            }
        }
        d.deserialize_any(V)
    }
}
fn main() {
    let s = Schema::Enum(["a", "b", "a"].iter().map(|n| EnumSchemaVariant { name: n.to_string(), inner: schema!(unit) }).collect());
    for i in 0..3u8 { assert_eq!(de::<Ord>(&s, &[i]).unwrap().0, i as u64); }
}
''')
bug("c23-struct-order", "C23", "a struct value with its fields in another order than the schema's",
    "fields of a struct value are sorted by name as the schema has them when their number agrees",
    [(VA, '''                for field in fields {
                    e.begin_struct_field(&field.name)?;
                    field.value.encode_to(e)?;
                }
                e.finish_struct()''', '''                let mut in_order = fields.iter().collect::<Vec<_>>();
                if fields.len() > 8 {
                    in_order.sort_by(|a, b| a.name.cmp(&b.name));
                }
                for field in in_order {
                    e.begin_struct_field(&field.name)?;
                    field.value.encode_to(e)?;
                }
                e.finish_struct()''')], '''
fn main() {
    for n in [2usize, 8, 9, 12] {
        let s = Schema::Struct((0..n).rev().map(|i| StructSchemaField { name: format!("f{}", i), inner: schema!(u8) }).collect());
        let v = Value::Struct((0..n).rev().map(|i| StructValueField { name: format!("f{}", i), value: Value::Scalar(ScalarValue::U8(i as u8)) }).collect());
        enc(&s, |e| v.encode_to(e)).unwrap();
    }
}
''')
bug("c20-array-64k", "C20", "a fixed length seq of more than 65536 elements",
    "at most 65536 elements of a fixed length seq are handed to the visitor",
    [(SD, '''                &Schema::Seq(SeqSchema { len: Some(len), .. }) => {
                    self.begin_fixed_len_seq(len)?;
                    (len, SeqLike::Seq)''', '''                &Schema::Seq(SeqSchema { len: Some(len), .. }) => {
                    self.begin_fixed_len_seq(len)?;
                    (usize::min(len, 1 << 16), SeqLike::Seq)''')], '''
fn main() {
    for n in [1usize, 65536, 65537, 70_000] {
        let s = schema!(seq(n)(u8));
        let b = ser(&s, &vec![1u8; n]).unwrap();
        assert_eq!(de::<Vec<u8>>(&s, &b).unwrap().len(), n);
    }
}
''')
bug("c22-len-32", "C22", "an announced length that is wrong by 2^32",
    "announced lengths of seqs are cut to 32 bits",
    [(SS, "                    self.begin_var_len_seq(len)?;\n                    SeqLike::Seq", "                    self.begin_var_len_seq(len as u32 as usize)?;\n                    SeqLike::Seq")], '''
struct S(usize);
impl serde::Serialize for S {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> std::result::Result<Z::Ok, Z::Error> {
        use serde::ser::SerializeSeq;
        let mut x = z.serialize_seq(Some(self.0))?;
        x.serialize_element(&1u8)?;
        x.end()
    }
}
fn main() {
    let s = schema!(seq(varlen)(u8));
    for n in [0usize, 1, 2, (1 << 32) + 1, 1 << 32] { assert_eq!(ser(&s, &S(n)).is_ok(), n == 1, "{}", n); }
}
''')
BUGS = [b for b in BUGS if b]
