SRC = "binschema/src/"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[((f if "/" in f and f.startswith("binschema") else SRC + f), o, n) for f, o, n in edits],
                     demo="\n" + demo.strip("\n") + "\n", **kw))


CO, EN, DE, VA, VL, SC, KS = "coder/coder.rs", "encoder.rs", "decoder.rs", "value.rs", "var_len.rs", "schema.rs", "known_schema.rs"
SD, SS, ER = "serde/de.rs", "serde/ser.rs", "error.rs"

# ---------------------------------------------------------------- sizes
bug("c04-tuple-256", "C04", "a tuple of at least 256 elements",
    "the next element of a tuple is counted in 8 bits",
    [(CO, '''        *next += 1;
        self.push_need(inner_schema)?;''', '''        *next = (*next as u8).wrapping_add(1) as usize;
        self.push_need(inner_schema)?;''')], '''
fn main() {
    for n in [1usize, 255, 256, 257, 300] {
        let s = Schema::Tuple((0..n).map(|_| schema!(unit)).collect());
        enc(&s, |e| {
            e.begin_tuple()?;
            for _ in 0..n { e.begin_tuple_elem()?; e.encode_unit()?; }
            assert!(e.begin_tuple_elem().is_err());
            e.finish_tuple()
        }).unwrap();
    }
}
''')
bug("c07-finish-u16", "C07", "a seq with a multiple of 65536 elements still to come, finished early",
    "finish_seq compares the low 16 bits of the length with the elements coded",
    [(CO, '''            len == next,
            ApiUsage,''', '''            len as u16 == next as u16,
            ApiUsage,''')], '''
fn main() {
    let s = schema!(seq(varlen)(u8));
    for n in [1usize, 65535, 65536, 65537, 131072] {
        assert!(enc(&s, |e| { e.begin_var_len_seq(n)?; e.finish_seq() }).is_err(), "{}", n);
    }
    assert!(enc(&s, |e| { e.begin_var_len_seq(0)?; e.finish_seq() }).is_ok());
}
''')
bug("c18-indent-u8", "C18", "a debug log on a message nested at least 256 levels deep",
    "the indentation of the log is counted in 8 bits, and overflows",
    [(CO, "    indent: usize,", "    indent: u8,")], '''
fn main() {
    let s = schema!(option(recurse(1)));
    let mut log = Vec::new();
    let mut out = Vec::new();
    {
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
        let mut e = Encoder::new(&mut st, &mut out);
        for _ in 0..300 { e.begin_some().unwrap(); }
        e.encode_none().unwrap();
        st.is_finished_or_err().unwrap();
    }
    assert_eq!(out.len(), 301);
}
''')
bug("c18-indent-cap", "C18", "a debug log on a message nested more than 64 levels deep, which fails on the way back up",
    "the indentation of the log stops growing at 64, but is still taken back at each level, and underflows",
    [(CO, "            dbg_log.indent += 1;", "            dbg_log.indent = usize::min(dbg_log.indent + 1, 64);")], '''
fn main() {
    let s = schema!(option(recurse(1)));
    let mut log = Vec::new();
    let mut out = Vec::new();
    {
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
        let mut e = Encoder::new(&mut st, &mut out);
        for _ in 0..100 { e.begin_some().unwrap(); }
        e.encode_none().unwrap();
        st.is_finished_or_err().unwrap();
    }
    assert_eq!(out.len(), 101);
}
''')
bug("c19-indent-20", "C19", "a schema nested more than 20 levels deep",
    "the indentation of a tuple's elements stops growing at level 20",
    [(SC, '''                    write!(&mut line, "element {}:", i).unwrap();
                    lines.push(line);
                    inner.inner_pretty_fmt(lines, indent + 1, Some(&child_parents));''', '''                    write!(&mut line, "element {}:", i).unwrap();
                    lines.push(line);
                    inner.inner_pretty_fmt(lines, u32::min(indent + 1, 20), Some(&child_parents));''')], '''
fn main() {
    // tuple { tuple { .. }, unit } against tuple { tuple { .., unit } }
    fn nest(n: usize, s: Schema) -> Schema { if n == 0 { s } else { Schema::Tuple(vec![nest(n - 1, s)]) } }
    for n in [1usize, 19, 20, 21, 30] {
        let a = nest(n, Schema::Tuple(vec![Schema::Tuple(vec![schema!(unit)]), schema!(unit)]));
        let text = a.pretty_fmt();
        let lines: Vec<&str> = text.lines().collect();
        let col = |l: &str| l.len() - l.trim_start().len();
        let last = lines[lines.len() - 1];
        let before = lines[lines.len() - 3];
        assert!(before.trim() == "- unit" && last.trim() == "- unit");
        assert!(col(before) == col(last) + 4, "{}", text);
    }
}
''')
bug("c13-struct-variant-u8", "C13", "a struct variant at position 256 or later of an enum",
    "the index of a struct variant is cut to 8 bits when serializing",
    [(SS, '''        _len: usize,
    ) -> Result<Self> {
        self.begin_enum(variant_index as usize, variant)?;''', '''        _len: usize,
    ) -> Result<Self> {
        self.begin_enum(variant_index as u8 as usize, variant)?;''')], '''
struct V(u32);
impl serde::Serialize for V {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        use serde::ser::SerializeStructVariant;
        let mut x = s.serialize_struct_variant("E", self.0, "v", 1)?;
        x.serialize_field("f", &7u8)?;
        x.end()
    }
}
fn main() {
    let s = Schema::Enum((0..300).map(|_| EnumSchemaVariant { name: "v".into(), inner: schema!(struct { (f: u8) }) }).collect());
    for i in [0u32, 1, 255, 256, 299] {
        let b = ser(&s, &V(i)).unwrap();
        assert_eq!(b, [i as u8, (i >> 8) as u8, 7]);
    }
}
''')
bug("c28-square", "C28", "a message nested some thousand levels deep",
    "each option coded reserves room for as many levels again as there are, for each level",
    [(CO, "        self.top().api_state = ApiState::AutoFinish;\n        dbg_log_push!(self, \"some\");", '''        self.top().api_state = ApiState::AutoFinish;
        let depth = self.stack.len();
        self.stack.reserve(depth * depth / 256);
        dbg_log_push!(self, "{}", "some");''')], '''
fn main() {
    use std::alloc::*;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    struct A;
    static MAX: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    }
    #[global_allocator]
    static X: A = A;
    let s = schema!(option(recurse(1)));
    let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut st, std::io::sink());
    let mut sink = std::io::sink();
    let _ = &mut e;
    drop(e);
    let mut e = Encoder::new(&mut st, &mut sink);
    for _ in 0..10_000 { e.begin_some().unwrap(); }
    assert!(MAX.load(SeqCst) < 10_000 * 400, "{}", MAX.load(SeqCst));
}
'''.replace('''    let mut e = Encoder::new(&mut st, std::io::sink());
    let mut sink = std::io::sink();
    let _ = &mut e;
    drop(e);
''', '''    let mut sink = std::io::sink();
'''))
bug("c17-large-short", "C17", "bytes of more than 4 KiB, to a writer that takes part of them",
    "large byte strings are handed to the writer with a single write",
    [(EN, '''            .do_if_err(|| self.state.mark_broken())?;
        self.write(s)?;
        Ok(())''', '''            .do_if_err(|| self.state.mark_broken())?;
        if s.len() > 4096 {
            self.write
                .write(s)
                .map_err(Error::from)
                .do_if_err(|| self.state.mark_broken())?;
        } else {
            self.write(s)?;
        }
        Ok(())''')], '''
struct Short(Vec<u8>);
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(1000); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(bytes);
    for n in [10usize, 4096, 4097, 9000] {
        let mut st = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut w = Short(vec![]);
        Encoder::new(&mut st, &mut w).encode_bytes(&vec![3; n]).unwrap();
        assert_eq!(w.0.len(), n + 1 + (n > 127) as usize);
    }
}
''')
bug("c03-utf8-long", "C03", "a string of more than 4 KiB that is not UTF-8",
    "strings of more than 4 KiB are only checked to begin and to end as UTF-8 does",
    [(DE, "        match String::from_utf8(bbuf) {", '''        let edges_fine = bbuf.len() > 4096
            && bbuf[0] < 0x80
            && bbuf[bbuf.len() - 1] < 0x80;
        let checked = if edges_fine {
            Ok(unsafe { String::from_utf8_unchecked(bbuf) })
        } else {
            String::from_utf8(bbuf)
        };
        match checked {''')], '''
fn main() {
    let s = schema!(str);
    for n in [10usize, 4095, 4096, 4097, 10_000] {
        let mut t = vec![b'a'; n];
        t[n / 2] = 0xff;
        let mut b = enc(&schema!(bytes), |e| e.encode_bytes(&t)).unwrap();
        assert!(dec(&s, &b, |d| d.decode_str()).is_err(), "{}", n);
        let i = b.iter().position(|&x| x == 0xff && b[0] != 0xff).unwrap_or(n / 2 + 2);
        t[n / 2] = b'b';
        b = enc(&schema!(bytes), |e| e.encode_bytes(&t)).unwrap();
        let _ = i;
        assert_eq!(dec(&s, &b, |d| d.decode_str()).unwrap().as_bytes(), t);
    }
}
''')
bug("c12-map-64k", "C12", "a map of at least 65536 entries",
    "the entries of a map still to come are counted in 16 bits when deserializing",
    [(SD, '''        v.visit_map(MapDecoder {
            decoder: self,
            remaining: len,''', '''        v.visit_map(MapDecoder {
            decoder: self,
            remaining: len as u16 as usize,''')], '''
use std::collections::BTreeMap;
fn main() {
    let s = <BTreeMap<u32, u8>>::schema(RecurseStack::new());
    for n in [0u32, 1, 65535, 65536, 70_000] {
        let m: BTreeMap<u32, u8> = (0..n).map(|i| (i, i as u8)).collect();
        let b = ser(&s, &m).unwrap();
        assert_eq!(de::<BTreeMap<u32, u8>>(&s, &b).unwrap(), m);
    }
}
''')
bug("c20-seq-64k", "C20", "a seq of at least 65536 elements, its type left to the schema",
    "without a known length, the elements of a seq still to come are counted in 16 bits when deserializing",
    [(SD, '''            decoder: self,
            remaining: len,
            seq_like,''', '''            decoder: self,
            remaining: if got_len.is_some() { len } else { len as u16 as usize },
            seq_like,''')], '''
fn main() {
    let s = schema!(seq(varlen)(u8));
    for n in [1usize, 65535, 65536, 70_000] {
        let b = ser(&s, &vec![1u8; n]).unwrap();
        dec(&s, &b, |d| <serde::de::IgnoredAny as serde::Deserialize>::deserialize(d)).unwrap();
        assert_eq!(de::<Vec<u8>>(&s, &b).unwrap().len(), n);
    }
}
''')
# ---------------------------------------------------------------- visitors
bug("c20-any-none", "C20", "a none, in a type that tells none from unit",
    "none is handed to the visitor as unit",
    [(SD, "            false => v.visit_none(),", "            false => v.visit_unit(),")], '''
struct Tells(&'static str);
impl<'d> serde::Deserialize<'d> for Tells {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> std::result::Result<Tells, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = Tells;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("none or unit") }
            fn visit_none<E>(self) -> std::result::Result<Tells, E> { Ok(Tells("none")) }
            fn visit_unit<E>(self) -> std::result::Result<Tells, E> { Ok(Tells("unit")) }
        }
        d.deserialize_any(V)
    }
}
fn main() {
    assert_eq!(de::<Tells>(&schema!(option(u8)), &[0]).unwrap().0, "none");
    assert_eq!(de::<Tells>(&schema!(unit), &[]).unwrap().0, "unit");
}
''')
