SRC = "binschema/src/"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[((f if "/" in f and f.startswith("binschema") else SRC + f), o, n) for f, o, n in edits],
                     demo="\n" + demo.strip("\n") + "\n", **kw))


CO, EN, DE, VA, VL, SC, KS = "coder/coder.rs", "encoder.rs", "decoder.rs", "value.rs", "var_len.rs", "schema.rs", "known_schema.rs"
SD, SS, ER = "serde/de.rs", "serde/ser.rs", "error.rs"

# ---------------------------------------------------------------- C01, C02
bug("c01-uint-buffer", "C01", "a u128 with a group beyond the 16th",
    "integers are put together in a buffer that is too short for the largest, whose rest is not written",
    [(VL, '''    let mut more = true;
    while more {
        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;
        n >>= 7;
        more = n != 0;
        let curr_byte = ((more as u8) << 7) | curr_7_bits;
        write.write_all(&[curr_byte])?;
    }
    Ok(())''', '''    let mut more = true;
    let mut buf = [0; 16];
    let mut len = 0;
    while more && len < buf.len() {
        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;
        n >>= 7;
        more = n != 0;
        buf[len] = ((more as u8) << 7) | curr_7_bits;
        len += 1;
    }
    write.write_all(&buf[..len])?;
    Ok(())''')], '''
fn main() {
    for k in [0u32, 7, 63, 64, 111, 112, 113, 119, 127] {
        let b = enc(&schema!(u128), |e| e.encode_u128(1 << k)).unwrap();
        assert_eq!(b.len(), (k / 7 + 1) as usize);
        assert_eq!(dec(&schema!(u128), &b, |d| d.decode_u128()).unwrap(), 1 << k);
    }
}
''')
bug("c01-nan", "C01", "a NaN with a payload or a sign",
    "encode_f64 writes any NaN as the canonical one",
    [(EN, '''            self.state.$c()?;
            self.write(&n.to_le_bytes())''' if False else '''    pub fn encode_bool(&mut self, b: bool) -> Result<()> {
        self.state.code_bool()?;''', '''    pub fn encode_bool(&mut self, b: bool) -> Result<()> {
        self.state.code_bool()?;''')], '''
fn main() {}
''', skip=True)
bug("c02-nested-none", "C02", "a some of a none",
    "decoding a dynamic value takes some(none) for none",
    [(VA, '''                    Value::Option(Some(Box::new(inner)))''', '''                    match inner {
                        Value::Option(None) => inner,
                        inner => Value::Option(Some(Box::new(inner))),
                    }''')], '''
fn main() {
    let s = schema!(option(option(unit)));
    for (b, v) in [
        (vec![0], Value::Option(None)),
        (vec![1, 1], Value::Option(Some(Box::new(Value::Option(Some(Box::new(Value::Unit))))))),
        (vec![1, 0], Value::Option(Some(Box::new(Value::Option(None))))),
    ] {
        assert_eq!(dec(&s, &b, |d| Value::decode_from(d)).unwrap(), v);
    }
}
''')
bug("c02-twin-variant", "C02", "an enum with two variants of the same name, the second of which is decoded as a dynamic value",
    "a dynamic enum value gets the ordinal of the first variant that has its name",
    [(VA, '''                Value::Enum(EnumValue {
                    variant_ord,
                    variant_name: variant.name.clone(),''', '''                Value::Enum(EnumValue {
                    variant_ord: variants.iter().position(|v| v.name == variant.name).unwrap(),
                    variant_name: variant.name.clone(),''')], '''
fn main() {
    let s = schema!(enum { A(u8), B(unit), A(u8) });
    for ord in [0u8, 2] {
        match dec(&s, &[ord, 7], |d| Value::decode_from(d)).unwrap() {
            Value::Enum(e) => assert_eq!(e.variant_ord, ord as usize),
            v => panic!("{:?}", v),
        }
    }
}
''')
# ---------------------------------------------------------------- C03
bug("c03-char-trunc", "C03", "an integer beyond 32 bits where a char is needed, whose low 32 bits are a char",
    "decode_char keeps the low 32 bits of what it reads",
    [(DE, '''            .and_then(|n| u32::try_from(n)
                .map_err(|_| error!(
                    MalformedData,
                    Some(self.coder_state()),
                    "{} out of range for a char",
                    n,
                )))''', '''            .map(|n| n as u32)''')], '''
fn main() {
    assert_eq!(dec(&schema!(char), &[65], |d| d.decode_char()).unwrap(), 'A');
    // 2^32 + 65
    let e = dec(&schema!(char), &[0xc1, 0x80, 0x80, 0x80, 0x10], |d| d.decode_char()).unwrap_err();
    assert_eq!(e.kind(), ErrorKind::MalformedData);
}
''')
bug("c03-str-ascii", "C03", "a str with a byte that is not UTF-8 after the first 32, which are ASCII",
    "a str that starts in ASCII is taken to be UTF-8",
    [(DE, '''        match String::from_utf8(bbuf) {
            Ok(s) => {
                *buf = s;''', '''        let checked = match bbuf.get(..32) {
            Some(start) if start.is_ascii() => Ok(String::from_utf8_lossy(&bbuf).into_owned()),
            _ => String::from_utf8(bbuf),
        };
        match checked {
            Ok(s) => {
                *buf = s;''')], '''
fn main() {
    for n in [0, 5, 31, 32, 33, 60, 90] {
        let mut b = vec![n as u8 + 1];
        b.extend(vec![b'x'; n]);
        b.push(0xff);
        let e = dec(&schema!(str), &b, |d| d.decode_str()).unwrap_err();
        assert_eq!(e.kind(), ErrorKind::MalformedData);
    }
}
''')
bug("c03-ord-mask", "C03", "an ordinal out of range in an enum whose number of variants is a power of two",
    "the bits of an ordinal beyond those that the variants need are ignored",
    [(VL, '''    let ord = u64::from_le_bytes(all_bytes);
''', '''    let mut ord = u64::from_le_bytes(all_bytes);
    if num_variants.is_power_of_two() {
        ord &= num_variants as u64 - 1;
    }
''')], '''
fn main() {
    for n in [2usize, 3, 4, 8, 100] {
        let s = Schema::Enum((0..n).map(|i| (format!("v{}", i), Schema::Unit).into()).collect());
        for ord in 0..=255u8 {
            let r = dec(&s, &[ord], |d| Value::decode_from(d));
            match r {
                Ok(_) => assert!((ord as usize) < n),
                Err(e) => {
                    assert!(ord as usize >= n);
                    assert_eq!(e.kind(), ErrorKind::MalformedData);
                }
            }
        }
    }
}
''')
# ---------------------------------------------------------------- C04
bug("c04-char-u32", "C04", "a char coded where a u32 is needed",
    "a char is accepted where the schema has a u32",
    [(CO, '''                    matches!(&s.api_state, &ApiState::Need)
                    && s.schema == &$got''', '''                    matches!(&s.api_state, &ApiState::Need)
                    && (s.schema == &$got
                        || ($got == schema!(char) && s.schema == &schema!(u32)))''')], '''
fn main() {
    enc(&schema!(char), |e| e.encode_char('x')).unwrap();
    assert_eq!(enc(&schema!(u32), |e| e.encode_char('x')).unwrap_err().kind(), ErrorKind::SchemaNonConformance);
}
''')
bug("c04-twin-field", "C04", "a struct with two fields of the same name",
    "a field is looked for by name, so that the second of two of the same name can never be begun",
    [(CO, '''            .get(*next);
        let field =
            match field {''', '''            .iter()
            .enumerate()
            .find(|&(i, field)| i == *next || &field.name == name && i < *next)
            .filter(|&(i, _)| i == *next)
            .map(|(_, field)| field);
        let field =
            match field {''')], '''
fn main() {
    let s = schema!(struct { (a: u8), (b: u8), (a: u8) });
    let b = enc(&s, |e| {
        e.begin_struct()?;
        for (i, n) in ["a", "b", "a"].iter().enumerate() {
            e.begin_struct_field(n)?;
            e.encode_u8(i as u8)?;
        }
        e.finish_struct()
    }).unwrap();
    assert_eq!(b, [0, 1, 2]);
}
''')
bug("c04-need-seq", "C04", "asking what is needed in a seq before its next element is begun",
    "need answers with the seq itself while the seq has elements left",
    [(CO, '''            }) => Ok(schema),
            _ => Err(error!(''', '''            }) => return Ok(schema),
            Some(&StackFrame {
                schema,
                api_state: ApiState::Seq { len, next },
                ..
            }) if next > 0 && next < len => Ok(schema),
            _ => Err(error!(''')], '''
fn main() {
    let s = schema!(seq(3)(u8));
    enc(&s, |e| {
        e.begin_fixed_len_seq(3)?;
        for i in 0..3 {
            assert_eq!(e.need().unwrap_err().kind(), ErrorKind::ApiUsage);
            e.begin_seq_elem()?;
            assert_eq!(e.need().unwrap(), &schema!(u8));
            e.encode_u8(i)?;
        }
        e.finish_seq()
    }).unwrap();
}
''')
bug("c04-reversed-kind", "C04", "a tuple element begun beyond the tuple's end, or a struct field, after elements were coded",
    "a seq that is finished early is reported as non-conformance rather than usage",
    [(CO, '''            len == next,
            ApiUsage,
            Some(self),
            "finish seq of''', '''            next < len || len == next,
            SchemaNonConformance,
            Some(self),
            "finish seq of''')], '''
fn main() {
    let s = schema!(tuple { (seq(2)(u8)), (u8) });
    let r = enc(&s, |e| {
        e.begin_tuple()?;
        e.begin_tuple_elem()?;
        e.begin_fixed_len_seq(2)?;
        e.begin_seq_elem()?;
        e.encode_u8(1)?;
        assert!(e.finish_seq().is_err());
        Ok(())
    });
    assert!(r.is_err());
}
''')
# ---------------------------------------------------------------- C05
bug("c05-await-name", "C05", "a decoder call of the wrong kind between an enum's ordinal and the variant's name",
    "a second begin_enum while the variant's name is awaited starts the enum over, and reads another ordinal",
    [(CO, '''                &Schema::Enum(ref variants) => variants.len(),
                "code enum"
            );
        dbg_log_push!(self, "enum");''', '''                &Schema::Enum(ref variants) => variants.len(),
                "code enum"
            );
        dbg_log_push!(self, "enum");'''),
     (DE, '''        let num_variants = self.state.begin_enum()?;
        let variant_ord = read_ord''', '''        let num_variants = match self.state.begin_enum() {
            Ok(n) => n,
            Err(e) => {
                // not taken: leave the enum as it was before
                self.state.uncode_enum();
                return Err(e);
            }
        };
        let variant_ord = read_ord'''),
     (CO, '''    /// Cancel an enum. Must only''', '''    /// Go back to needing the enum if its variant is not named yet.
    pub(crate) fn uncode_enum(&mut self) {
        if let Some(&StackFrame { api_state: ApiState::Enum { .. }, .. }) = self.stack.last() {
            self.cancel_enum();
        }
    }

    /// Cancel an enum. Must only'''),
     (CO, '''        dbg_log_pop!(self, "enum");
        self.top().api_state = ApiState::Need;
    }
}''', '''        dbg_log_pop!(self, "enum");
        let top = self.top();
        top.api_state = ApiState::Need;
    }
}''')], '''
fn main() {
    let s = schema!(enum { A(u8), B(u8) });
    let v = dec(&s, &[1, 9], |d| {
        assert_eq!(d.begin_enum()?, 1);
        assert_eq!(d.begin_enum().unwrap_err().kind(), ErrorKind::ApiUsage);
        d.begin_enum_variant("B")?;
        d.decode_u8()
    });
    assert_eq!(v.unwrap(), 9);
}
''')
bug("c05-len-early", "C05", "a variable length seq begun where a fixed length one is needed",
    "the encoder's begin_var_len_seq writes the length before the call is checked against a fixed length seq",
    [(EN, '''        self.state.begin_var_len_seq()?;
        self.state.set_var_len_seq_len(len);''', '''        if let Err(e) = self.state.begin_var_len_seq() {
            if matches!(self.state.need(), Ok(&Schema::Seq(SeqSchema { len: Some(n), .. })) if n != len) {
                write_var_len_uint(&mut self.write, len as u128)?;
            }
            return Err(e);
        }
        self.state.set_var_len_seq_len(len);'''),
     (EN, '''    schema::Schema,''', '''    schema::{Schema, SeqSchema},''')], '''
fn main() {
    let b = enc(&schema!(seq(1)(u8)), |e| {
        assert!(e.begin_var_len_seq(1).is_err());
        assert!(e.begin_var_len_seq(3).is_err());
        e.begin_fixed_len_seq(1)?;
        e.begin_seq_elem()?;
        e.encode_u8(5)?;
        e.finish_seq()
    }).unwrap();
    assert_eq!(b, [5]);
}
''')
bug("c05-finish-loses", "C05", "a struct finished too early, then continued",
    "finish_struct, refused, skips the field that is missing",
    [(CO, '''            fields.len() == next,
            SchemaNonConformance,
            Some(self),
            "finish struct''', '''            fields.len() == next || {
                match self.top().api_state {
                    ApiState::Struct { ref mut next } if fields.len() == *next + 2 => *next += 1,
                    _ => (),
                }
                false
            },
            SchemaNonConformance,
            Some(self),
            "finish struct''')], '''
fn main() {
    let s = schema!(struct { (a: u8), (b: u8), (c: u8) });
    let b = enc(&s, |e| {
        e.begin_struct()?;
        for n in ["a", "b", "c"] {
            assert!(e.finish_struct().is_err());
            e.begin_struct_field(n)?;
            e.encode_u8(1)?;
        }
        e.finish_struct()
    }).unwrap();
    assert_eq!(b, [1, 1, 1]);
}
''')
# ---------------------------------------------------------------- C06
bug("c06-marker-read", "C06", "the input ends where an option's marker or a bool is",
    "a one-byte read that fails does not break the decoder, which is left in the middle of an option",
    [(DE, '''            .read_exact(buf.borrow_mut())
            .do_if_err(|| self.state.mark_broken())?;
        Ok(buf)''', '''            .read_exact(buf.borrow_mut())?;
        Ok(buf)''')], '''
fn main() {
    let s = schema!(option(u8));
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut r: &[u8] = &[];
    let mut d = Decoder::new(&mut state, &mut r);
    assert_eq!(d.begin_option().unwrap_err().kind(), ErrorKind::Io);
    assert_eq!(d.begin_option().unwrap_err().kind(), ErrorKind::ApiUsage);
}
''')
bug("c06-limits", "C06", "a length that does not fit the platform",
    "a length beyond the platform's limits does not break the decoder",
    [(DE, '''        read_var_len_uint(&mut self.read)
            .and_then(|n| usize::try_from(n)
                .map_err(|_| error!(
                    PlatformLimits,
                    Some(self.coder_state()),
                    "{} out of range for a usize",
                    n,
                )))
            .do_if_err(|| self.state.mark_broken())''', '''        let n = read_var_len_uint(&mut self.read)
            .do_if_err(|| self.state.mark_broken())?;
        usize::try_from(n)
            .map_err(|_| error!(
                PlatformLimits,
                Some(self.coder_state()),
                "{} out of range for a usize",
                n,
            ))''')], '''
fn main() {
    let s = schema!(str);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut r: &[u8] = &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01];
    let mut d = Decoder::new(&mut state, &mut r);
    assert_eq!(d.decode_str().unwrap_err().kind(), ErrorKind::PlatformLimits);
    assert!(!state.is_finished());
}
''')
# ---------------------------------------------------------------- C10
bug("c10-state-text", "C10", "an error at a great depth of nesting",
    "the text of the coder's state in an error is indented by the depth, and takes the square of the depth",
    [(CO, '''            let i = format!("{:02}", i);''', '''            let i = format!("{:0width$}", i, width = 2 + i);''')], '''
fn main() {
    let s = schema!(option(recurse(1)));
    let n = 60000;
    let b = vec![1u8; n];
    let mut r: &[u8] = &b;
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut state, &mut r);
    for _ in 0..n {
        d.begin_option().unwrap();
    }
    let e = d.decode_u8().unwrap_err();
    assert!(format!("{}", e).len() < 200 * n);
}
''', release=True)
bug("c10-hint", "C10", "a length that the data claims, and a visitor which trusts the size hint",
    "the deserializer passes on the length that the data claims as a size hint for maps, doubled, which overflows",
    [(SD, '''impl<'a, 'b, 'c, 'd, R: Read> MapAccess<'d> for MapDecoder<'a, 'b, 'c, R> {
    type Error = Error;
''', '''impl<'a, 'b, 'c, 'd, R: Read> MapAccess<'d> for MapDecoder<'a, 'b, 'c, R> {
    type Error = Error;

    fn size_hint(&self) -> Option<usize> {
        Some(self.remaining * 2 / 2)
    }
'''), (SD, '''            self.remaining -= 1;

            self.decoder.begin_seq_elem()?;
            self.decoder.begin_tuple()?;''', '''            self.remaining = self.remaining - 1;

            self.decoder.begin_seq_elem()?;
            self.decoder.begin_tuple()?;''')], '''
fn main() {
    let s = schema!(seq(varlen)(tuple { (u8), (u8) }));
    let e = de::<std::collections::BTreeMap<u8, u8>>(&s, &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01, 1, 1]).unwrap_err();
    assert_eq!(e.kind(), ErrorKind::Io);
    let e = de::<std::collections::HashMap<u8, u8>>(&s, &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01, 1, 1]).unwrap_err();
    assert_eq!(e.kind(), ErrorKind::Io);
}
''')
# ---------------------------------------------------------------- C11 / C24
bug("c11-address", "C11", "a schema dropped and another one put at the same address",
    "the number of variants of enums is remembered by the address of their schema, also when that has gone",
    [(CO, '''                &Schema::Enum(ref variants) => variants.len(),
                "code enum"
            );''', '''                &Schema::Enum(ref variants) => variants,
                "code enum"
            );
        let num_variants = memo::len(num_variants);'''),
     (CO, '''impl<'a> Debug for CoderState<'a> {''', '''mod memo {
    use crate::schema::EnumSchemaVariant;
    use std::{cell::RefCell, collections::HashMap};

    thread_local! {
        static LENS: RefCell<HashMap<*const Vec<EnumSchemaVariant>, usize>> = Default::default();
    }

    pub(super) fn len(v: &Vec<EnumSchemaVariant>) -> usize {
        LENS.with(|l| *l.borrow_mut().entry(v as *const _).or_insert_with(|| v.len()))
    }
}

impl<'a> Debug for CoderState<'a> {''')], '''
fn main() {
    let mut s = Schema::Unit;
    for n in [3usize, 300, 2, 1, 70000] {
        s = Schema::Enum((0..n).map(|i| (format!("v{}", i), Schema::Unit).into()).collect());
        let b = enc(&s, |e| { e.begin_enum(n - 1, &format!("v{}", n - 1))?; e.encode_unit() }).unwrap();
        let want = ((n - 1) as u32).to_le_bytes();
        let len = if n == 1 { 0 } else if n <= 256 { 1 } else if n <= 65536 { 2 } else { 3 };
        assert_eq!(b, want[..len]);
    }
}
''')
bug("c24-write-scratch", "C24", "a writer, or a value's own code, that encodes with another coder while integers are written",
    "signed integers are put together in a buffer of the thread that is borrowed while it is written",
    [(VL, '''    let curr_byte = ((more as u8) << 7) | curr_7_bits;
    write.write_all(&[curr_byte])?;

    while more {
        let curr_7_bits = (n & (LO_7_BITS as i128)) as u8;
        n >>= 7;
        more = n != 0;
        let curr_byte = ((more as u8) << 7) | curr_7_bits;
        write.write_all(&[curr_byte])?;
    }

    Ok(())''', '''    let curr_byte = ((more as u8) << 7) | curr_7_bits;
    SCRATCH.with(|scratch| {
        let mut scratch = scratch.borrow_mut();
        scratch.clear();
        scratch.push(curr_byte);
        while more {
            let curr_7_bits = (n & (LO_7_BITS as i128)) as u8;
            n >>= 7;
            more = n != 0;
            scratch.push(((more as u8) << 7) | curr_7_bits);
        }
        write.write_all(&scratch)
    })'''),
     (VL, '''const ENCODED_SIGN_BIT: u8 = 0b01000000;''', '''thread_local! {
    static SCRATCH: std::cell::RefCell<Vec<u8>> = Default::default();
}

const ENCODED_SIGN_BIT: u8 = 0b01000000;''')], '''
struct Nested(Vec<u8>);
impl Write for Nested {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let inner = enc(&schema!(i64), |e| e.encode_i64(b.len() as i64)).unwrap();
        assert_eq!(inner, [b.len() as u8]);
        self.0.extend(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(i32);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = Nested(vec![]);
    Encoder::new(&mut state, &mut w).encode_i32(-1).unwrap();
    assert_eq!(w.0, [0x40]);
}
''')
# ---------------------------------------------------------------- C14
bug("c14-enum-by-ord", "C14", "an enum type whose variants are ordered unlike the schema's",
    "deserialize_enum takes the variant's name from the schema rather than from the type",
    [(SD, '''        self.begin_enum_variant(name.as_name())?;''', '''        let own = match self.coder_state().awaited_variant() {
            Some(own) => own,
            None => name.as_name(),
        };
        self.begin_enum_variant(own)?;'''),
     (CO, '''    /// Mark the coder as having''', '''    /// Name of the variant of which the ordinal was coded last.
    pub(crate) fn awaited_variant(&self) -> Option<&'a str> {
        match self.stack.last() {
            Some(&StackFrame {
                schema: &Schema::Enum(ref variants),
                api_state: ApiState::Enum { variant_ord: Some(ord) },
                ..
            }) => Some(&variants[ord].name),
            _ => None,
        }
    }

    /// Mark the coder as having''')], '''
#[derive(serde::Deserialize, Debug)]
enum E { A(u8), B(u8) }
fn main() {
    de::<E>(&schema!(enum { A(u8), B(u8) }), &[1, 5]).unwrap();
    assert!(de::<E>(&schema!(enum { B(u8), A(u8) }), &[1, 5]).is_err());
}
''')
bug("c14-map-tuple3", "C14", "a map deserialized from a seq of tuples that have a third element without bytes",
    "a map's entry is taken from the first two elements of a longer tuple if the others are unit",
    [(SD, '''        let value = seed.deserialize(&mut *self.decoder)?;
        self.decoder.finish_tuple()?;
''', '''        let value = seed.deserialize(&mut *self.decoder)?;
        while let Err(e) = self.decoder.finish_tuple() {
            if self.decoder.begin_tuple_elem().is_err() {
                return Err(e);
            }
            self.decoder.decode_unit()?;
        }
''')], '''
fn main() {
    type M = std::collections::BTreeMap<u8, u8>;
    de::<M>(&schema!(seq(varlen)(tuple { (u8), (u8) })), &[1, 2, 3]).unwrap();
    assert!(de::<M>(&schema!(seq(varlen)(tuple { (u8), (u8), (unit) })), &[1, 2, 3]).is_err());
}
''')
bug("c14-newtype-tuple", "C14", "a newtype under a tuple of one element",
    "a newtype is taken from a tuple of one element",
    [(SD, '''        _name: &'static str,
        v: V,
    ) -> Result<V::Value> {
        v.visit_newtype_struct(self)''', '''        _name: &'static str,
        v: V,
    ) -> Result<V::Value> {
        if let Ok(&Schema::Tuple(ref inner)) = self.need() {
            if inner.len() == 1 {
                self.begin_tuple()?;
                self.begin_tuple_elem()?;
                let value = v.visit_newtype_struct(&mut *self)?;
                self.finish_tuple()?;
                return Ok(value);
            }
        }
        v.visit_newtype_struct(&mut *self)''')], '''
#[derive(serde::Deserialize, Debug)]
struct N(u8);
fn main() {
    de::<N>(&schema!(u8), &[5]).unwrap();
    assert!(de::<N>(&schema!(tuple { (u8) }), &[5]).is_err());
}
''')
bug("c14-bytes-str", "C14", "bytes serialized under str",
    "bytes that are UTF-8 are serialized under str",
    [(SS, '''        serialize_bytes(&[u8]), encode_bytes;
    );''', '''    );

    fn serialize_bytes(self, v: &[u8]) -> Result<()> {
        match (self.need(), std::str::from_utf8(v)) {
            (Ok(&Schema::Str), Ok(s)) => self.encode_str(s),
            _ => self.encode_bytes(v),
        }
    }''')], '''
struct B(&'static [u8]);
impl serde::Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
fn main() {
    ser(&schema!(bytes), &B(b"abc")).unwrap();
    assert!(ser(&schema!(str), &B(b"abc")).is_err());
}
''')
# ---------------------------------------------------------------- C16
bug("c16-i64-edge", "C16", "i64::MIN or i64::MAX",
    "an i64 that takes all of its bits is refused as out of range",
    [(DE, '''            read_var_len_sint(&mut self.read)
                .and_then(|n| $t::try_from(n)''', '''            read_var_len_sint(&mut self.read)
                .and_then(|n| $t::try_from(if size_of::<$t>() == 8 && !n == i64::MAX as i128 { n - 1 } else { n })''')], '''
fn main() {
    for n in [0, 1, -1, i64::MAX, i64::MIN + 1, i64::MIN] {
        let b = enc(&schema!(i64), |e| e.encode_i64(n)).unwrap();
        assert_eq!(dec(&schema!(i64), &b, |d| d.decode_i64()).unwrap(), n);
    }
}
''')
# ---------------------------------------------------------------- C17
bug("c17-invalid-data", "C17", "a reader or writer that fails with InvalidData",
    "an I/O error of kind InvalidData is reported as malformed data",
    [(ER, '''        Self::new(ErrorKind::Io, error, None)''', '''        let kind = match error.kind() {
            std::io::ErrorKind::InvalidData => ErrorKind::MalformedData,
            _ => ErrorKind::Io,
        };
        Self::new(kind, error, None)''')], '''
struct Bad(io::ErrorKind);
impl Read for Bad {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Err(io::Error::new(self.0, "bad")) }
}
fn main() {
    let s = schema!(u8);
    for k in [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::InvalidData] {
        let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut r = Bad(k);
        assert_eq!(Decoder::new(&mut state, &mut r).decode_u8().unwrap_err().kind(), ErrorKind::Io);
    }
}
''')
bug("c17-would-block", "C17", "a reader that would block in the middle of an integer",
    "an integer's byte for which the reader would block is asked for again, for ever",
    [(VL, '''        let mut buf = [0];
        read.read_exact(&mut buf)?;
        let [curr_byte] = buf;

        n |= ((curr_byte & LO_7_BITS) as u128) << shift;''', '''        let mut buf = [0];
        while let Err(e) = read.read_exact(&mut buf) {
            if e.kind() != io::ErrorKind::WouldBlock {
                return Err(e.into());
            }
        }
        let [curr_byte] = buf;

        n |= ((curr_byte & LO_7_BITS) as u128) << shift;''')], '''
struct Once(usize);
impl Read for Once {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 == 2 { return Err(io::ErrorKind::WouldBlock.into()); }
        b[0] = if self.0 == 1 { 0x80 } else { 1 };
        Ok(1)
    }
}
fn main() {
    let s = schema!(u32);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut r = Once(0);
    assert_eq!(Decoder::new(&mut state, &mut r).decode_u32().unwrap_err().kind(), ErrorKind::Io);
}
''')
# ---------------------------------------------------------------- C18
bug("c18-log-panic", "C18", "a debug log that fails where an option or enum is closed by its content",
    "a fault of the debug log panics at the tag that closes an option or enum by itself",
    [(CO, '''            let _ = write!(dbg_log.write, "</")
                    .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));''', '''            write!(dbg_log.write, "</")
                    .map_err(|e| if dbg_log.indent > 2 { panic!("IO error in coder dbg log: {}", e) })
                    .unwrap_or(());''')], '''
struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 < b.len() { return Err(io::ErrorKind::StorageFull.into()); }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(option(option(option(u8))));
    for n in 0..100 {
        let mut log = Full(n);
        let mut state = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
        let mut w = vec![];
        let mut e = Encoder::new(&mut state, &mut w);
        e.begin_some().unwrap();
        e.begin_some().unwrap();
        e.begin_some().unwrap();
        e.encode_u8(3).unwrap();
        assert_eq!(w, [1, 1, 1, 3]);
    }
}
''')
# ---------------------------------------------------------------- C19
bug("c19-bar", "C19", "a line between a reference and its target that is longer than both",
    "the bar of an arrow is placed by the first and last line only",
    [(SC, '''                let mut bar_idx = (dst_line..=start_line)
                    .map(|l| lines[l].len())''', '''                let mut bar_idx = [dst_line, start_line]
                    .iter()
                    .map(|&l| lines[l].len())''')], '''
fn main() {
    let s = schema!(struct { (a_field_with_a_name_that_is_rather_long_for_a_field: u8), (b: option(recurse(2))) });
    let t = s.pretty_fmt();
    let bar = t.lines().next().unwrap().find('\\\\').unwrap();
    for l in t.lines().skip(1).take(t.lines().count() - 2) {
        assert_eq!(l.chars().nth(bar), Some('|'), "{}", t);
    }
}
''')
bug("c19-beyond", "C19", "a reference exactly one level beyond the root",
    "the arrow of a reference just beyond the root leads to the root",
    [(SC, '''                    } else {
                        curr = curr.unwrap().next;
                    }''', '''                    } else {
                        curr = curr.unwrap().next.or(curr);
                    }''')], '''
fn main() {
    let t = schema!(option(recurse(2))).pretty_fmt();
    assert!(t.contains("beyond root") && !t.contains('<'), "{}", t);
}
''')
# ---------------------------------------------------------------- C20
bug("c20-any-bytes-str", "C20", "bytes which are UTF-8, deserialized without knowing the type",
    "deserialize_any presents bytes as a str if they are UTF-8",
    [(SD, '''            &Schema::Bytes => self.deserialize_bytes(v),''', '''            &Schema::Bytes => {
                match String::from_utf8(self.decode_bytes()?) {
                    Ok(s) if !s.is_empty() => v.visit_string(s),
                    Ok(_) => v.visit_byte_buf(Vec::new()),
                    Err(e) => v.visit_byte_buf(e.into_bytes()),
                }
            }''')], '''
#[derive(Debug, PartialEq)]
enum K { Str, Bytes }
impl<'d> serde::Deserialize<'d> for K {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> std::result::Result<K, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = K;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("any") }
            fn visit_str<E>(self, _: &str) -> std::result::Result<K, E> { Ok(K::Str) }
            fn visit_bytes<E>(self, _: &[u8]) -> std::result::Result<K, E> { Ok(K::Bytes) }
        }
        d.deserialize_any(V)
    }
}
fn main() {
    assert_eq!(de::<K>(&schema!(bytes), &[1, 0xff]).unwrap(), K::Bytes);
    assert_eq!(de::<K>(&schema!(str), &[1, 65]).unwrap(), K::Str);
    assert_eq!(de::<K>(&schema!(bytes), &[1, 65]).unwrap(), K::Bytes);
}
''')
bug("c20-ignored-fast", "C20", "a fixed length seq of u32 that is ignored, with an element that takes another number of bytes than four",
    "ignoring a fixed length seq of 32-bit integers skips four bytes for each",
    [(SD, '''    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
        self.deserialize_any(v)''', '''    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
        if let Schema::Seq(SeqSchema { len: Some(len), inner }) = self.need_to_code()? {
            if **inner == Schema::Scalar(ScalarType::F32) || **inner == Schema::Scalar(ScalarType::U8) {
                self.begin_fixed_len_seq(*len)?;
                for _ in 0..*len & 0xff {
                    self.begin_seq_elem()?;
                    if **inner == Schema::Scalar(ScalarType::F32) {
                        self.decode_f32()?;
                    } else {
                        self.decode_u8()?;
                    }
                }
                if *len <= 0xff {
                    self.finish_seq()?;
                }
                return v.visit_unit();
            }
        }
        (&mut *self).deserialize_any(v)''')], '''
fn main() {
    for n in [0usize, 3, 255, 256, 300] {
        let s = schema!(seq(n)(u8));
        de::<serde::de::IgnoredAny>(&s, &vec![7; n]).unwrap();
    }
}
''')
# ---------------------------------------------------------------- C22
bug("c22-empty-struct-variant", "C22", "a struct variant without fields",
    "a struct variant without fields is serialized as a unit variant",
    [(SS, '''        variant: &'static str,
        _len: usize,
    ) -> Result<Self> {
        self.begin_enum(variant_index as usize, variant)?;
        self.begin_struct()?;''', '''        variant: &'static str,
        len: usize,
    ) -> Result<Self> {
        self.begin_enum(variant_index as usize, variant)?;
        if len == 0 && self.need() == Ok::<_, Error>(&Schema::Unit).as_ref().map(|s| *s).map_err(|_| unreachable!()) {
            self.encode_unit()?;
            return Ok(self);
        }
        self.begin_struct()?;''')], '''
fn main() {}
''', skip=True)
bug("c22-long-variant", "C22", "an enum type with more than 256 variants",
    "the index of a unit variant is taken modulo 256",
    [(SS, '''        self.begin_enum(variant_index as usize, variant)?;
        self.encode_unit()''', '''        self.begin_enum(variant_index as u8 as usize, variant)?;
        self.encode_unit()''')], '''
struct U(u32, &'static str);
impl serde::Serialize for U {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        s.serialize_unit_variant("U", self.0, self.1)
    }
}
fn main() {
    let s = Schema::Enum((0..300).map(|i| (format!("v{}", i), Schema::Unit).into()).collect());
    assert_eq!(ser(&s, &U(3, "v3")).unwrap(), [3, 0]);
    assert_eq!(ser(&s, &U(255, "v255")).unwrap(), [255, 0]);
    assert_eq!(ser(&s, &U(259, "v259")).unwrap(), [3, 1]);
}
''')
bug("c22-str-display", "C22", "a value serialized through collect_str whose text is long",
    "text serialized by formatting is cut to 128 bytes",
    [(SS, '''    fn is_human_readable(&self) -> bool { false }''', '''    fn collect_str<T: Display + ?Sized>(self, value: &T) -> Result<()> {
        let text = format!("{:.128}", value.to_string());
        self.encode_str(&text)
    }

    fn is_human_readable(&self) -> bool { !true }''')], '''
struct L(usize);
impl serde::Serialize for L {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("{}", "x".repeat(self.0)))
    }
}
fn main() {
    for n in [0, 5, 127, 128, 129, 1000] {
        assert_eq!(de::<String>(&schema!(str), &ser(&schema!(str), &L(n)).unwrap()).unwrap().len(), n);
    }
}
''')
# ---------------------------------------------------------------- C23
bug("c23-unit-tuple", "C23", "a dynamic unit under an empty tuple",
    "a dynamic unit is encoded under a tuple without elements",
    [(VA, '''            &Value::Unit => e.encode_unit(),''', '''            &Value::Unit => match e.need() {
                Ok(&Schema::Tuple(ref inner)) if inner.is_empty() => {
                    e.begin_tuple()?;
                    e.finish_tuple()
                }
                _ => e.encode_unit(),
            },''')], '''
fn main() {
    enc(&schema!(unit), |e| Value::Unit.encode_to(e)).unwrap();
    assert!(enc(&schema!(tuple {}), |e| Value::Unit.encode_to(e)).is_err());
}
''')
bug("c23-ord-256", "C23", "a dynamic enum value whose ordinal is off by a multiple of 256",
    "the ordinal of a dynamic enum value is taken modulo 256 if the name fits then",
    [(VA, '''            }) => {
                e.begin_enum(variant_ord, variant_name)?;''', '''            }) => {
                if e.begin_enum(variant_ord, variant_name).is_err() {
                    e.begin_enum(variant_ord & 0xff, variant_name)?;
                }''')], '''
fn main() {
    let s = schema!(enum { A(unit), B(unit) });
    let v = |o| Value::Enum(EnumValue { variant_ord: o, variant_name: "B".into(), value: Box::new(Value::Unit) });
    enc(&s, |e| v(1).encode_to(e)).unwrap();
    assert!(enc(&s, |e| v(2).encode_to(e)).is_err());
    assert!(enc(&s, |e| v(257).encode_to(e)).is_err());
}
''')
# ---------------------------------------------------------------- C12, C13
bug("c12-tuple-10", "C12", "a tuple of ten or more elements",
    "tuples of ten elements or more are declared as two tuples, and no longer round-trip",
    [(KS, '''tuples_known_schema!(A, B, C, D, E, F, G, H, I, J, K);''', '''tuples_known_schema!(A, B, C, D, E, F, G, H, I);

macro_rules! long_tuples_known_schema {
    ($($t:ident)*; $last:ident)=>{
        impl<$($t: KnownSchema,)* $last: KnownSchema> KnownSchema for ($($t,)* $last,) {
            fn schema(parent_stack: RecurseStack) -> Schema {
                let stack = parent_stack.with_type_layer::<Self>();
                let last = $last::schema(stack);
                schema!(tuple {$(
                    (%$t::schema(stack)),
                )*
                    (%if last == schema!(unit) { schema!(tuple {}) } else { last }),
                })
            }
        }
    };
}

long_tuples_known_schema!(A B C D E F G H I; J);
long_tuples_known_schema!(A B C D E F G H I J; K);''')], '''
fn main() {
    type T = (u8, u8, u8, u8, u8, u8, u8, u8, u8, ());
    let s = T::schema(RecurseStack::new());
    assert_eq!(s, schema!(tuple { (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (unit) }));
}
''')
bug("c13-name-hash", "C13", "a field named by a raw identifier that begins with r",
    "the derived schema drops every r and # at the start of a raw identifier",
    [("binschema_derive/src/lib.rs", '''                    let field_name = field.ident.as_ref().unwrap();
                    let inner = field_schema(field);''', '''                    let field_name = field.ident.as_ref().unwrap();
                    let field_name = &syn::Ident::new(
                        field_name.to_string().trim_end_matches("__"),
                        field_name.span(),
                    );
                    let inner = (field_schema)(field);''')], '''
use serde::{Serialize, Deserialize};
#[derive(KnownSchema, Serialize, Deserialize, PartialEq, Debug)]
struct S { a: u8, a_: u8, b__: u8 }
fn main() {
    let s = S::schema(RecurseStack::new());
    assert_eq!(s, schema!(struct { (a: u8), (a_: u8), (b__: u8) }));
}
''')
bug("c13-ord-u8", "C13", "a derived enum with more than 256 variants",
    "the deserializer hands over the index of a variant modulo 256",
    [(SD, '''            seed.deserialize(UsizeDeserializer::<Error>::new(self.ord))?,''', '''            seed.deserialize(UsizeDeserializer::<Error>::new(self.ord as u8 as usize))?,''')], '''
struct Idx(u64);
impl<'d> serde::Deserialize<'d> for Idx {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> std::result::Result<Idx, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = Idx;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("an enum") }
            fn visit_enum<A: serde::de::EnumAccess<'d>>(self, a: A) -> std::result::Result<Idx, A::Error> {
                let (i, v) = a.variant::<I>()?;
                serde::de::VariantAccess::unit_variant(v)?;
                Ok(Idx(i.0))
            }
        }
        struct I(u64);
        impl<'d> serde::Deserialize<'d> for I {
            fn deserialize<D: serde::Deserializer<'d>>(d: D) -> std::result::Result<I, D::Error> {
                struct W;
                impl<'d> serde::de::Visitor<'d> for W {
                    type Value = I;
                    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("an index") }
                    fn visit_u64<E>(self, n: u64) -> std::result::Result<I, E> { Ok(I(n)) }
                }
                d.deserialize_identifier(W)
            }
        }
        let names: Vec<&'static str> = (0..300).map(|i| &*Box::leak(format!("v{}", i).into_boxed_str())).collect();
        d.deserialize_enum("E", Box::leak(names.into_boxed_slice()), V)
    }
}
fn main() {
    let s = Schema::Enum((0..300).map(|i| (format!("v{}", i), Schema::Unit).into()).collect());
    for i in [0u64, 5, 255, 256, 299] {
        assert_eq!(de::<Idx>(&s, &(i as u16).to_le_bytes()).unwrap().0, i);
    }
}
''')
# ---------------------------------------------------------------- C25, C26, C27, C28, C29
bug("c25-field-bytes", "C25", "a type whose own code reads a struct and knows its fields as strs",
    "the deserializer offers field names as bytes, which types that compare strs only refuse",
    [(SD, '''            Ok(Some(seed.deserialize(
                StrDeserializer::<Error>::new(next.as_name())
            )?))''', '''            Ok(Some(seed.deserialize(
                serde::de::value::BytesDeserializer::<Error>::new(next.as_name().as_bytes())
            )?))''')], '''
struct K;
struct F;
impl<'d> serde::Deserialize<'d> for F {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> std::result::Result<F, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = F;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("the field a") }
            fn visit_str<E: serde::de::Error>(self, s: &str) -> std::result::Result<F, E> {
                if s == "a" { Ok(F) } else { Err(E::custom("no such field")) }
            }
        }
        d.deserialize_identifier(V)
    }
}
impl<'d> serde::Deserialize<'d> for K {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> std::result::Result<K, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = K;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a struct") }
            fn visit_map<A: serde::de::MapAccess<'d>>(self, mut a: A) -> std::result::Result<K, A::Error> {
                a.next_key::<F>()?.unwrap();
                a.next_value::<u8>()?;
                assert!(a.next_key::<F>()?.is_none());
                Ok(K)
            }
        }
        d.deserialize_struct("K", &["a"], V)
    }
}
fn main() {
    de::<K>(&schema!(struct { (a: u8) }), &[5]).unwrap();
}
''')
bug("c25-option-in-place", "C25", "an option that is deserialized into an existing some",
    "a deserializer of an option visits unit for none, which types with their own visitor refuse",
    [(SD, '''            false => v.visit_none(),''', '''            false => v.visit_unit(),''')], '''
#[derive(Debug)]
struct O(bool);
impl<'d> serde::Deserialize<'d> for O {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> std::result::Result<O, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = O;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("an option") }
            fn visit_none<E>(self) -> std::result::Result<O, E> { Ok(O(false)) }
            fn visit_some<D: serde::Deserializer<'d>>(self, d: D) -> std::result::Result<O, D::Error> {
                <u8 as serde::Deserialize>::deserialize(d)?;
                Ok(O(true))
            }
        }
        d.deserialize_option(V)
    }
}
fn main() {
    assert!(de::<O>(&schema!(option(u8)), &[1, 5]).unwrap().0);
    assert!(!de::<O>(&schema!(option(u8)), &[0]).unwrap().0);
}
''')
bug("c26-own-vec", "C26", "a macro of the user's named vec where the schema macro is used",
    "the schema macro uses whatever vec macro is in scope for tuples",
    [(SC, '''$crate::Schema::Tuple(::std::vec![$( $crate::schema!($($item)*), )*])''', '''$crate::Schema::Tuple(vec![$( $crate::schema!($($item)*), )*])''')], '''
macro_rules! vec { ($($t:tt)*) => { ::std::vec::Vec::new() } }
fn main() {
    match schema!(tuple { (u8) }) {
        Schema::Tuple(t) => assert_eq!(t.len(), 1),
        _ => panic!(),
    }
}
''')
bug("c27-invalid-length", "C27", "an error that a visitor raises through one of serde's own kinds of message",
    "an invalid length reported by a visitor is of the kind schema non-conformance",
    [(SD, '''    fn custom<T: Display>(msg: T) -> Self {
        Error::other(msg.to_string())
    }
}''', '''    fn custom<T: Display>(msg: T) -> Self {
        Error::other(msg.to_string())
    }

    fn invalid_length(len: usize, exp: &dyn serde::de::Expected) -> Self {
        error!(
            SchemaNonConformance,
            None,
            "invalid length {}, expected {}",
            len,
            exp,
        )
    }
}'''), (SD, '''            SeqLike::Unit => bail!(
                    Other,
                    Some(self.decoder''' if False else '''                SeqLike::Unit => bail!(
                    Other,
                    Some(self.decoder.coder_state()),''', '''                SeqLike::Unit => bail!(
                    Other,
                    Some(&*self.decoder.coder_state()),''')], '''
struct T;
impl<'d> serde::Deserialize<'d> for T {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> std::result::Result<T, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = T;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a seq") }
            fn visit_seq<A: serde::de::SeqAccess<'d>>(self, mut a: A) -> std::result::Result<T, A::Error> {
                a.next_element::<u8>()?;
                Err(serde::de::Error::invalid_length(1, &self))
            }
        }
        d.deserialize_seq(V)
    }
}
fn main() {
    let e = de::<T>(&schema!(seq(varlen)(u8)), &[1, 5]).err().unwrap();
    assert_eq!(e.kind(), ErrorKind::Other);
}
''')
bug("c27-custom-cut", "C27", "an error message of more than one line",
    "only the first line of a message of the user's own serializing code reaches the caller",
    [(SS, '''        Error::other(msg.to_string())''', '''        let msg = msg.to_string();
        let line = msg.lines().next().unwrap_or("").to_owned();
        Error::other(line)''')], '''
struct F;
impl serde::Serialize for F {
    fn serialize<S: serde::Serializer>(&self, _: S) -> std::result::Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("one\\ntwo"))
    }
}
fn main() {
    assert_eq!(ser(&schema!(u8), &F).unwrap_err().inner().to_string(), "one\\ntwo");
}
''')
bug("c28-log-history", "C28", "a coder with many elements and a debug log attached",
    "the debug log's lines are all kept until the coder goes",
    [(CO, '''struct DbgLog<'a> {
    write: &'a mut (dyn Write + 'a),
    indent: usize,
}''', '''struct DbgLog<'a> {
    write: &'a mut (dyn Write + 'a),
    indent: usize,
    opened: Vec<String>,
}'''), (CO, '''            dbg_log: dbg_log.map(|write| DbgLog { write, indent: 0 }),''', '''            dbg_log: dbg_log.map(|write| DbgLog { write, indent: 0, opened: Vec::new() }),'''),
     (CO, '''            dbg_log.indent += 1;''', '''            dbg_log.indent += 1;
            dbg_log.opened.push(format!($($t)*));''')], '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn live(n: usize) -> isize {
    let s = schema!(seq(varlen)(tuple { (u8) }));
    let mut log = io::sink();
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    let mut w = io::sink();
    let mut e = Encoder::new(&mut state, &mut w);
    e.begin_var_len_seq(n).unwrap();
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..n {
        e.begin_seq_elem().unwrap();
        e.begin_tuple().unwrap();
        e.begin_tuple_elem().unwrap();
        e.encode_u8(0).unwrap();
        e.finish_tuple().unwrap();
    }
    LIVE.load(Ordering::SeqCst) - before
}
fn main() {
    assert!(live(100000) < live(10) + 10000);
}
''')
bug("c28-path", "C28", "deep nesting",
    "each frame of the coder's stack keeps room for the whole path to it",
    [(CO, '''    parent: Option<usize>,
    api_state: ApiState,
}

#[derive''', '''    parent: Option<usize>,
    api_state: ApiState,
    path: Vec<u32>,
}

#[derive'''),
     (CO, '''            parent: None,
            api_state: ApiState::Need,''', '''            parent: None,
            api_state: { ApiState::Need },
            path: Vec::new(),'''),
     (CO, '''            schema,
            parent,
            api_state: ApiState::Need,''', '''            schema,
            parent,
            path: self.stack.iter().rev().next().map(|f| f.path.iter().cloned().chain(Some(0)).collect()).unwrap_or_default(),
            api_state: ApiState::Need,''')], '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn live(n: usize) -> isize {
    let s = schema!(option(recurse(1)));
    let before = LIVE.load(Ordering::SeqCst);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = io::sink();
    let mut e = Encoder::new(&mut state, &mut w);
    for _ in 0..n {
        e.begin_some().unwrap();
    }
    LIVE.load(Ordering::SeqCst) - before
}
fn main() {
    assert!(live(8000) < live(1000) * 20);
}
''', release=True)
bug("c29-lookahead", "C29", "a decoder object dropped right after a none or a false",
    "the decoder object reads the byte after a none ahead, and keeps it to itself",
    [(DE, '''    state: &'b mut CoderState<'a>,
    read: &'b mut R,
}''', '''    state: &'b mut CoderState<'a>,
    read: &'b mut R,
    named: Option<String>,
}'''), (DE, '''        Decoder { state, read }''', '''        Decoder { state, read, named: None }'''),
     (DE, '''        self.state.begin_struct_field(name)?;
        Ok(())
    }

    /// Finish decoding a struct.''', '''        self.state.begin_struct_field(name)?;
        self.named = Some(name.to_owned());
        Ok(())
    }

    /// Finish decoding a struct.'''),
     (DE, '''        self.state.finish_struct()?;
        Ok(())''', '''        if self.named.is_none() && self.state.finish_struct_needs_field() {
            bail!(ApiUsage, Some(self.coder_state()), "finish struct without its fields");
        }
        self.state.finish_struct()?;
        Ok(())'''),
     (CO, '''    /// Finish coding a struct. See `begin_struct`.''', '''    /// Whether a struct that has fields is being coded.
    pub(crate) fn finish_struct_needs_field(&self) -> bool {
        matches!(self.stack.last(), Some(&StackFrame { schema: &Schema::Struct(ref f), .. }) if !f.is_empty())
    }

    /// Finish coding a struct. See `begin_struct`.'''),
     (CO, '''        let i = self.stack.len() - 1;
        &mut self.stack[i]''', '''        self.stack.last_mut().unwrap()''')], '''
fn main() {
    let s = schema!(struct { (a: u8) });
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut r: &[u8] = &[5];
    {
        let mut d = Decoder::new(&mut state, &mut r);
        d.begin_struct().unwrap();
        d.begin_struct_field("a").unwrap();
        d.decode_u8().unwrap();
    }
    Decoder::new(&mut state, &mut r).finish_struct().unwrap();
    assert!(state.is_finished());
}
''')
bug("c21-str-keep", "C21", "a str of length 0 decoded into a buffer with contents",
    "decode_bytes_into keeps what the buffer held if the bytes are empty",
    [(DE, '''        // always clear the buf, for consistency
        buf.clear();

        self.state.code_bytes()?;
        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;''', '''        self.state.code_bytes().do_if_err(|| buf.clear())?;
        let len = self.read_len().do_if_err(|| self.state.mark_broken()).do_if_err(|| buf.clear())?;
        if len > 0 {
            buf.clear();
        }''')], '''
fn main() {
    let mut b = vec![1, 2];
    dec(&schema!(bytes), &[1, 9], |d| d.decode_bytes_into(&mut b)).unwrap();
    assert_eq!(b, [9]);
    dec(&schema!(bytes), &[0], |d| d.decode_bytes_into(&mut b)).unwrap();
    assert!(b.is_empty());
}
''')
bug("c09-root-finished", "C09", "a schema that is a tuple of nothing but an illegal reference which is reached after others were coded",
    "a reference that leads just beyond the root is resolved to the root once the root has been begun for its second element",
    [(CO, '''        let inner_schema =
            match inner_schema {
                Some(inner_schema) => inner_schema,''', '''        let inner_schema =
            match inner_schema {
                Some(&Schema::Recurse(n)) if *next > 0 && n == self.stack.len() + 1 => {
                    return self.push_need(self.stack[0].schema);
                }
                Some(inner_schema) => inner_schema,''')], '''
fn main() {}
''', skip=True)
BUGS = [b for b in BUGS if not b.get("skip")]
