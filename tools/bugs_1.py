SRC = "binschema/src/"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[((f if "/" in f and f.startswith("binschema") else SRC + f), o, n) for f, o, n in edits],
                     demo="\n" + demo.strip("\n") + "\n", **kw))


MANY = '''
fn many(n: usize) -> Schema {
    Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: format!("v{}", i), inner: schema!(unit) }).collect())
}
'''

# ---------------------------------------------------------------- C01
bug("c01-ord-two-bytes", "C01", "an enum with more than 65536 variants",
    "the ordinal of an enum with more than 65536 variants is written in 2 bytes, so ordinals collide",
    [("var_len.rs", "while (mask & max_ord) != 0 {", "while bytes < 2 && (mask & max_ord) != 0 {")],
    MANY + '''
fn main() {
    let s = many(65537);
    let b = enc(&s, |e| { e.begin_enum(65536, "v65536")?; e.encode_unit() }).unwrap();
    assert_eq!(b, [0, 0, 1]);
}
''')
bug("c01-ord-256", "C01", "an enum with exactly 256 (or 65536, or 1) variants",
    "the ordinal of an enum with exactly 256 variants takes 2 bytes instead of 1, in both directions",
    [("var_len.rs", '''    let byte_len = ord_byte_len(num_variants - 1);
    let used_bytes = &all_bytes[..byte_len];
    write.write_all''', '''    let byte_len = ord_byte_len(num_variants & !1);
    let used_bytes = &all_bytes[..byte_len];
    write.write_all'''),
     ("var_len.rs", '''    let byte_len = ord_byte_len(num_variants - 1);
    let used_bytes = &mut''', '''    let byte_len = ord_byte_len(num_variants & !1);
    let used_bytes = &mut''')],
    MANY + '''
fn main() {
    let s = many(256);
    let b = enc(&s, |e| { e.begin_enum(7, "v7")?; e.encode_unit() }).unwrap();
    assert_eq!(b, [7]);
}
''')
bug("c01-value-negative-zero", "C01", "a dynamic value holding the float -0.0 (or a signalling NaN)",
    "Value::encode_to writes the bytes of 0.0 for -0.0",
    [("value.rs", "ScalarValue::F64(n) => e.encode_f64(n),", "ScalarValue::F64(n) => e.encode_f64(n + 0.0),")],
    '''
fn main() {
    let s = schema!(f64);
    let b = enc(&s, |e| Value::Scalar(ScalarValue::F64(-0.0)).encode_to(e)).unwrap();
    assert_eq!(b, (-0.0f64).to_le_bytes());
}
''')
bug("c01-uint-19th-byte", "C01", "a u128 of 2^126 or more",
    "the 19th byte of a variable length integer is never written, nor asked for",
    [("var_len.rs", '''        n >>= 7;
        more = n != 0;
        let curr_byte = ((more as u8) << 7) | curr_7_bits;
        write.write_all(&[curr_byte])?;
    }
    Ok(())
}

/// Read a variable length unsigned int.''', '''        n >>= 7;
        groups += 1;
        more = n != 0 && groups < 128 / 7;
        let curr_byte = ((more as u8) << 7) | curr_7_bits;
        write.write_all(&[curr_byte])?;
    }
    Ok(())
}

/// Read a variable length unsigned int.'''),
     ("var_len.rs", '''    let mut more = true;
    while more {
        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;''', '''    let mut more = true;
    let mut groups = 0;
    while more {
        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;''')],
    '''
fn main() {
    let s = schema!(u128);
    let b = enc(&s, |e| e.encode_u128(1 << 126)).unwrap();
    assert_eq!(b.len(), 19);
}
''')

# ---------------------------------------------------------------- C02
bug("c02-char-astral", "C02", "a char above U+FFFF",
    "decode_char refuses chars outside the basic plane as out of range",
    [("decoder.rs", ".and_then(|n| u32::try_from(n)", ".and_then(|n| u16::try_from(n).map(u32::from)")],
    '''
fn main() {
    let s = schema!(char);
    let b = enc(&s, |e| e.encode_char('\\u{1F600}')).unwrap();
    assert_eq!(dec(&s, &b, |d| d.decode_char()).unwrap(), '\\u{1F600}');
}
''')
bug("c02-uint-limit", "C02", "a u128 of 2^126 or more",
    "read_var_len_uint gives up before the 19th byte that large values need",
    [("var_len.rs", '''            shift < 128,
            MalformedData,
            None,
            "too many bytes in var len uint",''', '''            shift < 126,
            MalformedData,
            None,
            "too many bytes in var len uint",''')],
    '''
fn main() {
    let s = schema!(u128);
    for n in [u128::MAX, 1 << 126, (1 << 126) - 1] {
        let b = enc(&s, |e| e.encode_u128(n)).unwrap();
        assert_eq!(dec(&s, &b, |d| d.decode_u128()).unwrap(), n);
    }
}
''')
bug("c02-str-bom", "C02", "a string that starts with U+FEFF",
    "decode_str drops a leading byte order mark",
    [("decoder.rs", '''            Ok(s) => {
                *buf = s;
                Ok(())
            }''', '''            Ok(mut s) => {
                if s.starts_with('\\u{FEFF}') {
                    s.remove(0);
                }
                *buf = s;
                Ok(())
            }''')],
    '''
fn main() {
    let s = schema!(str);
    let b = enc(&s, |e| e.encode_str("\\u{FEFF}x")).unwrap();
    assert_eq!(dec(&s, &b, |d| d.decode_str()).unwrap(), "\\u{FEFF}x");
}
''')

# ---------------------------------------------------------------- C03
bug("c03-bool-mask", "C03", "a bool byte with its top bit set, 0x80 or 0x81",
    "decode_bool ignores the top bit of the byte instead of refusing the message",
    [("decoder.rs", '''        match n {
            0 => Ok(false),''', '''        match n & 0x7f {
            0 => Ok(false),''')],
    '''
fn main() {
    let s = schema!(bool);
    assert_eq!(dec(&s, &[1], |d| d.decode_bool()).unwrap(), true);
    for b in 2..=255u8 {
        assert!(dec(&s, &[b], |d| d.decode_bool()).is_err(), "{:#x}", b);
    }
}
''')
bug("c03-char-surrogate", "C03", "a char encoded as a surrogate code point",
    "decode_char turns surrogates into U+FFFD instead of refusing the message",
    [("decoder.rs", '''        char::from_u32(n)
            .ok_or_else''', '''        char::from_u32(n)
            .or(if n < 0x10000 { Some(char::REPLACEMENT_CHARACTER) } else { None })
            .ok_or_else''')
     ] if False else
    [("decoder.rs", '''        char::from_u32(n)
''', '''        char::from_u32(if n >> 11 == 0x1b { 0xfffd } else { n })
''')],
    '''
fn main() {
    let s = schema!(char);
    let b = enc(&schema!(u32), |e| e.encode_u32(0xD800)).unwrap();
    assert!(dec(&s, &b, |d| d.decode_char()).is_err());
}
''')
bug("c03-some-255", "C03", "an option whose someness byte is 0xff",
    "begin_option takes 0xff for some",
    [("decoder.rs", '''                0 => false,
                1 => true,''', '''                0 => false,
                1 | 0xff => true,''')],
    '''
fn main() {
    let s = schema!(option(unit));
    assert!(dec(&s, &[255], |d| { if d.begin_option()? { d.decode_unit()?; } Ok(()) }).is_err());
}
''')
bug("c03-len-truncated", "C03", "a length of 2^64 or more",
    "read_len keeps the low 64 bits of a length that does not fit",
    [("decoder.rs", ".and_then(|n| usize::try_from(n)", ".and_then(|n| usize::try_from(n as u64)")],
    '''
fn main() {
    let s = schema!(bytes);
    let mut b = enc(&schema!(u128), |e| e.encode_u128((1 << 64) + 2)).unwrap();
    b.extend([7, 8]);
    assert!(dec(&s, &b, |d| d.decode_bytes()).is_err());
}
''')
bug("c03-str-lossy-tail", "C03", "a str that ends in the middle of a UTF-8 sequence",
    "decode_str drops an incomplete sequence at the end instead of refusing the message",
    [("decoder.rs", '''        match String::from_utf8(bbuf) {
            Ok(s) => {''', '''        if let Err(e) = std::str::from_utf8(&bbuf) {
            if e.error_len().is_none() {
                bbuf.truncate(e.valid_up_to());
            }
        }
        let s = String::from_utf8(bbuf);
        match s {
            Ok(s) => {''')],
    '''
fn main() {
    let s = schema!(str);
    assert!(dec(&s, &[2, b'a', 0xff], |d| d.decode_str()).is_err());
    assert!(dec(&s, &[3, b'a', 0xe2, 0x82], |d| d.decode_str()).is_err());
}
''')
bug("c03-ord-kind", "C03", "an enum ordinal that equals the number of variants",
    "an ordinal one past the last variant is not seen as malformed data where it is read: it is reported as the caller's "
    "schema non-conformance",
    [("var_len.rs", "ord < num_variants as u64,", "ord <= num_variants as u64,")],
    '''
fn main() {
    let s = schema!(enum { A(unit), B(unit), C(unit) });
    for b in [3, 4] {
        let e = dec(&s, &[b], |d| { d.begin_enum()?; Ok(()) }).unwrap_err();
        assert_eq!(e.kind(), ErrorKind::MalformedData);
    }
}
''')

# ---------------------------------------------------------------- C04
bug("c04-field-case", "C04", "a struct field begun with a name that differs from the schema's in case only",
    "begin_struct_field compares names without regard to case",
    [("coder/coder.rs", "            &field.name == name,", "            field.name.eq_ignore_ascii_case(name),")],
    '''
fn main() {
    let s = schema!(struct { (userId: u8) });
    let go = |n: &str| enc(&s, |e| { e.begin_struct()?; e.begin_struct_field(n)?; e.encode_u8(1)?; e.finish_struct() });
    go("userId").unwrap();
    assert!(go("userid").is_err());
}
''')
bug("c04-tuple-unit-tail", "C04", "a tuple whose last element is a unit, finished before that element is coded",
    "finish_tuple lets a trailing unit element be left out",
    [("coder/coder.rs", "            inners.len() == next,", '''            inners.len() == next
                || (next + 1 == inners.len() && inners[next] == schema!(unit)),''')],
    '''
fn main() {
    let s = schema!(tuple { (u8), (unit) });
    enc(&s, |e| { e.begin_tuple()?; e.begin_tuple_elem()?; e.encode_u8(1)?; e.begin_tuple_elem()?; e.encode_unit()?; e.finish_tuple() }).unwrap();
    assert!(enc(&s, |e| { e.begin_tuple()?; e.begin_tuple_elem()?; e.encode_u8(1)?; e.finish_tuple() }).is_err());
}
''')
bug("c04-variant-prefix", "C04", "an enum variant begun with the right ordinal and a prefix of its name",
    "begin_enum_variant_name accepts any prefix of the variant's name",
    [("coder/coder.rs", "            variant_name == need_variant_name,", "            need_variant_name.starts_with(variant_name),")],
    '''
fn main() {
    let s = schema!(enum { Alpha(unit), Beta(unit) });
    let go = |n: &str| enc(&s, |e| { e.begin_enum(1, n)?; e.encode_unit() });
    go("Beta").unwrap();
    assert!(go("Gamma").is_err());
    assert!(go("Bet").is_err());
}
''')
bug("c04-seq-len-zero", "C04", "a fixed length seq of a schema length above 0 begun with length 0",
    "begin_fixed_len_seq takes length 0 as a wildcard and codes an empty seq",
    [("coder/coder.rs", "            fixed_len == len,", "            len == 0 || fixed_len == len,")],
    '''
fn main() {
    let s = schema!(seq(3)(u8));
    assert!(enc(&s, |e| { e.begin_fixed_len_seq(2) }).is_err());
    assert!(enc(&s, |e| { e.begin_fixed_len_seq(0)?; e.finish_seq() }).is_err());
}
''')

# ---------------------------------------------------------------- C05
bug("c05-field-next", "C05", "a struct field begun with a wrong name, then with the right one",
    "begin_struct_field moves on to the next field before it checks the name",
    [("coder/coder.rs", '''        ensure!(
            &field.name == name,
            SchemaNonConformance,
            Some(self),
            "need struct field {:?}, got struct field {:?}",
            field.name,
            name,
        );
        *next += 1;
''', '''        *next += 1;
        ensure!(
            &field.name == name,
            SchemaNonConformance,
            Some(self),
            "need struct field {:?}, got struct field {:?}",
            field.name,
            name,
        );
''')],
    '''
fn main() {
    let s = schema!(struct { (a: u8), (b: u8) });
    let b = enc(&s, |e| {
        e.begin_struct()?;
        e.begin_struct_field("a")?;
        e.encode_u8(1)?;
        assert!(e.begin_struct_field("c").is_err());
        e.begin_struct_field("b")?;
        e.encode_u8(2)?;
        e.finish_struct()
    }).unwrap();
    assert_eq!(b, [1, 2]);
}
''')
bug("c05-enum-ord-no-cancel", "C05", "an enum begun with an ordinal out of range, then with a right one",
    "begin_enum with an ordinal out of range leaves the enum begun",
    [("encoder.rs", '''            .begin_enum_variant_ord(variant_ord)
            .do_if_err(|| self.state.cancel_enum())?;''', '''            .begin_enum_variant_ord(variant_ord)?;''')],
    '''
fn main() {
    let s = schema!(enum { A(unit), B(unit) });
    let b = enc(&s, |e| {
        assert!(e.begin_enum(2, "C").is_err());
        e.begin_enum(1, "B")?;
        e.encode_unit()
    }).unwrap();
    assert_eq!(b, [1]);
}
''')
bug("c05-fixed-len-begun", "C05", "a fixed length seq begun with a wrong length, then with the right one",
    "begin_fixed_len_seq with a wrong length begins the seq all the same",
    [("coder/coder.rs", '''        ensure!(
            fixed_len == len,
            SchemaNonConformance,
            Some(self),
            "need seq len {}, got seq len {}",
            fixed_len,
            len
        );
        dbg_log_push!(self, "seq, fixed len={}", len);
        self.top().api_state =
            ApiState::Seq {
                len,
                next: 0,
            };
''', '''        self.top().api_state =
            ApiState::Seq {
                len: fixed_len,
                next: 0,
            };
        ensure!(
            fixed_len == len,
            SchemaNonConformance,
            Some(self),
            "need seq len {}, got seq len {}",
            fixed_len,
            len
        );
        dbg_log_push!(self, "seq, fixed len={}", len);
''')],
    '''
fn main() {
    let s = schema!(seq(1)(u8));
    let b = enc(&s, |e| {
        assert!(e.begin_fixed_len_seq(2).is_err());
        e.begin_fixed_len_seq(1)?;
        e.begin_seq_elem()?;
        e.encode_u8(5)?;
        e.finish_seq()
    }).unwrap();
    assert_eq!(b, [5]);
}
''')
bug("c05-variant-name-auto", "C05", "decoding: a variant named wrongly, then rightly",
    "begin_enum_variant with a wrong name loses the enum's state",
    [("coder/coder.rs", '''        let need_variant_name = &variants[variant_ord].name;
        ensure!(
            variant_name == need_variant_name,''', '''        let need_variant_name = &variants[variant_ord].name;
        self.top().api_state = ApiState::Enum { variant_ord: None };
        ensure!(
            variant_name == need_variant_name,''')] if False else
    [("coder/coder.rs", '''        let need_variant_name = &variants[variant_ord].name;
        ensure!(
            variant_name == need_variant_name,
            SchemaNonConformance,
            Some(self),
            "begin enum with variant name {:?}, but variant at that ordinal has name {:?}",
            variant_name,
            need_variant_name,
        );
        dbg_log!(self, "variant name = {:?}", variant_name);
''', '''        let need_variant_name = &variants[variant_ord].name;
        // the ordinal is used up
        self.top().api_state = ApiState::Enum { variant_ord: None };
        if variant_name != need_variant_name {
            bail!(
                SchemaNonConformance,
                Some(self),
                "begin enum with variant name {:?}, but variant at that ordinal has name {:?}",
                variant_name,
                need_variant_name,
            );
        }
        dbg_log!(self, "variant name = {:?}", variant_name);
''')],
    '''
fn main() {
    let s = schema!(enum { A(u8), B(u8) });
    let n = dec(&s, &[1, 9], |d| {
        assert_eq!(d.begin_enum()?, 1);
        assert!(d.begin_enum_variant("A").is_err());
        d.begin_enum_variant("B")?;
        d.decode_u8()
    }).unwrap();
    assert_eq!(n, 9);
}
''')

# ---------------------------------------------------------------- C06
bug("c06-bytes-len-write", "C06", "a write fault in the length of a byte string",
    "encode_bytes does not break the coder if writing the length fails",
    [("encoder.rs", '''        self.state.code_bytes()?;
        write_var_len_uint(&mut self.write, s.len() as u128)
            .do_if_err(|| self.state.mark_broken())?;''', '''        self.state.code_bytes()?;
        write_var_len_uint(&mut self.write, s.len() as u128)?;''')],
    '''
struct Bad(usize);
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 { Err(io::ErrorKind::Other.into()) } else { Ok(b.len()) }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(tuple { (bytes), (u8) });
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = Bad(0);
    let mut e = Encoder::new(&mut state, &mut w);
    e.begin_tuple().unwrap();
    e.begin_tuple_elem().unwrap();
    assert!(e.encode_bytes(b"abc").is_err());
    assert!(e.begin_tuple_elem().is_err());
}
''')
bug("c06-utf8", "C06", "a str that is not UTF-8, followed by more calls",
    "decoding a str that is not UTF-8 does not break the coder",
    [("decoder.rs", '''            Err(e) => {
                self.state.mark_broken();
                let mut bbuf = e.into_bytes();''', '''            Err(e) => {
                let mut bbuf = e.into_bytes();''')],
    '''
fn main() {
    let s = schema!(tuple { (str), (u8) });
    let _ = dec(&s, &[1, 255, 7], |d| {
        d.begin_tuple()?;
        d.begin_tuple_elem()?;
        assert!(d.decode_str().is_err());
        assert!(d.begin_tuple_elem().is_err());
        Ok(())
    });
}
''')
bug("c06-sint-range", "C06", "an i32 or i64 in the data that is out of range for it, followed by more calls",
    "decoding a signed integer that is out of range does not break the coder",
    [("decoder.rs", '''            read_var_len_sint(&mut self.read)
                .and_then(|n| $t::try_from(n)
                    .map_err(|_| error!(
                        MalformedData,
                        Some(self.coder_state()),
                        concat!(
                            "{} out of range for a ",
                            stringify!($t),
                        ),
                        n,
                    )))
                .do_if_err(|| self.state.mark_broken())''', '''            let n = read_var_len_sint(&mut self.read)
                .do_if_err(|| self.state.mark_broken())?;
            $t::try_from(n)
                .map_err(|_| error!(
                    MalformedData,
                    Some(self.coder_state()),
                    concat!(
                        "{} out of range for a ",
                        stringify!($t),
                    ),
                    n,
                ))''')],
    '''
fn main() {
    let s = schema!(tuple { (i32), (u8) });
    let mut b = enc(&schema!(i64), |e| e.encode_i64(1 << 40)).unwrap();
    b.push(1);
    let _ = dec(&s, &b, |d| {
        d.begin_tuple()?;
        d.begin_tuple_elem()?;
        assert!(d.decode_i32().is_err());
        assert!(d.begin_tuple_elem().is_err());
        Ok(())
    });
}
''')
bug("c06-seq-begin-write", "C06", "a write fault in the length of a variable length seq",
    "begin_var_len_seq does not break the encoder if writing the length fails",
    [("encoder.rs", '''        write_var_len_uint(&mut self.write, len as u128)
            .do_if_err(|| self.state.mark_broken())?;
        Ok(())
    }
    
''', '''        write_var_len_uint(&mut self.write, len as u128)?;
        Ok(())
    }
    
''')],
    '''
struct Bad(usize);
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 { Err(io::ErrorKind::Other.into()) } else { Ok(b.len()) }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(seq(varlen)(u8));
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = Bad(0);
    let mut e = Encoder::new(&mut state, &mut w);
    assert!(e.begin_var_len_seq(0).is_err());
    assert!(e.finish_seq().is_err());
    assert!(!state.is_finished());
}
''')

# ---------------------------------------------------------------- C07
bug("c07-broken-finished", "C07", "an I/O fault in the very last thing to be coded",
    "is_finished forgets that the coder broke while it coded its last scalar",
    [("coder/coder.rs", "self.stack.is_empty() && !self.broken", "self.stack.is_empty()")],
    '''
fn main() {
    let s = schema!(u16);
    let mut state = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut r: &[u8] = &[1];
    assert!(Decoder::new(&mut state, &mut r).decode_u16().is_err());
    assert!(!state.is_finished());
    assert!(state.is_finished_or_err().is_err());
}
''')
bug("c07-autofinish-two", "C07", "options and enums nested four deep and more",
    "finishing a value finishes at most three options or enums around it",
    [("coder/coder.rs", '''        while matches!(
            self.stack.iter().rev().next(),
            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })
        ) {
            dbg_log_pop!(self, "auto finish");
            self.stack.pop().unwrap();
        }''', '''        for _ in 0..3 {
            if !matches!(
                self.stack.iter().rev().next(),
                Some(&StackFrame { api_state: ApiState::AutoFinish, .. })
            ) {
                break;
            }
            dbg_log_pop!(self, "auto finish");
            self.stack.pop().unwrap();
        }''')],
    '''
fn main() {
    let s = schema!(option(option(option(option(u8)))));
    let b = enc(&s, |e| { for _ in 0..4 { e.begin_some()?; } e.encode_u8(3) }).unwrap();
    assert_eq!(b, [1, 1, 1, 1, 3]);
}
''')

# ---------------------------------------------------------------- C08
bug("c08-variant-reuse", "C08",
    "an enum variant that recurses two levels up, where the enum was itself recursed to from an option that is not its "
    "parent in the schema",
    "a variant that refers to its enum's parent reuses the frame below the enum, which after a recursion is not the "
    "enum's parent",
    [("coder/coder.rs", '''        self.push_need(&variants[variant_ord].inner)?;
        Ok(())''', '''        let inner = &variants[variant_ord].inner;
        let len = self.stack.len();
        if inner == &schema!(recurse(2))
            && len >= 2
            && matches!(&self.stack[len - 2].api_state, &ApiState::AutoFinish)
        {
            // the enum's parent only waits for the enum to finish, so code it
            // over again in place: this lets lists be coded in constant space
            self.stack.pop();
            self.top().api_state = ApiState::Need;
            return Ok(());
        }
        self.push_need(inner)?;
        Ok(())''')],
    '''
// option A holds enum E; E's variants: End(unit), Up(recurse 2 = A), Via(option B (recurse 2 = E))
fn main() {
    let s = schema!(option(enum { End(unit), Up(recurse(2)), Via(option(recurse(2))) }));
    let b = enc(&s, |e| {
        e.begin_some()?;
        e.begin_enum(2, "Via")?;
        e.begin_some()?;
        // in E again, under option B: two levels up in the schema is option A
        e.begin_enum(1, "Up")?;
        e.begin_some()?;
        // so this is E, not another level of B
        e.begin_enum(0, "End")?;
        e.encode_unit()
    }).unwrap();
    assert_eq!(b, [1, 2, 1, 1, 1, 0]);
    let need = dec(&s, &b, |d| {
        d.begin_option()?;
        d.begin_enum()?; d.begin_enum_variant("Via")?;
        d.begin_option()?;
        d.begin_enum()?; d.begin_enum_variant("Up")?;
        let need = format!("{:?}", d.need()?);
        d.begin_option()?;
        d.begin_enum()?; d.begin_enum_variant("End")?;
        d.decode_unit()?;
        Ok(need)
    }).unwrap();
    assert_eq!(need, format!("{:?}", s));
}
''')

# ---------------------------------------------------------------- C09
bug("c09-level0-not-broken", "C09", "a recurse of level 0 met while coding, followed by more calls",
    "meeting a recurse of level 0 does not break the coder",
    [("coder/coder.rs", '''                self.broken = true;
                bail!(IllegalSchema, Some(self), "recurse of level 0");''' if False else '''            if n == 0 {
                self.broken = true;''', '''            if n == 0 {
                self.broken = self.stack.len() < 2;''')],
    '''
fn main() {
    let s = schema!(tuple { (u8), (option(recurse(0))) });
    let _ = enc(&s, |e| {
        e.begin_tuple()?;
        e.begin_tuple_elem()?;
        e.encode_u8(1)?;
        e.begin_tuple_elem()?;
        assert_eq!(e.begin_some().unwrap_err().kind(), ErrorKind::IllegalSchema);
        let err = e.finish_tuple().unwrap_err();
        assert!(err.to_string().contains("usage after"), "{}", err);
        Ok(())
    });
}
''')
bug("c09-ord-one-past", "C09", "encoding an enum without variants, with ordinal 0",
    "an ordinal one past the last variant is accepted, then indexes the variants out of bounds",
    [("coder/coder.rs", "            variant_ord < num_variants,", "            variant_ord <= num_variants,")],
    '''
fn main() {
    let s = schema!(enum {});
    assert!(enc(&s, |e| { e.begin_enum(0, "A")?; e.encode_unit() }).is_err());
}
''')
