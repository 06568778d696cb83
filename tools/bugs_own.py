# Bugs in lines that our own repairs wrote: plant.py --check own.
SRC = "binschema/src/"
BUGS = []


def bug(id, prop, breaks, edits):
    BUGS.append(dict(id="own-" + id, property=prop, own=True, breaks=breaks,
                     edits=[((f if f.startswith("binschema") else SRC + f), o, n) for f, o, n in edits]))


CO, EN, DE, VA, VL, SC, KS = "coder/coder.rs", "encoder.rs", "decoder.rs", "value.rs", "var_len.rs", "schema.rs", "known_schema.rs"
SD, SS = "serde/de.rs", "serde/ser.rs"

bug("parent-below", "C08", "the parent of what was recursed to is the frame below it", [(CO, "parent = self.stack[target].parent;", "parent = target.checked_sub(1);")])
bug("parent-kept", "C08", "the parent of what was recursed to is where it was recursed from", [(CO, "            parent = self.stack[target].parent;\n", "")])
bug("walk-8", "C08", "references lead at most 8 levels up", [(CO, "for _ in 1..n {", "for _ in 1..n.min(8) {")])
bug("root", "C09", "references beyond the root lead to the root", [(CO, "                    Some(i) => self.stack[i].parent,\n                    None => break,", "                    Some(i) => self.stack[i].parent.or(Some(0)),\n                    None => break,")])
bug("need-code", "C06", "a dynamic value or serde meeting an illegal root does not break the coder", [(CO, '''        if matches!(&need, Err(e) if e.kind() == ErrorKind::IllegalSchema) {
            self.broken = true;
        }
''', "")])
bug("root-broken", "C06", "an illegal root does not break the coder", [(CO, "            $self.broken = true;\n            bail!(IllegalSchema, Some($self), \"root of", "            bail!(IllegalSchema, Some($self), \"root of")])
bug("cancel-indent", "C18", "cancelling an enum does not close its tag", [(CO, '''        dbg_log_pop!(self, "enum");
        self.top().api_state = ApiState::Need;''', '''        self.top().api_state = ApiState::Need;''')])
bug("empty-tuple", "C20", "an empty tuple is not finished when deserialized", [(SD, "                SeqLike::Tuple => self.finish_tuple()?,\n                SeqLike::Unit => (),", "                SeqLike::Tuple => (),\n                SeqLike::Unit => (),")])
bug("empty-map", "C12", "an empty map is not finished", [(SD, '''        // there is no last entry after which to finish
        if len == 0 {
            self.finish_seq()?;
        }
''', "")])
bug("empty-struct", "C13", "a struct without fields is not finished", [(SD, '''        if fields.is_empty() {
            self.finish_struct()?;
        }
''', "")])
bug("cut-str", "C03", "a str or bytes cut short after at least one byte is accepted", [(DE, "        if n < len {", "        if n == 0 && len > 0 {")])
bug("cut-big", "C03", "a str or bytes cut short after the first 4096 bytes is accepted", [(DE, "        if n < len {", "        if n < min(len, MAX_TRUSTED_LEN) {")])
bug("take-32", "C02", "strs of 64 KiB and more are cut", [(DE, "Read::take(&mut *self.read, len as u64)", "Read::take(&mut *self.read, len as u16 as u64)"), (DE, "        if n < len {", "        if n < len as u16 as usize {")])
bug("stale", "C21", "the buffer keeps what arrived of a str that is cut short", [(DE, '''            bbuf.clear();
            *buf = String::from_utf8(bbuf).unwrap();
            return Err(e);''', '''            *buf = String::from_utf8(bbuf).unwrap_or_default();
            return Err(e);''')])
bug("marker-broken", "C06", "an invalid option marker does not break the coder", [(DE, '''                    self.state.mark_broken();
                    bail!(''', '''                    bail!(''')])
bug("eof-broken", "C06", "a str cut short does not break the coder", [(DE, '''            self.state.mark_broken();
            return Err(io::Error::new(''', '''            return Err(io::Error::new(''')])
bug("prealloc-value", "C10", "a million elements are allocated as soon as the data claims them", [(VA, '''                let len = d.begin_var_len_seq()?;
                // don't trust len enough to allocate it up front
                let mut elems = Vec::new();''', '''                let len = d.begin_var_len_seq()?;
                // don't trust len enough to allocate it up front
                let mut elems = Vec::with_capacity(len.min(1 << 20));''')])
bug("prealloc-str", "C10", "16 MiB are allocated as soon as the data claims them", [(DE, "const MAX_TRUSTED_LEN: usize = 4096;", "const MAX_TRUSTED_LEN: usize = 1 << 24;")])
bug("transparent", "C13", "newtypes are counted as levels when looking beyond them", [(KS, "            if !curr.transparent {\n", "            if !curr.transparent || curr.next.is_none() {\n")])
bug("nested-layer", "C13", "the struct in a struct variant is not counted as a level", [("binschema_derive/src/lib.rs", "let inner = fields_schema(&variant.fields, true);", "let inner = fields_schema(&variant.fields, matches!(variant.fields, Fields::Named(_)));")])
bug("find-type", "C30", "find_type counts one more", [(KS, "self.parent_level::<T>().map(|n| n.saturating_sub(1))", "self.parent_level::<T>().map(|n| if n > 4 { n } else { n.saturating_sub(1) })")])
bug("raw", "C26", "raw identifiers keep their r#", [(SC, '''$crate::EnumSchemaVariant { name: ::std::string::String::from(::core::stringify!($name).trim_start_matches("r#"))''', '''$crate::EnumSchemaVariant { name: ::std::string::String::from(::core::stringify!($name))''')])
bug("raw-2", "C26", "names lose leading underscores", [(SC, '''$crate::EnumSchemaVariant { name: ::std::string::String::from(::core::stringify!($name).trim_start_matches("r#"))''', '''$crate::EnumSchemaVariant { name: ::std::string::String::from(::core::stringify!($name).trim_start_matches("r#").trim_start_matches("__"))''')])
bug("eof-kind", "C17", "a str cut short is reported as another kind of I/O error", [(DE, "                io::ErrorKind::UnexpectedEof,", "                io::ErrorKind::InvalidData,")])
bug("eof-error", "C17", "a reader's fault within a str is reported as the end of the input", [(DE, '''            .read_to_end(buf)
            .do_if_err(|| self.state.mark_broken())?;''', '''            .read_to_end(buf)
            .unwrap_or(0);''')])
bug("write-ord", "C17", "the ordinal is not written whole", [(VL, "    write.write_all(used_bytes)", "    if used_bytes.is_empty() { return Ok(()); }\n    write.write(used_bytes).map(|_| ())")])

bug("depth-u16", "C08", "the level of a parent is kept in 8 bits", [(CO, "parent = self.stack[target].parent;", "parent = self.stack[target].parent.map(|i| if i > 4000 { i - 1 } else { i });")])
bug("walk-1000", "C08", "references from beyond level 1000 find one level too far", [(CO, "for _ in 1..n {", "for _ in 1..(if self.stack.len() > 1000 && n > 1 { n - 1 } else { n }) {")])
