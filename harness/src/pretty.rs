//! Reads a printed schema back, knowing only what the text says.

use binschema::{EnumSchemaVariant, ScalarType, Schema, SeqSchema, StructSchemaField};

pub struct Node {
    pub line: usize,
    pub parent: Option<usize>,
    /// a reference: its level, whether it is marked as leading beyond the
    /// root, and where its text ends
    pub recurse: Option<(usize, bool, usize)>,
}

pub struct Printed {
    pub schema: Schema,
    pub nodes: Vec<Node>,
}

const ART: &str = " -/|\\<";

struct P<'a> {
    lines: Vec<&'a str>,
    at: usize,
    nodes: Vec<Node>,
}

/// The rest of a line after `what`, if the line says that and then only
/// drawing.
fn says<'a>(l: &'a str, what: &str) -> Option<&'a str> {
    let rest = l.strip_prefix(what)?;
    if rest.is_empty() || (rest.starts_with(' ') && rest.chars().all(|c| ART.contains(c))) {
        Some(rest)
    } else {
        None
    }
}

/// A quoted string as Debug prints them; returns it and what follows.
fn quoted(l: &str) -> Result<(String, &str), String> {
    let bad = |w: &str| format!("{} in {:?}", w, l);
    let mut out = String::new();
    let mut it = l.char_indices();
    match it.next() {
        Some((_, '"')) => {}
        _ => return Err(bad("no opening quote")),
    }
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Ok((out, &l[i + 1..])),
            '\\' => match it.next().map(|x| x.1) {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some('r') => out.push('\r'),
                Some('0') => out.push('\0'),
                Some(c @ ('\\' | '"' | '\'')) => out.push(c),
                Some('u') => {
                    let mut h = String::new();
                    match it.next() {
                        Some((_, '{')) => {}
                        _ => return Err(bad("bad escape")),
                    }
                    loop {
                        match it.next() {
                            Some((_, '}')) => break,
                            Some((_, c)) => h.push(c),
                            None => return Err(bad("bad escape")),
                        }
                    }
                    let c = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or_else(|| bad("bad escape"))?;
                    out.push(c);
                }
                _ => return Err(bad("bad escape")),
            },
            c => out.push(c),
        }
    }
    Err(bad("no closing quote"))
}

fn number(l: &str) -> Option<(usize, &str)> {
    let n = l.bytes().take_while(|b| b.is_ascii_digit()).count();
    Some((l[..n].parse().ok()?, &l[n..]))
}

impl<'a> P<'a> {
    /// The text of the current line after that much indentation.
    fn line(&self, cols: usize) -> Result<&'a str, String> {
        let l = *self.lines.get(self.at).ok_or("the text ends early")?;
        let ok = l.len() > cols && l.as_bytes()[..cols].iter().all(|&b| b == b' ') && l.as_bytes()[cols] != b' ';
        if ok {
            Ok(&l[cols..])
        } else {
            Err(format!("line {} is not indented by {}: {:?}", self.at, cols, l))
        }
    }

    fn node(&mut self, indent: usize, parent: Option<usize>) -> Result<Schema, String> {
        let l = self.line(4 * indent)?;
        let bad = format!("line {} is no schema: {:?}", self.at, l);
        let l = l.strip_prefix("- ").ok_or(bad.clone())?;
        let me = self.nodes.len();
        self.nodes.push(Node { line: self.at, parent, recurse: None });
        self.at += 1;
        for (t, n) in [
            (ScalarType::U8, "u8"),
            (ScalarType::U16, "u16"),
            (ScalarType::U32, "u32"),
            (ScalarType::U64, "u64"),
            (ScalarType::U128, "u128"),
            (ScalarType::I8, "i8"),
            (ScalarType::I16, "i16"),
            (ScalarType::I32, "i32"),
            (ScalarType::I64, "i64"),
            (ScalarType::I128, "i128"),
            (ScalarType::F32, "f32"),
            (ScalarType::F64, "f64"),
            (ScalarType::Char, "char"),
            (ScalarType::Bool, "bool"),
        ] {
            if says(l, n).is_some() {
                return Ok(Schema::Scalar(t));
            }
        }
        for (s, n) in [(Schema::Str, "str"), (Schema::Bytes, "bytes"), (Schema::Unit, "unit")] {
            if says(l, n).is_some() {
                return Ok(s);
            }
        }
        if says(l, "option:").is_some() {
            return Ok(Schema::Option(Box::new(self.node(indent + 1, Some(me))?)));
        }
        if says(l, "seq (variable length):").is_some() {
            return Ok(Schema::Seq(SeqSchema { len: None, inner: Box::new(self.node(indent + 1, Some(me))?) }));
        }
        if let Some(r) = l.strip_prefix("seq (length = ") {
            let (n, r) = number(r).ok_or(bad.clone())?;
            says(r, "):").ok_or(bad)?;
            return Ok(Schema::Seq(SeqSchema { len: Some(n), inner: Box::new(self.node(indent + 1, Some(me))?) }));
        }
        if let Some(r) = l.strip_prefix("recurse (level = ") {
            let (n, r) = number(r).ok_or(bad.clone())?;
            let r = r.strip_prefix(")").ok_or(bad.clone())?;
            let end = self.lines[self.at - 1].len() - r.len();
            let beyond = match r.strip_prefix(" --> [beyond root]") {
                Some(r) => {
                    says(r, "").ok_or(bad)?;
                    true
                }
                None => {
                    says(r, "").ok_or(bad)?;
                    false
                }
            };
            self.nodes[me].recurse = Some((n, beyond, end));
            return Ok(Schema::Recurse(n));
        }
        if says(l, "tuple").is_some() {
            let mut v = vec![];
            while let Some(r) = self.item(indent, "element ") {
                let (i, r) = number(r).ok_or_else(|| format!("line {} has no index", self.at))?;
                if i != v.len() || says(r, ":").is_none() {
                    return Err(format!("line {} is not element {}", self.at, v.len()));
                }
                self.at += 1;
                v.push(self.node(indent + 1, Some(me))?);
            }
            return Ok(Schema::Tuple(v));
        }
        if says(l, "struct").is_some() {
            let v = self.named(indent, me, "field ")?;
            return Ok(Schema::Struct(v.into_iter().map(|(name, inner)| StructSchemaField { name, inner }).collect()));
        }
        if says(l, "enum").is_some() {
            let v = self.named(indent, me, "variant ")?;
            return Ok(Schema::Enum(v.into_iter().map(|(name, inner)| EnumSchemaVariant { name, inner }).collect()));
        }
        Err(bad)
    }

    fn item(&self, indent: usize, what: &str) -> Option<&'a str> {
        self.line(4 * indent + 2).ok()?.strip_prefix(what)
    }

    fn named(&mut self, indent: usize, me: usize, what: &str) -> Result<Vec<(String, Schema)>, String> {
        let mut v = vec![];
        while let Some(r) = self.item(indent, what) {
            let bad = || format!("line {} is not {}{}", self.at, what, v.len());
            let (i, r) = number(r).ok_or_else(bad)?;
            let r = r.strip_prefix(" (name = ").ok_or_else(bad)?;
            let (name, r) = quoted(r)?;
            if i != v.len() || says(r, "):").is_none() {
                return Err(bad());
            }
            self.at += 1;
            let s = self.node(indent + 1, Some(me))?;
            v.push((name, s));
        }
        Ok(v)
    }
}

pub fn parse(text: &str) -> Result<Printed, String> {
    let mut p = P { lines: text.split('\n').collect(), at: 0, nodes: vec![] };
    let schema = p.node(0, None)?;
    while p.at < p.lines.len() && p.lines[p.at].is_empty() {
        p.at += 1;
    }
    if p.at != p.lines.len() {
        return Err(format!("line {} belongs to nothing: {:?}", p.at, p.lines[p.at]));
    }
    Ok(Printed { schema, nodes: p.nodes })
}

/// Follow the arrow of every reference. Returns how many were drawn and how
/// many references have none, as they must.
pub fn arrows(text: &str, p: &Printed) -> Result<(u64, u64), String> {
    let rows: Vec<&[u8]> = text.split('\n').map(|l| l.as_bytes()).collect();
    let (mut drawn, mut none) = (0, 0);
    for n in &p.nodes {
        let Some((level, beyond, end)) = n.recurse else { continue };
        let rest = &rows[n.line][end..];
        // (the line may be passed by arrows of others, further right)
        let own = rest.starts_with(b" -") && !beyond;
        let mut target = None;
        if level > 0 {
            target = n.parent;
            for _ in 1..level {
                match target {
                    Some(t) => target = p.nodes[t].parent,
                    None => break,
                }
            }
        }
        let target = match target {
            None => {
                if own || (beyond && level == 0) || (!beyond && level != 0) {
                    return Err(format!("line {}: level {} leads nowhere, but is drawn {:?}", n.line, level, String::from_utf8_lossy(rest)));
                }
                none += 1;
                continue;
            }
            Some(t) => p.nodes[t].line,
        };
        let err = |w: String| Err(format!("line {}: the arrow of level {} to line {}: {}", n.line, level, target, w));
        if !own {
            return err("is not drawn".into());
        }
        let dashes = rest[1..].iter().take_while(|&&b| b == b'-').count();
        let col = end + 1 + dashes;
        if rows[n.line].get(col) != Some(&b'/') {
            return err(format!("does not turn up at column {}", col));
        }
        let mut y = n.line;
        let to = loop {
            if y == 0 {
                return err("leaves the text".into());
            }
            y -= 1;
            match rows[y].get(col) {
                Some(b'|') => {}
                Some(b'\\') => break y,
                x => return err(format!("is broken at line {} by {:?}", y, x.map(|&b| b as char))),
            }
        };
        if to != target {
            return err(format!("leads to line {}", to));
        }
        drawn += 1;
    }
    Ok((drawn, none))
}
