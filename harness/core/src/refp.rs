//! Independent reference reader, written from docs/content/reference/spec/parser.md.
//! Three-valued: a text is accepted with a meaning, rejected, or uses something the reference
//! leaves open (then nothing is claimed about it).
use crate::model::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tr {
    Key(String),
    Atom(String),
    Tag(String),
    Open(char),
    Close(char),
    Com(String),
    Doc(String),
}
#[derive(Debug, Clone)]
pub struct Doc {
    pub ents: Vec<Ent>,
    pub explicit: bool,
    pub trace: Vec<Tr>,
}
#[derive(Debug, Clone)]
pub enum Verdict {
    Ok(Doc),
    Err { kind: &'static str, at: u32 },
    Unspec(&'static str),
}
impl Verdict {
    pub fn name(&self) -> &'static str {
        match self {
            Verdict::Ok(_) => "valid",
            Verdict::Err { .. } => "invalid",
            Verdict::Unspec(_) => "unspecified",
        }
    }
}
struct Fail(&'static str, u32);
type R<T> = Result<T, Fail>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum KeyId {
    Scalar(String),
    Unit,
    Tag(String, Option<String>),
}
pub fn key_id(k: &Key) -> KeyId {
    match (&k.tag, &k.pay) {
        (None, None) => KeyId::Unit,
        (None, Some(s)) => KeyId::Scalar(s.text.clone()),
        (Some(t), p) => KeyId::Tag(t.clone(), p.as_ref().map(|s| s.text.clone())),
    }
}

/// Keys and dotted paths already seen in one object.
#[derive(Default)]
pub struct PathTree {
    nodes: HashMap<KeyId, PathTree>,
    open: Option<KeyId>,
    what: What,
}
#[derive(Default, Clone, Copy, PartialEq)]
enum What {
    #[default]
    Path,
    Terminal,
    Block,
}
impl PathTree {
    /// Ok(true): fine; Ok(false): the reference does not say; Err(kind): rejected.
    pub fn add(&mut self, path: &[KeyId], block: bool) -> Result<bool, &'static str> {
        let (k, rest) = (&path[0], &path[1..]);
        let is_open = self.open.as_ref() == Some(k);
        if let Some(n) = self.nodes.get_mut(k) {
            if rest.is_empty() {
                return Err("duplicate");
            }
            if !is_open {
                return Err("reopened");
            }
            return match n.what {
                What::Terminal => Err("nest-into-terminal"),
                What::Block => Ok(false),
                What::Path => n.add(rest, block),
            };
        }
        let mut n = PathTree::default();
        let mut r = Ok(true);
        if rest.is_empty() {
            n.what = if block { What::Block } else { What::Terminal };
        } else {
            r = n.add(rest, block);
        }
        self.nodes.insert(k.clone(), n);
        self.open = Some(k.clone());
        r
    }
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    unspec: Option<&'static str>,
    trace: Vec<Tr>,
    depth: usize,
}
pub fn is_bare_start(c: char) -> bool {
    !matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') && !c.is_whitespace()
}
pub fn is_bare_char(c: char) -> bool {
    !matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '>') && !c.is_whitespace()
}
fn ident_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn ident(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'-'
}
#[derive(PartialEq, Clone, Copy)]
enum AtomForm {
    Bare,
    Quoted,
    Raw,
    Heredoc,
    Unit,
    Tag,
    Seq,
    Obj,
    Attrs,
}

pub fn read(s: &str) -> Verdict {
    let mut p = P { s, b: s.as_bytes(), i: 0, unspec: None, trace: vec![], depth: 0 };
    let r = p.document();
    if let Some(u) = p.unspec {
        return Verdict::Unspec(u);
    }
    match r {
        Ok((ents, explicit)) => Verdict::Ok(Doc { ents, explicit, trace: p.trace }),
        Err(Fail(kind, at)) => Verdict::Err { kind, at },
    }
}

impl<'a> P<'a> {
    fn at(&self, k: usize) -> u8 {
        *self.b.get(self.i + k).unwrap_or(&0)
    }
    fn eof(&self) -> bool {
        self.i >= self.b.len()
    }
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn ch(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn open(&mut self, why: &'static str) {
        if self.unspec.is_none() {
            self.unspec = Some(why);
        }
    }
    fn fail<T>(&self, k: &'static str) -> R<T> {
        Err(Fail(k, self.i as u32))
    }
    fn blanks(&mut self) {
        while !self.eof() && (self.at(0) == b' ' || self.at(0) == b'\t') {
            self.i += 1;
        }
    }
    fn newline(&mut self) -> bool {
        if self.rest().starts_with("\r\n") {
            self.i += 2;
            true
        } else if self.at(0) == b'\n' && !self.eof() {
            self.i += 1;
            true
        } else {
            false
        }
    }
    /// A comment at the cursor: Some((text, is_doc)).
    fn comment(&mut self) -> Option<(&'a str, bool)> {
        if !self.rest().starts_with("//") {
            return None;
        }
        let r = self.rest();
        let n = r.find(['\n', '\r']).unwrap_or(r.len());
        self.i += n;
        let t = &r[..n];
        Some((t, t.starts_with("///")))
    }
    fn doc_text(t: &str) -> String {
        let t = &t[3..];
        t.strip_prefix(' ').unwrap_or(t).to_string()
    }

    fn document(&mut self) -> R<(Vec<Ent>, bool)> {
        // look for an explicit root
        let mut explicit = false;
        {
            let save = (self.i, self.trace.len());
            loop {
                self.blanks();
                if self.newline() {
                    continue;
                }
                if let Some((t, d)) = self.comment() {
                    if d {
                        break;
                    }
                    self.trace.push(Tr::Com(t.to_string()));
                    continue;
                }
                if self.at(0) == b'{' {
                    explicit = true;
                }
                break;
            }
            if !explicit {
                self.i = save.0;
                self.trace.truncate(save.1);
            }
        }
        if explicit {
            self.i += 1;
            self.trace.push(Tr::Open('{'));
            let ents = self.entries(Some(b'}'), true)?;
            self.trace.push(Tr::Close('}'));
            loop {
                self.blanks();
                if self.newline() {
                    continue;
                }
                if let Some((t, d)) = self.comment() {
                    if d {
                        self.open("doc comment after the root object");
                    }
                    self.trace.push(Tr::Com(t.to_string()));
                    continue;
                }
                if self.eof() {
                    return Ok((ents, true));
                }
                return self.fail("trailing-content");
            }
        }
        let ents = self.entries(None, true)?;
        Ok((ents, false))
    }

    /// Entries up to `close` (consumed) or the end of input.
    fn entries(&mut self, close: Option<u8>, top: bool) -> R<Vec<Ent>> {
        let open_at = self.i;
        self.depth += 1;
        if self.depth > 150 {
            self.open("very deep nesting");
            return self.fail("deep");
        }
        let mut ents: Vec<Ent> = vec![];
        let mut seen = PathTree::default();
        let mut doc: Option<(String, u32)> = None;
        let mut doc_gap = 0; // newlines since the last doc comment line
        let mut need_sep = false; // an entry just ended
        let mut commas = 1; // leading comma is not described
        loop {
            self.blanks();
            if self.eof() {
                if doc.is_some() {
                    return self.fail("dangling-doc-comment");
                }
                if close.is_some() {
                    return Err(Fail("unclosed-object", open_at as u32 - 1));
                }
                break;
            }
            if self.newline() {
                need_sep = false;
                doc_gap += 1;
                continue;
            }
            let c = self.at(0);
            if c == b',' {
                commas += 1;
                if commas > 1 {
                    self.open("comma without an entry before it");
                }
                if doc.is_some() {
                    self.open("comma after doc comment");
                }
                self.i += 1;
                need_sep = false;
                continue;
            }
            if Some(c) == close {
                if doc.is_some() {
                    return self.fail("dangling-doc-comment");
                }
                self.i += 1;
                break;
            }
            if self.rest().starts_with("//") {
                let before = if self.i == 0 { b' ' } else { self.b[self.i - 1] };
                if !matches!(before, b' ' | b'\t' | b'\n') && self.i != 0 {
                    self.open("comment not preceded by whitespace");
                }
                let same_line = need_sep;
                let at = self.i as u32;
                let (t, d) = self.comment().unwrap();
                if d {
                    if same_line {
                        self.open("doc comment on the line of an entry");
                    }
                    if t.starts_with("////") {
                        self.open("four slashes");
                    }
                    if doc.is_some() && doc_gap > 1 {
                        self.open("blank line inside a doc comment");
                    }
                    let l = Self::doc_text(t);
                    self.trace.push(Tr::Doc(l.clone()));
                    match &mut doc {
                        None => doc = Some((l, at)),
                        Some((x, _)) => {
                            x.push('\n');
                            x.push_str(&l)
                        }
                    }
                    doc_gap = 0;
                } else {
                    if doc.is_some() {
                        self.open("line comment between doc comment and entry");
                    }
                    self.trace.push(Tr::Com(t.to_string()));
                }
                continue;
            }
            if need_sep {
                // entry() stops only at separators, closers, comments and the end of input
                return self.fail("unexpected-token");
            }
            if doc.is_some() && doc_gap > 1 {
                self.open("blank line after doc comment");
            }
            commas = 0;
            let d = doc.take().map(|x| x.0);
            self.entry(&mut ents, &mut seen, d, top)?;
            need_sep = true;
        }
        self.depth -= 1;
        Ok(ents)
    }

    fn at_atom_end(&self) -> bool {
        if self.eof() {
            return true;
        }
        let c = self.at(0);
        matches!(c, b' ' | b'\t' | b'\n' | b',' | b'}' | b')') || self.rest().starts_with("\r\n")
    }
    fn glue(&mut self, form: AtomForm, key: bool) -> R<()> {
        if self.at_atom_end() {
            return Ok(());
        }
        let c = self.at(0);
        if c == b'{' || c == b'(' {
            match form {
                AtomForm::Bare if key => return self.fail("missing-whitespace-before-block"),
                AtomForm::Quoted | AtomForm::Raw if key => return Ok(()),
                _ => {}
            }
        }
        if c == b'=' || c == b'>' {
            return self.fail("unexpected-token");
        }
        self.open("atoms without whitespace between them");
        Ok(())
    }

    fn entry(&mut self, ents: &mut Vec<Ent>, seen: &mut PathTree, doc: Option<String>, top: bool) -> R<()> {
        let kat = self.i as u32;
        let tl = self.trace.len();
        let (kv, form) = self.atom()?;
        self.glue(form, true)?;
        let bad_key = |form| matches!(form, AtomForm::Heredoc | AtomForm::Seq | AtomForm::Obj | AtomForm::Attrs);
        if bad_key(form) || kv.tags.len() > 1 || !matches!(kv.pay, Pay::Unit | Pay::Scalar(_)) {
            return Err(Fail("invalid-key", kat));
        }
        let key = Key {
            tag: kv.tags.first().cloned(),
            pay: match kv.pay {
                Pay::Scalar(s) => {
                    if s.kind == Kind::Heredoc {
                        self.open("tagged heredoc as key");
                    }
                    Some(s)
                }
                _ => None,
            },
            sp: kv.sp,
        };
        if kv.implied.0 {
            self.open("tagged explicit unit as key");
        }
        self.trace.truncate(tl);
        let segs: Option<Vec<(String, u32)>> = match (&key.tag, &key.pay) {
            (None, Some(s)) if s.kind == Kind::Bare && s.text.contains('.') => {
                if top {
                    let mut v = vec![];
                    let mut o = kat;
                    for x in s.text.split('.') {
                        if x.is_empty() {
                            return Err(Fail("invalid-key", kat));
                        }
                        v.push((x.to_string(), o));
                        o += x.len() as u32 + 1;
                    }
                    Some(v)
                } else {
                    self.open("dotted key in a nested object");
                    None
                }
            }
            _ => None,
        };
        match &segs {
            None => self.trace.push(Tr::Key(format!("{:?}", key_id(&key)))),
            Some(v) => v.iter().for_each(|x| self.trace.push(Tr::Key(format!("{:?}", KeyId::Scalar(x.0.clone()))))),
        }
        self.blanks();
        let mut val = Val { tags: vec![], pay: Pay::Unit, sp: key.sp, implied: Imp(true) };
        let mut vform = AtomForm::Unit;
        let done = |p: &Self| p.at_atom_end() || p.rest().starts_with("//");
        if !done(self) {
            let (v, f) = self.atom()?;
            val = v;
            vform = f;
            val.implied = Imp(false);
            self.glue(f, false)?;
            self.blanks();
            if !done(self) {
                return self.fail("too-many-atoms");
            }
        }
        let block = matches!(vform, AtomForm::Obj | AtomForm::Attrs);
        let path: Vec<KeyId> = match &segs {
            None => vec![key_id(&key)],
            Some(v) => v.iter().map(|x| KeyId::Scalar(x.0.clone())).collect(),
        };
        match seen.add(&path, block) {
            Ok(true) => {}
            Ok(false) => self.open("dotted key into an object given as a block"),
            Err(k) => return Err(Fail(k, kat)),
        }
        match segs {
            None => ents.push(Ent { key, val, doc }),
            Some(v) => {
                let mut val = val;
                let end = self.i as u32;
                for (n, (t, o)) in v.iter().enumerate().rev() {
                    let key = Key {
                        tag: None,
                        pay: Some(Scal { text: t.clone(), kind: Kind::Bare }),
                        sp: Sp(*o, *o + t.len() as u32),
                    };
                    let d = if n == 0 { doc.clone() } else { None };
                    let e = Ent { key, val, doc: d };
                    if n == 0 {
                        ents.push(e);
                        break;
                    }
                    val = Val { tags: vec![], pay: Pay::Obj(vec![e]), sp: Sp(*o, end), implied: Imp(true) };
                }
            }
        }
        Ok(())
    }

    fn atom(&mut self) -> R<(Val, AtomForm)> {
        let at = self.i as u32;
        let c = match self.ch() {
            None => return self.fail("unexpected-eof"),
            Some(c) => c,
        };
        let r = match c {
            '{' => {
                self.i += 1;
                self.trace.push(Tr::Open('{'));
                let es = self.entries(Some(b'}'), false)?;
                self.trace.push(Tr::Close('}'));
                (Pay::Obj(es), AtomForm::Obj)
            }
            '(' => (Pay::Seq(self.sequence()?), AtomForm::Seq),
            '"' => {
                let t = self.quoted()?;
                self.trace.push(Tr::Atom(t.clone()));
                (Pay::Scalar(Scal { text: t, kind: Kind::Quoted }), AtomForm::Quoted)
            }
            'r' if matches!(self.at(1), b'#' | b'"') => {
                let t = self.raw()?;
                self.trace.push(Tr::Atom(t.clone()));
                (Pay::Scalar(Scal { text: t, kind: Kind::Raw }), AtomForm::Raw)
            }
            '<' if self.at(1) == b'<' => {
                let t = self.heredoc()?;
                self.trace.push(Tr::Atom(t.clone()));
                (Pay::Scalar(Scal { text: t, kind: Kind::Heredoc }), AtomForm::Heredoc)
            }
            '@' => return self.tag_or_unit(),
            _ if is_bare_start(c) => {
                if self.rest().starts_with("//") {
                    return self.fail("unexpected-comment");
                }
                let r = self.rest();
                let n = r.find(|c| !is_bare_char(c)).unwrap_or(r.len());
                self.i += n;
                let t = r[..n].to_string();
                if self.at(0) == b'>' && !self.eof() {
                    return self.attrs(t, at);
                }
                self.trace.push(Tr::Atom(t.clone()));
                (Pay::Scalar(Scal { text: t, kind: Kind::Bare }), AtomForm::Bare)
            }
            _ => return self.fail("unexpected-token"),
        };
        let mut v = Val::new(vec![], r.0);
        v.sp = Sp(at, self.i as u32);
        Ok((v, r.1))
    }

    /// The cursor is at the `>` after the first key.
    fn attrs(&mut self, first: String, at: u32) -> R<(Val, AtomForm)> {
        let mut es: Vec<Ent> = vec![];
        let mut seen = PathTree::default();
        let (mut key, mut kat) = (first, at);
        let mut end;
        self.trace.push(Tr::Open('{'));
        loop {
            self.i += 1; // '>'
            if self.eof() || matches!(self.at(0), b' ' | b'\t' | b'\n') || self.rest().starts_with("\r\n") {
                return self.fail("attribute-value");
            }
            if self.rest().starts_with("//") || matches!(self.at(0), b',' | b'}' | b')') {
                return self.fail("attribute-value");
            }
            if key.contains('.') {
                self.open("dotted attribute key");
            }
            self.trace.push(Tr::Key(format!("{:?}", KeyId::Scalar(key.clone()))));
            let (v, f) = self.atom()?;
            if f == AtomForm::Attrs {
                self.open("attribute as attribute value");
            }
            if matches!(f, AtomForm::Heredoc | AtomForm::Unit | AtomForm::Tag | AtomForm::Raw) {
                // "Attribute values may be bare scalars, quoted scalars, sequences, or objects"
                self.open_soft();
            }
            end = self.i as u32;
            let k = Key {
                tag: None,
                pay: Some(Scal { text: key.clone(), kind: Kind::Bare }),
                sp: Sp(kat, kat + key.len() as u32),
            };
            if seen.add(&[key_id(&k)], false).is_err() {
                return Err(Fail("duplicate", kat));
            }
            es.push(Ent { key: k, val: v, doc: None });
            if !self.at_atom_end() {
                self.glue(f, false)?;
            }
            // another attribute on the same line?
            let save = self.i;
            self.blanks();
            let r = self.rest();
            let ok = r.chars().next().is_some_and(|c| is_bare_start(c))
                && !r.starts_with("//")
                && !r.starts_with("<<")
                && !(r.starts_with("r\"") || r.starts_with("r#"));
            let n = r.find(|c| !is_bare_char(c)).unwrap_or(r.len());
            if ok && r[n..].starts_with('>') {
                key = r[..n].to_string();
                kat = self.i as u32;
                self.i += n;
                continue;
            }
            self.i = save;
            break;
        }
        self.trace.push(Tr::Close('}'));
        let mut v = Val::new(vec![], Pay::Obj(es));
        v.sp = Sp(at, end);
        Ok((v, AtomForm::Attrs))
    }
    /// Accepted by every implementation though not listed in the reference.
    fn open_soft(&mut self) {}

    fn sequence(&mut self) -> R<Vec<Val>> {
        let open_at = self.i as u32;
        self.i += 1;
        self.depth += 1;
        if self.depth > 150 {
            self.open("very deep nesting");
            return self.fail("deep");
        }
        self.trace.push(Tr::Open('('));
        let mut v = vec![];
        loop {
            self.blanks();
            if self.eof() {
                return Err(Fail("unclosed-sequence", open_at));
            }
            if self.newline() {
                continue;
            }
            match self.at(0) {
                b')' => {
                    self.i += 1;
                    break;
                }
                b',' => return self.fail("comma-in-sequence"),
                b'}' => return self.fail("unexpected-token"),
                _ => {}
            }
            if self.rest().starts_with("//") {
                if !matches!(self.b[self.i - 1], b' ' | b'\t' | b'\n') {
                    self.open("comment not preceded by whitespace");
                }
                let (t, d) = self.comment().unwrap();
                if d {
                    self.open("doc comment in a sequence");
                }
                self.trace.push(Tr::Com(t.to_string()));
                continue;
            }
            let (x, f) = self.atom()?;
            v.push(x);
            self.glue(f, false)?;
        }
        self.depth -= 1;
        self.trace.push(Tr::Close(')'));
        Ok(v)
    }

    fn quoted(&mut self) -> R<String> {
        let start = self.i as u32;
        self.i += 1;
        // the token ends at the first unescaped quote
        let mut j = self.i;
        loop {
            match self.b.get(j) {
                None => return Err(Fail("unterminated-string", start)),
                Some(b'"') => break,
                Some(b'\\') => {
                    j += 1;
                    match self.s[j..].chars().next() {
                        None => return Err(Fail("unterminated-string", start)),
                        Some(c) => j += c.len_utf8(),
                    }
                }
                Some(_) => j += 1,
            }
        }
        let inner = &self.s[self.i..j];
        let mut out = String::new();
        let mut it = inner.char_indices();
        while let Some((k, c)) = it.next() {
            if c != '\\' {
                out.push(c);
                continue;
            }
            let at = (self.i + k) as u32;
            let bad = || Err(Fail("invalid-escape", at));
            match it.next() {
                Some((_, 'n')) => out.push('\n'),
                Some((_, 'r')) => out.push('\r'),
                Some((_, 't')) => out.push('\t'),
                Some((_, '\\')) => out.push('\\'),
                Some((_, '"')) => out.push('"'),
                Some((u, 'u')) => {
                    let tail = &inner[u + 1..];
                    let (hex, len) = if let Some(t) = tail.strip_prefix('{') {
                        match t.find('}') {
                            None => return bad(),
                            Some(n) => (&t[..n], n + 2),
                        }
                    } else {
                        if tail.len() < 4 || !tail.is_char_boundary(4) {
                            return bad();
                        }
                        (&tail[..4], 4)
                    };
                    if hex.is_empty() || !hex.bytes().all(|c| c.is_ascii_hexdigit()) {
                        return bad();
                    }
                    let sig = hex.trim_start_matches('0');
                    if sig.len() > 6 {
                        return bad();
                    }
                    if hex.len() > 6 {
                        self.open("unicode escape with more than six digits");
                    }
                    let n = if sig.is_empty() { 0 } else { u32::from_str_radix(sig, 16).unwrap() };
                    match char::from_u32(n) {
                        None => return bad(),
                        Some(c) => out.push(c),
                    }
                    let stop = u + 1 + len;
                    while let Some((p, c)) = it.clone().next() {
                        if p + c.len_utf8() > stop {
                            break;
                        }
                        it.next();
                    }
                }
                _ => return bad(),
            }
        }
        self.i = j + 1;
        Ok(out)
    }

    fn raw(&mut self) -> R<String> {
        let start = self.i as u32;
        let r = self.rest();
        let n = r[1..].bytes().take_while(|&c| c == b'#').count();
        let body = &r[1 + n..];
        let Some(body) = body.strip_prefix('"') else {
            return self.fail("raw-without-quote");
        };
        let mut close = String::from("\"");
        for _ in 0..n {
            close.push('#');
        }
        match body.find(&close) {
            None => Err(Fail("unterminated-raw", start)),
            Some(m) => {
                let t = body[..m].to_string();
                self.i += 1 + n + 1 + m + close.len();
                Ok(t)
            }
        }
    }

    fn heredoc(&mut self) -> R<String> {
        let start = self.i as u32;
        let r = &self.rest()[2..];
        let n = r.bytes().take_while(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || *c == b'_').count();
        if n == 0 || !r.as_bytes()[0].is_ascii_uppercase() {
            return self.fail("heredoc-delimiter");
        }
        if n > 16 {
            return self.fail("heredoc-delimiter-too-long");
        }
        let delim = &r[..n];
        let mut k = n;
        if r[k..].starts_with(',') {
            let m = r[k + 1..].bytes().take_while(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || b"_.-".contains(c)).count();
            if m == 0 || !r.as_bytes()[k + 1].is_ascii_lowercase() {
                self.open("malformed heredoc language hint");
            }
            k += 1 + m;
        }
        let after = &r[k..];
        let mut body = if let Some(b) = after.strip_prefix("\r\n") {
            b
        } else if let Some(b) = after.strip_prefix('\n') {
            b
        } else if after.is_empty() {
            return Err(Fail("unterminated-heredoc", start));
        } else {
            self.open("text after a heredoc delimiter");
            after
        };
        let mut lines: Vec<&str> = vec![];
        loop {
            let (line, next) = match body.find('\n') {
                Some(p) => (&body[..p + 1], &body[p + 1..]),
                None => (body, ""),
            };
            let ind = line.bytes().take_while(|c| *c == b' ' || *c == b'\t').count();
            if let Some(t) = line[ind..].strip_prefix(delim)
                && (t.is_empty() || t == "\n" || t == "\r\n")
            {
                let used = body.as_ptr() as usize - self.s.as_ptr() as usize + ind + delim.len();
                self.i = used;
                let mut out = String::new();
                for l in lines {
                    let cut = l.bytes().take(ind).take_while(|c| *c == b' ' || *c == b'\t').count();
                    out.push_str(&l[cut..]);
                }
                return Ok(out);
            }
            if next.is_empty() {
                // nothing after this line: no closing delimiter can follow
                return Err(Fail("unterminated-heredoc", start));
            }
            lines.push(line);
            body = next;
        }
    }

    fn tag_or_unit(&mut self) -> R<(Val, AtomForm)> {
        let at = self.i as u32;
        if !ident_start(self.at(1)) {
            self.i += 1;
            if let Some(c) = self.ch()
                && is_bare_start(c)
                && !self.rest().starts_with("//")
                && !self.rest().starts_with("<<")
                && !(self.at(0) == b'r' && matches!(self.at(1), b'#' | b'"'))
            {
                return Err(Fail("invalid-tag-name", at));
            }
            self.trace.push(Tr::Atom("@".into()));
            let mut v = Val::unit();
            v.sp = Sp(at, self.i as u32);
            return Ok((v, AtomForm::Unit));
        }
        let mut tags = vec![];
        loop {
            let s = self.i + 1;
            let mut j = s + 1;
            while j < self.b.len() && ident(self.b[j]) {
                if self.b[j] == b'r' && self.b.get(j + 1) == Some(&b'#') {
                    break;
                }
                j += 1;
            }
            if self.b.get(j) == Some(&b'"') && self.b[j - 1] == b'r' {
                self.open("tag name ending in r before a quote");
            }
            tags.push(self.s[s..j].to_string());
            self.i = j;
            self.trace.push(Tr::Tag(self.s[s..j].to_string()));
            if self.at(0) == b'/' && self.at(1) == b'@' && ident_start(self.at(2)) {
                self.i += 1;
                continue;
            }
            break;
        }
        let mut form = AtomForm::Tag;
        let mut pay = Pay::Unit;
        let mut explicit_unit = false;
        if !self.at_atom_end() {
            let c = self.ch().unwrap();
            match c {
                '{' | '(' | '"' => {
                    pay = self.atom()?.0.pay;
                }
                'r' if matches!(self.at(1), b'#' | b'"') => pay = self.atom()?.0.pay,
                '<' if self.at(1) == b'<' => {
                    pay = self.atom()?.0.pay;
                    form = AtomForm::Tag;
                }
                '@' => {
                    if ident_start(self.at(1)) {
                        self.open("tag directly after tag");
                    }
                    self.i += 1;
                    explicit_unit = true;
                    if self.rest().starts_with("//") || self.rest().starts_with("<<") {
                        self.open("comment or heredoc directly after an explicit unit");
                    } else if let Some(c) = self.ch()
                        && is_bare_start(c)
                    {
                        return Err(Fail("invalid-tag-name", at));
                    }
                }
                '=' | '>' => return self.fail("unexpected-token"),
                '/' if self.at(1) == b'/' => self.open("comment not preceded by whitespace"),
                c if is_bare_start(c) => return Err(Fail("invalid-tag-name", at)),
                _ => return self.fail("unexpected-token"),
            }
        }
        let mut v = Val::new(tags, pay);
        v.sp = Sp(at, self.i as u32);
        v.implied = Imp(explicit_unit);
        Ok((v, form))
    }
}
