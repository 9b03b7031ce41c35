//! Grammar-directed generator of documents: a value model and a text spelling it.
use crate::model::*;
use crate::refp::{KeyId, is_bare_char, is_bare_start, key_id};
use crate::rng::Rng;
use std::collections::HashSet;

#[derive(Clone)]
pub struct Profile {
    pub max_depth: usize,
    pub budget: usize,
    pub comments: usize,   // percent per gap
    pub docs: usize,       // percent per entry
    pub chains: bool,
    pub attrs: bool,
    pub dotted: bool,
    pub heredocs: bool,
    pub tag_heredoc: bool,
    pub explicit_root: usize,
    pub crlf: bool,
    pub nasty: usize,      // percent of hostile texts
    pub simple_keys: bool, // only untagged scalar keys
    pub tags: usize,
    pub sloppy: bool,      // odd spacing
    pub cr_in_text: bool,
    pub root_tag_keys: bool,
}
impl Profile {
    pub fn full() -> Profile {
        Profile {
            max_depth: 5,
            budget: 40,
            comments: 12,
            docs: 10,
            chains: true,
            attrs: true,
            dotted: true,
            heredocs: true,
            tag_heredoc: true,
            explicit_root: 15,
            crlf: true,
            nasty: 30,
            simple_keys: false,
            tags: 15,
            sloppy: true,
            cr_in_text: true,
            root_tag_keys: true,
        }
    }
    /// Vary sizes per case: mostly small, sometimes wide or deep.
    pub fn vary(mut self, r: &mut Rng) -> Profile {
        match r.below(20) {
            0 => {
                self.budget = 400;
                self.max_depth = 4
            }
            1 => {
                self.max_depth = 40;
                self.budget = 60
            }
            2..=6 => self.budget = 6,
            7..=9 => self.budget = 100,
            _ => {}
        }
        if r.pct(25) {
            self.comments = 0
        }
        if r.pct(10) {
            self.comments = 45
        }
        if r.pct(30) {
            self.docs = 0
        }
        if r.pct(50) {
            self.nasty = 5
        }
        self
    }
}

const IDENT: &[&str] = &[
    "a", "b", "c", "x", "y", "name", "host", "port", "server", "key", "value", "items", "r", "rr", "foo-bar", "foo_bar", "A", "EOF",
    "true", "false", "null", "nan", "inf", "id", "type", "self", "Z9", "é", "ключ", "日本", "😀", "k8s", "other", "error", "br", "e1",
];
const BARE: &[&str] = &[
    "0", "1", "-1", "+5", "42", "3.14", "1e9", "-0.5", "0xff", "1_000", "true", "false", "null", "nan", "inf", "-inf", "localhost",
    "https://example.com/a?b=c&d=e#f", "user@host", "crate:pkg@2", "/usr/bin/foo", "/", "./x", "..", ".", "...", "a=b", "x==y", "<", "<=", "a<b",
    "a<<b", "-", "--", "+", "*", "#", "#fff", "##", "'", "'q'", "[x]", "[]", ";", ":", "a:b", "$x", "%d", "^", "&", "|", "~", "`", "\\", "\\n", "a\\",
    "!", "?", "r", "rx", "r2", "R#", "a//b", "/a//b", "a/", "é", "naïve", "日本語", "😀", "a😀b", "\u{7ff}\u{800}", "\u{d7ff}\u{e000}", "\u{fffd}z", "\u{ffff}\u{10000}", "\u{fdd0}", "a\u{f0001}b", "\u{10ffff}", "\u{103ff}\u{10400}",  "e\u{301}", "\u{feff}x", "\u{200b}", "2026-01-12T10:00:00Z",
    "1h30m", "a.b.c", "v1.2.3", "EOF", "BASH", "10MB", "_", "__x__", "a-b", "node_modules", "=x=".split_at(1).1, "x=", "a@", "a@b@c",
];
const FRAG: &[&str] = &[
    " ", "  ", "\t", "\n", "\n\n", "\\", "\"", "\"#", "\"##", "#", "{", "}", "(", ")", ",", ">", "@", "=", "//", "/// x", "<<EOF", "EOF", "EOF\n", "r#\"", "\\n",
    "\\u0041", "\\u{41}", "\u{0}", "\u{1}", "\u{7f}", "\u{1b}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{feff}", "\u{200d}", "é", "e\u{301}", "日", "😀", "\u{7ff}\u{800}", "\u{d7ff}\u{e000}", "\u{fffd}z", "\u{ffff}\u{10000}", "\u{fdd0}", "a\u{f0001}b", "\u{10ffff}", "\u{103ff}\u{10400}", 
    "\u{10ffff}", "\u{e000}", "\u{ffff}", "a", "b", "xyz", "0", "-", ".", "/", "'", "`", "$", "true", "null", "@tag", "key value", ";", ":", "u", "\u{c}", "\u{b}", "\u{7}", "\u{8}",
    "   indented", "\tTab", "line one\nline two\n", " trailing ", "ß", "ÿ", "\u{80}", "\u{7ff}", "\u{800}",
];

pub fn bare_ok(t: &str) -> bool {
    let mut it = t.chars();
    match it.next() {
        None => return false,
        Some(c) if !is_bare_start(c) => return false,
        _ => {}
    }
    it.all(is_bare_char) && !t.starts_with("//") && !t.starts_with("<<") && !t.starts_with("r#")
}

pub fn text(r: &mut Rng, nasty: usize, cr: bool) -> String {
    if !r.pct(nasty) {
        return match r.below(4) {
            0 => r.pick(IDENT).to_string(),
            1 => r.pick(BARE).to_string(),
            2 => format!("{} {}", r.pick(IDENT), r.pick(BARE)),
            _ => {
                let n = r.range(1, 12);
                (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
            }
        };
    }
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.range(20, 60),
        3 if r.pct(20) => r.range(100, 600),
        _ => r.range(1, 6),
    };
    let mut s = String::new();
    for _ in 0..n {
        match r.below(8) {
            0 if cr && r.pct(30) => s.push_str(*r.pick(&["\r", "\r\n"])),
            0..=4 => s.push_str(r.pick(FRAG)),
            5 => s.push_str(r.pick(IDENT)),
            _ => {
                let c = loop {
                    let max = *r.pick(&[0x7fu32, 0xff, 0x2fff, 0xffff, 0x10ffff]);
                    if let Some(c) = char::from_u32(r.below(max as usize + 1) as u32)
                        && (cr || c != '\r')
                    {
                        break c;
                    }
                };
                s.push(c)
            }
        }
    }
    if r.pct(3) {
        // long runs around typical buffer and threshold sizes
        let k = *r.pick(&[15usize, 16, 17, 31, 32, 33, 59, 60, 61, 63, 64, 65, 79, 80, 81, 99, 100, 101, 119, 120, 121, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096]);
        let c = *r.pick(&["a", "é", "\"", "\\", "#", " ", "\n", "x ", "😀", "-", "/", "\u{10ffff}", "\u{ffff}"]);
        s.push_str(&c.repeat(k));
    }
    s
}

fn bare_text(r: &mut Rng) -> String {
    for _ in 0..20 {
        let t = match r.below(4) {
            0 => r.pick(IDENT).to_string(),
            1 | 2 => r.pick(BARE).to_string(),
            _ => {
                let n = if r.pct(3) { r.range(40, 200) } else { r.range(1, 10) };
                (0..n)
                    .map(|_| loop {
                        let c = *r.pick(&['a', 'b', 'Z', '0', '9', '-', '_', '.', '/', ':', '@', '=', '<', '#', '\'', '\\', 'r', 'é', '中', '😀', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{f0001}', '\u{10ffff}', '!', '[', ']', '+', '*', '%', '|', ';', '?', '&']);
                        if is_bare_char(c) {
                            break c;
                        }
                    })
                    .collect()
            }
        };
        if bare_ok(&t) {
            return t;
        }
    }
    "v".into()
}
pub fn heredoc_text(r: &mut Rng, nasty: usize, cr: bool) -> String {
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 3, 5, 8]);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(6) {
            0 => {}
            1 => s.push_str(r.pick(&["  indented", "\ttabbed", "    four", " EOF", "EOF x", "EOF2", "  ", "\t", "// c", "/// d", "}", ")", "{", "\\n", "\"q\"", "key value", "é日😀", "trailing  "])),
            _ => {
                let t = text(r, nasty, false);
                s.push_str(&t.replace('\n', " "));
            }
        }
        s.push_str(if cr && r.pct(4) { "\r\n" } else { "\n" });
    }
    s
}
fn tag_name(r: &mut Rng) -> String {
    if r.pct(60) {
        return r.pick(&["tag", "string", "object", "ok", "err", "rgb", "env", "_", "_x", "A", "a-b", "T1", "schema", "optional", "seq", "default", "x-", "r", "rr", "Enum_Variant", "bar", "unit"]).to_string();
    }
    let n = r.range(1, 12);
    let mut s = String::new();
    for i in 0..n {
        let set = if i == 0 { "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_" } else { "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-" };
        s.push(*r.pick(set.as_bytes()) as char);
    }
    s
}
pub fn scal(r: &mut Rng, p: &Profile, heredoc: bool) -> Scal {
    match r.below(20) {
        0..=9 => Scal { text: bare_text(r), kind: Kind::Bare },
        10..=14 => Scal { text: text(r, p.nasty, p.cr_in_text), kind: Kind::Quoted },
        15..=17 => Scal { text: text(r, p.nasty, p.cr_in_text), kind: Kind::Raw },
        _ if heredoc && p.heredocs => Scal { text: heredoc_text(r, p.nasty, p.cr_in_text), kind: Kind::Heredoc },
        _ => Scal { text: text(r, p.nasty, p.cr_in_text), kind: Kind::Quoted },
    }
}
pub fn gen_key(r: &mut Rng, p: &Profile) -> Key {
    let (mut tag, mut pay) = (None, None);
    let k = if p.simple_keys { r.below(80) } else { r.below(100) };
    match k {
        0..=59 => {
            let mut t = if r.pct(70) { r.pick(IDENT).to_string() } else { bare_text(r) };
            if r.pct(30) {
                t.push_str(&r.below(100).to_string());
            }
            t = t.replace('.', "_");
            if !bare_ok(&t) {
                t = "k".into()
            }
            pay = Some(Scal { text: t, kind: Kind::Bare })
        }
        60..=72 => pay = Some(Scal { text: text(r, p.nasty, p.cr_in_text), kind: Kind::Quoted }),
        73..=79 => pay = Some(Scal { text: text(r, p.nasty, p.cr_in_text), kind: Kind::Raw }),
        80..=86 => {}
        87..=93 => tag = Some(tag_name(r)),
        _ => {
            tag = Some(tag_name(r));
            let k = if r.pct(60) { Kind::Quoted } else { Kind::Raw };
            pay = Some(Scal { text: text(r, p.nasty, p.cr_in_text), kind: k });
            fix_tag_r(tag.as_mut().unwrap(), k);
        }
    }
    Key { tag, pay, sp: Sp(0, 0) }
}
/// `@namer"x"` is ambiguous in the language: such names never carry a quoted payload here.
fn fix_tag_r(t: &mut String, k: Kind) {
    if k == Kind::Quoted && t.ends_with('r') {
        t.push('x')
    }
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Profile,
    left: isize,
}
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Profile) -> Self {
        let left = p.budget as isize;
        Gen { r, p, left }
    }
    pub fn val(&mut self, depth: usize) -> Val {
        self.left -= 1;
        let leaf = depth >= self.p.max_depth || self.left <= 0;
        let mut tags = vec![];
        if self.r.pct(self.p.tags) {
            tags.push(tag_name(self.r));
            while self.p.chains && tags.len() < 5 && self.r.pct(12) {
                tags.push(tag_name(self.r));
            }
        }
        let deep = self.p.max_depth > 10;
        let pick = if leaf { self.r.below(62) } else if deep { self.r.range(40, 99) } else { self.r.below(100) };
        let pay = match pick {
            0..=54 => {
                let mut s = scal(self.r, &self.p.clone(), true);
                if !tags.is_empty() {
                    if s.kind == Kind::Heredoc && !self.p.tag_heredoc {
                        s.kind = Kind::Raw
                    }
                    if s.kind == Kind::Bare {
                        s.kind = Kind::Quoted
                    }
                    fix_tag_r(tags.last_mut().unwrap(), s.kind);
                }
                Pay::Scalar(s)
            }
            55..=61 => Pay::Unit,
            62..=79 => {
                let n = self.width();
                Pay::Seq((0..n).map(|_| self.val(depth + 1)).collect())
            }
            _ => Pay::Obj(self.ents(depth + 1, false)),
        };
        Val::new(tags, pay)
    }
    fn width(&mut self) -> usize {
        match self.r.below(12) {
            0 | 1 => 0,
            2..=4 => 1,
            5..=8 => self.r.range(2, 4),
            9 | 10 => self.r.range(3, 9),
            _ => self.r.range(5, 30),
        }
    }
    fn doc(&mut self) -> Option<String> {
        if !self.r.pct(self.p.docs) {
            return None;
        }
        let n = *self.r.pick(&[1usize, 1, 1, 2, 3]);
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            let t = match self.r.below(8) {
                0 => String::new(),
                1 => "é 日本 😀 \u{10fffd} doc".into(),
                2 => "with \"quotes\" {braces} @tag // slashes".into(),
                3 => "  indented".into(),
                _ => format!("{} {}", self.r.pick(IDENT), self.r.pick(IDENT)),
            };
            v.push(t);
        }
        Some(v.join("\n"))
    }
    pub fn ents(&mut self, depth: usize, root: bool) -> Vec<Ent> {
        let n = if root { self.r.range(0, 4).max(if self.r.pct(90) { 1 } else { 0 }) + if self.p.budget > 60 { self.r.below(12) } else { 0 } } else { self.width() };
        let mut seen: HashSet<KeyId> = HashSet::new();
        let mut out = vec![];
        for _ in 0..n {
            if self.left <= 0 && !out.is_empty() {
                break;
            }
            if root && self.p.dotted && self.r.pct(18) {
                self.dotted(&mut seen, &mut out);
                continue;
            }
            let k = gen_key(self.r, &self.p.clone());
            if !seen.insert(key_id(&k)) {
                continue;
            }
            let doc = self.doc();
            let val = self.val(depth);
            out.push(Ent { key: k, val, doc });
        }
        out
    }
    fn seg(&mut self) -> String {
        loop {
            let t = if self.r.pct(80) { self.r.pick(IDENT).to_string() } else { bare_text(self.r).replace('.', "") };
            if bare_ok(&t) && !t.contains('.') {
                return t;
            }
        }
    }
    /// A group of dotted paths sharing a first segment, in an order the reference allows.
    fn dotted(&mut self, seen: &mut HashSet<KeyId>, out: &mut Vec<Ent>) {
        let first = self.seg();
        if !seen.insert(KeyId::Scalar(first.clone())) {
            return;
        }
        let mut paths: Vec<Vec<String>> = vec![];
        self.trie(vec![first], &mut paths, 0);
        for (i, p) in paths.iter().enumerate() {
            let mut v = self.val(2);
            for (n, s) in p.iter().enumerate().rev() {
                let key = Key { tag: None, pay: Some(Scal { text: s.clone(), kind: Kind::Bare }), sp: Sp(0, 0) };
                let doc = if n == 0 && i == 0 { self.doc() } else { None };
                let e = Ent { key, val: v, doc };
                if n == 0 {
                    out.push(e);
                    break;
                }
                v = Val::new(vec![], Pay::Obj(vec![e]));
                v.implied = Imp(true);
            }
        }
    }
    fn trie(&mut self, pre: Vec<String>, paths: &mut Vec<Vec<String>>, d: usize) {
        let n = if d == 0 { self.r.range(1, 3) } else { self.r.range(1, 2) };
        let mut used = HashSet::new();
        for _ in 0..n {
            let s = self.seg();
            if !used.insert(s.clone()) {
                continue;
            }
            let mut p = pre.clone();
            p.push(s);
            if d < 3 && self.r.pct(35) {
                self.trie(p, paths, d + 1);
            } else {
                paths.push(p);
            }
        }
    }
}

pub struct Printer<'a> {
    pub o: String,
    r: &'a mut Rng,
    p: Profile,
    nl: &'static str,
    unit: String,
    /// A newline must come before anything else (after a comment or a heredoc).
    need_nl: bool,
    pub comments: usize,
    pub heads: usize,
}
pub fn document(r: &mut Rng, p: &Profile) -> (Vec<Ent>, String) {
    let ents = Gen::new(r, p.clone()).ents(0, true);
    let t = print(r, p, &ents);
    (ents, t)
}
pub fn print(r: &mut Rng, p: &Profile, ents: &[Ent]) -> String {
    let nl = if p.crlf && r.pct(12) { "\r\n" } else { "\n" };
    let unit = r.pick(&["  ", "    ", "\t", "", " ", "   ", "        "]).to_string();
    let mut pr = Printer { o: String::new(), r, p: p.clone(), nl, unit, need_nl: false, comments: 0, heads: 0 };
    pr.document(ents);
    pr.o
}
impl Printer<'_> {
    fn newline(&mut self, ind: usize) {
        if self.p.sloppy && !self.need_nl && self.r.pct(3) {
            self.o.push_str(self.r.pick(&[" ", "\t", "  "]));
        }
        self.o.push_str(self.nl);
        if self.p.sloppy && self.r.pct(8) {
            for _ in 0..self.r.range(1, 3) {
                self.o.push_str(self.nl);
            }
        }
        for _ in 0..ind {
            self.o.push_str(&self.unit.clone());
        }
        self.need_nl = false;
    }
    fn space(&mut self) {
        if self.p.sloppy && self.r.pct(6) {
            let s = *self.r.pick(&["  ", "\t", "    ", " \t "]);
            self.o.push_str(s)
        } else {
            self.o.push(' ')
        }
    }
    fn comment_text(&mut self) -> String {
        let t = match self.r.below(8) {
            0 => "".to_string(),
            1 => " é 日本 😀 \u{f0001}".into(),
            2 => " \"quoted\" {a b} (c) @d, e>f <<EOF".into(),
            3 => "no space".into(),
            4 => " // again".into(),
            5 => format!(" {}", "long comment ".repeat(9)).trim_end().to_string(),
            _ => format!(" comment {}", self.r.below(1000)),
        };
        format!("//{t}")
    }
    fn line_comment(&mut self) {
        let c = self.comment_text();
        self.comments += 1;
        self.o.push_str(&c);
        self.need_nl = true;
    }
    /// Optional own-line comments in a gap where newlines are separators.
    fn gap_comments(&mut self, ind: usize) {
        while self.r.pct(self.p.comments) {
            if self.need_nl || !(self.o.is_empty() || self.o.ends_with([' ', '\t', '\n'])) {
                self.newline(ind);
                if !(self.o.is_empty() || self.o.ends_with([' ', '\t', '\n'])) {
                    self.o.push(' ');
                }
            }
            self.line_comment();
            self.newline(ind);
        }
    }
    fn document(&mut self, ents: &[Ent]) {
        let explicit = self.r.pct(self.p.explicit_root);
        if self.p.sloppy && self.r.pct(5) {
            self.o.push_str(self.r.pick(&["\n", " ", "\n\n", "\t"]));
        }
        if explicit {
            self.gap_comments(0);
            self.object(ents, 0, true);
            if self.r.pct(40) {
                self.newline(0);
            }
            self.gap_comments(0);
        } else {
            let inline = self.r.pct(6);
            self.entries(ents, 0, true, inline);
            if self.need_nl || self.r.pct(80) {
                if self.r.pct(70) {
                    self.newline(0);
                }
            }
            if self.p.comments > 0 && self.r.pct(self.p.comments) {
                if !self.o.is_empty() {
                    self.newline(0);
                }
                self.line_comment();
                if self.r.pct(50) {
                    self.newline(0)
                }
            }
        }
    }
    fn entries(&mut self, ents: &[Ent], ind: usize, root: bool, inline: bool) {
        for (i, e) in ents.iter().enumerate() {
            if i > 0 {
                let comma = self.r.pct(if inline { 100 } else { 8 }) && !self.need_nl;
                if comma {
                    if self.r.pct(5) {
                        self.o.push(' ');
                    }
                    self.o.push(',');
                }
                if !self.need_nl && self.r.pct(self.p.comments) {
                    self.o.push(' ');
                    self.line_comment();
                }
                if self.need_nl || !comma || (!inline && self.r.pct(50)) {
                    self.newline(ind);
                } else if self.r.pct(80) {
                    self.space();
                }
            }
            self.gap_comments(ind);
            if self.need_nl {
                self.newline(ind);
            }
            if let Some(d) = &e.doc {
                if !(self.o.is_empty() || self.at_line_start()) {
                    self.o.push_str(self.nl);
                    for _ in 0..ind {
                        self.o.push_str(&self.unit.clone());
                    }
                }
                for l in d.split('\n') {
                    self.o.push_str("///");
                    if !l.is_empty() {
                        let glue = !l.starts_with([' ', '/']) && self.r.pct(10);
                        if !glue {
                            self.o.push(' ');
                        }
                        self.o.push_str(l);
                    } else if self.p.sloppy && self.r.pct(20) {
                        self.o.push(' ');
                    }
                    self.o.push_str(self.nl);
                    for _ in 0..ind {
                        self.o.push_str(&self.unit.clone());
                    }
                }
            }
            self.entry(e, ind, root);
        }
    }
    fn at_line_start(&self) -> bool {
        let l = self.o.rsplit('\n').next().unwrap_or("");
        l.bytes().all(|c| c == b' ' || c == b'\t')
    }
    fn key(&mut self, k: &Key) {
        if let Some(t) = &k.tag {
            self.o.push('@');
            self.o.push_str(t);
        }
        match &k.pay {
            None if k.tag.is_none() => self.o.push('@'),
            None => {}
            Some(s) => self.scalar(s, k.tag.is_some(), 0),
        }
    }
    fn entry(&mut self, e: &Ent, ind: usize, _root: bool) {
        self.heads += 1;
        let mut bare_key = e.key.tag.is_none() && matches!(&e.key.pay, Some(s) if s.kind == Kind::Bare);
        self.key(&e.key);
        let mut v = &e.val;
        while v.implied.0
            && let Pay::Obj(x) = &v.pay
        {
            self.o.push('.');
            self.key(&x[0].key);
            bare_key = true;
            v = &x[0].val;
        }
        if v.tags.is_empty() && v.pay == Pay::Unit {
            if self.r.pct(50) {
                self.space();
                self.o.push('@');
            }
            return;
        }
        let glue = !bare_key
            && e.key.tag.is_none()
            && e.key.pay.is_some()
            && v.tags.is_empty()
            && matches!(v.pay, Pay::Seq(_) | Pay::Obj(_))
            && self.r.pct(8);
        if glue {
            match &v.pay {
                Pay::Obj(x) => self.object(x, ind, false),
                _ => self.value(v, ind, false),
            }
            return;
        }
        self.space();
        self.value(v, ind, true);
    }
    fn attr_ok(&self, es: &[Ent]) -> bool {
        !es.is_empty()
            && es.iter().all(|e| {
                e.doc.is_none()
                    && e.key.tag.is_none()
                    && matches!(&e.key.pay, Some(s) if s.kind == Kind::Bare && !s.text.contains('.'))
                    && !(e.val.tags.is_empty() && e.val.pay == Pay::Unit)
            })
            && es[..es.len() - 1].iter().all(|e| !ends_with_heredoc(&e.val))
    }
    /// A value; `attrs`: attribute notation is possible here.
    fn value(&mut self, v: &Val, ind: usize, attrs: bool) {
        for (i, t) in v.tags.iter().enumerate() {
            if i > 0 {
                self.o.push('/');
            }
            self.o.push('@');
            self.o.push_str(t);
        }
        let tagged = !v.tags.is_empty();
        match &v.pay {
            Pay::Unit => {
                if !tagged || self.r.pct(15) {
                    self.o.push('@')
                }
            }
            Pay::Scalar(s) => self.scalar(s, tagged, ind),
            Pay::Seq(xs) => self.sequence(xs, ind),
            Pay::Obj(es) => {
                if attrs && !tagged && self.p.attrs && self.attr_ok(es) && self.r.pct(30) {
                    for (i, e) in es.iter().enumerate() {
                        if i > 0 {
                            self.space();
                        }
                        self.key(&e.key);
                        self.o.push('>');
                        self.value(&e.val, ind, false);
                    }
                } else {
                    self.object(es, ind, false)
                }
            }
        }
    }
    fn object(&mut self, es: &[Ent], ind: usize, root: bool) {
        self.o.push('{');
        let inline = self.r.pct(35);
        if inline {
            if self.r.pct(30) {
                self.space();
            }
            self.entries(es, ind + 1, root, true);
            if self.need_nl {
                self.newline(ind);
            } else if self.r.pct(30) {
                if !es.is_empty() && self.r.pct(10) {
                    self.o.push(',');
                }
                self.space();
            }
        } else {
            if self.r.pct(self.p.comments) {
                self.o.push(' ');
                self.line_comment();
            }
            if !es.is_empty() || self.need_nl || self.r.pct(20) {
                self.newline(ind + 1);
            }
            self.entries(es, ind + 1, root, false);
            if !es.is_empty() && !self.need_nl && self.r.pct(5) {
                self.o.push(',');
            }
            if !self.need_nl && self.r.pct(self.p.comments) {
                self.o.push(' ');
                self.line_comment();
            }
            if self.r.pct(self.p.comments / 2) {
                self.newline(ind + 1);
                if !self.o.ends_with([' ', '\t', '\n']) {
                    self.o.push(' ');
                }
                self.line_comment();
            }
            if self.need_nl || !es.is_empty() {
                self.newline(ind);
            }
        }
        self.o.push('}');
    }
    fn sequence(&mut self, xs: &[Val], ind: usize) {
        self.o.push('(');
        let inline = self.r.pct(65);
        for (i, x) in xs.iter().enumerate() {
            if i == 0 {
                if !inline {
                    self.newline(ind + 1);
                } else if self.r.pct(10) {
                    self.space();
                }
            } else {
                if !self.need_nl && self.r.pct(self.p.comments / 2) {
                    self.o.push(' ');
                    self.line_comment();
                }
                if self.need_nl || !inline {
                    self.newline(ind + 1)
                } else {
                    self.space()
                }
            }
            if !inline || i > 0 {
                self.gap_comments(ind + 1);
                if self.need_nl {
                    self.newline(ind + 1);
                }
            }
            let at = self.o.len();
            self.value(x, ind + 1, true);
            // attributes on one line would merge with the next element's
            if x.tags.is_empty() && matches!(x.pay, Pay::Obj(_)) && !self.o[at..].starts_with('{') {
                self.need_nl = true;
            }
        }
        if !self.need_nl && self.r.pct(self.p.comments / 3) {
            self.o.push(' ');
            self.line_comment();
        }
        if self.need_nl || (!inline && !xs.is_empty()) {
            self.newline(ind);
        } else if self.r.pct(10) {
            self.space();
        }
        self.o.push(')');
    }
    fn scalar(&mut self, s: &Scal, tagged: bool, ind: usize) {
        match s.kind {
            Kind::Bare => self.o.push_str(&s.text),
            Kind::Quoted => {
                let t = quoted(self.r, &s.text);
                self.o.push_str(&t)
            }
            Kind::Raw => {
                let t = raw(self.r, &s.text, tagged);
                self.o.push_str(&t)
            }
            Kind::Heredoc => {
                let cl = if self.r.pct(60) { Some(self.unit.repeat(ind + 1)) } else { None };
                let t = heredoc(self.r, &s.text, cl, self.nl);
                self.o.push_str(&t);
                self.need_nl = true;
            }
        }
    }
}
pub fn ends_with_heredoc(v: &Val) -> bool {
    match &v.pay {
        Pay::Scalar(s) => s.kind == Kind::Heredoc,
        // an attribute object whose last value is a heredoc (its extent ends where the heredoc does)
        Pay::Obj(es) => es.last().is_some_and(|e| e.val.sp.1 == v.sp.1 && ends_with_heredoc(&e.val)),
        _ => false,
    }
}
/// One of the many quoted spellings of a text.
pub fn quoted(r: &mut Rng, t: &str) -> String {
    let esc = *r.pick(&[0usize, 0, 5, 40, 100]);
    let mut o = String::from("\"");
    for c in t.chars() {
        let n = c as u32;
        let uni = |r: &mut Rng| -> String {
            if n <= 0xffff && r.pct(50) {
                if r.pct(50) { format!("\\u{n:04x}") } else { format!("\\u{n:04X}") }
            } else {
                let w = r.range(1, 6);
                if r.pct(50) { format!("\\u{{{n:0w$x}}}") } else { format!("\\u{{{n:0w$X}}}") }
            }
        };
        match c {
            '"' if r.pct(90) => o.push_str("\\\""),
            '\\' if r.pct(90) => o.push_str("\\\\"),
            '"' | '\\' => o.push_str(&uni(r)),
            '\n' if r.pct(70) => o.push_str("\\n"),
            '\r' if r.pct(70) => o.push_str("\\r"),
            '\t' if r.pct(60) => o.push_str("\\t"),
            c if r.pct(esc) => {
                let _ = c;
                o.push_str(&uni(r))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn raw(r: &mut Rng, t: &str, at_least_one: bool) -> String {
    let mut need = 0;
    for (i, _) in t.match_indices('"') {
        let run = t[i + 1..].bytes().take_while(|c| *c == b'#').count();
        need = need.max(run + 1);
    }
    if at_least_one {
        need = need.max(1);
    }
    let n = need
        + match r.below(20) {
            0 => *r.pick(&[2usize, 3, 7, 15, 16, 17, 31, 63, 64, 100]),
            1 if r.pct(30) => *r.pick(&[127usize, 128, 200, 254, 255, 256, 257, 300, 511, 512, 1000]),
            2..=8 => 1,
            _ => 0,
        };
    let h = "#".repeat(n);
    format!("r{h}\"{t}\"{h}")
}
pub fn heredoc(r: &mut Rng, t: &str, indent: Option<String>, nl: &str) -> String {
    assert!(t.is_empty() || t.ends_with('\n'));
    let delim = loop {
        let d = if r.pct(60) {
            r.pick(&["EOF", "BASH", "SQL", "E", "END_1", "A_B", "ABCDEFGHIJKLMNOP", "X9"]).to_string()
        } else {
            let n = r.range(1, 16);
            (0..n).map(|i| *r.pick(if i == 0 { b"ABCDEFGHIJKLMNOPQRSTUVWXYZ".as_slice() } else { b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_".as_slice() }) as char).collect()
        };
        let clash = t.split('\n').any(|l| {
            let l = l.trim_start_matches([' ', '\t']);
            l == d || l.strip_suffix('\r') == Some(&d)
        });
        if !clash {
            break d;
        }
    };
    let lang = if r.pct(25) { format!(",{}", r.pick(&["rust", "c", "json5", "x-y", "a.b_c"])) } else { String::new() };
    let ind = match indent {
        Some(i) => i,
        None => r.pick(&["", "", "  ", "\t", " \t ", "      "]).to_string(),
    };
    let mut o = format!("<<{delim}{lang}{nl}");
    for l in t.split_inclusive('\n') {
        let blank = l == "\n" || l == "\r\n";
        if !(blank && r.pct(70)) {
            // any mix of blanks of the right length is stripped
            if r.pct(5) {
                for _ in 0..ind.len() {
                    o.push(*r.pick(&[' ', '\t']));
                }
            } else {
                o.push_str(&ind);
            }
        }
        o.push_str(l);
    }
    o.push_str(&ind);
    o.push_str(&delim);
    o
}
