//! C01 (no types yet), C02, C03, C05, C06, C07, C08.
use super::parse::{ename, profile};
use crate::mkdoc::{self, Gen, Profile, document};
use crate::model::*;
use crate::mutate;
use crate::real;
use crate::refp::{self, KeyId, PathTree, Verdict};
use crate::rng::Rng;
use crate::run::*;
use styx_parse::{Event, EventKind, ParseErrorKind, Parser, ScalarKind};

// ---------------------------------------------------------------- texts
/// A text from one of several sources: valid, mutated, soup, deep, long, unicode noise.
pub fn any_text(c: &mut Case) -> (&'static str, String) {
    let mut p = profile(c);
    match c.r.below(20) {
        0..=3 => ("valid", document(&mut c.r, &p).1),
        4..=9 => {
            p.budget = p.budget.min(30);
            let a = document(&mut c.r, &p).1;
            let b = document(&mut c.r, &p).1;
            ("mutated", mutate::mutate(&mut c.r, &a, &b))
        }
        10..=14 => ("soup", mutate::soup(&mut c.r)),
        15 => ("deep", deep(&mut c.r)),
        16 => {
            let unit = mutate::soup(&mut c.r);
            let n = c.r.range(2, 60);
            let sep = *c.r.pick(&["", " ", "\n", ","]);
            ("repeated", vec![unit.as_str(); n].join(sep))
        }
        17 => {
            let n = c.r.range(1, 40);
            let s: String = (0..n)
                .map(|_| {
                    let hi = *c.r.pick(&[0x80usize, 0x100, 0x3000, 0x110000]);
                    char::from_u32(c.r.below(hi) as u32).unwrap_or('\u{fffd}')
                })
                .collect();
            ("noise", s)
        }
        18 => {
            // cut a valid document anywhere
            let a = document(&mut c.r, &p).1;
            let i = mutate::boundary(&mut c.r, &a);
            ("truncated", a[..i].to_string())
        }
        _ => {
            let a = document(&mut c.r, &p).1;
            let i = mutate::boundary(&mut c.r, &a);
            ("tail", a[i..].to_string())
        }
    }
}
pub fn deep(r: &mut Rng) -> String {
    let n = *r.pick(&[10usize, 50, 100, 200, 300]);
    let open = *r.pick(&["a {", "a (", "(", "{", "{a ", "@t(", "@t{a ", "a>{", "a>(", "a {\n", "(\n", "a {b 1,c ", "@t@", "a.", "a>", "@t/@", "a {/// d\nb ", "(@x{y ("]);
    let mut s = String::new();
    if r.pct(60) {
        s.push_str("k ");
    }
    for _ in 0..n {
        s.push_str(open);
    }
    s.push_str(*r.pick(&["", "x", "x 1", "@", "\"", "<<EOF\nx\nEOF"]));
    let mut closers = String::new();
    for ch in open.chars().rev() {
        match ch {
            '{' => closers.push('}'),
            '(' => closers.push(')'),
            _ => {}
        }
    }
    let m = if r.pct(70) { n } else { r.below(n + 3) };
    let sep = *r.pick(&["", "\n", " "]);
    for _ in 0..m {
        s.push_str(sep);
        s.push_str(&closers);
    }
    s
}

// ---------------------------------------------------------------- C01
fn depth_of(s: &str) -> usize {
    s.bytes().filter(|b| matches!(b, b'{' | b'(' | b'>' | b'.')).count().min(400)
}
pub fn c01_text(c: &mut Case) {
    let (what, s) = any_text(c);
    c.count(what);
    c01_judge(c, &s);
    c.eval(if s.len() > 2 { Some(&s) } else { None });
    c.sample(&s);
}
fn bounded(c: &mut Case, what: &str, n: usize, lim: usize, s: &str) {
    if n > lim {
        c.fail(format!("unbounded:{what}"), format!("{what}: {n} units of output for {} bytes (limit {lim})", s.len()), s);
    }
}
pub fn c01_judge(c: &mut Case, s: &str) {
    let n = s.len();
    macro_rules! g {
        ($what:expr, $f:expr) => {
            match c.guard(|| $f) {
                Ok(v) => {
                    c.count(concat!("ran:", $what));
                    Some(v)
                }
                Err(m) => {
                    c.fail(concat!("panic:", $what), m, s);
                    None
                }
            }
        };
    }
    if let Some(k) = g!("tokenizer", {
        let mut t = styx_tokenizer::Tokenizer::new(s);
        let mut k = 0;
        while t.next_token().kind != styx_tokenizer::TokenKind::Eof {
            k += 1;
            if k > 4 * n + 64 {
                break;
            }
        }
        k
    }) {
        bounded(c, "tokens", k, 2 * n + 16, s);
    }
    if let Some(k) = g!("events", real::events(s).len()) {
        bounded(c, "events", k, 12 * n + 32, s);
        c.add("events", k);
    }
    if let Some(k) = g!("expression", {
        let mut p = Parser::new_expr(s);
        let mut k = 0;
        while p.next_event().is_some() {
            k += 1;
            if k > 16 * n + 64 {
                break;
            }
        }
        k
    }) {
        bounded(c, "expression events", k, 12 * n + 32, s);
    }
    g!("tree", styx_tree::parse(s).is_ok());
    g!("cst", {
        let p = styx_cst::parse(s);
        let d = styx_cst::validate(&p.syntax());
        (p.errors().len(), d.len())
    });
    let o = options(&mut c.r);
    let ind = o.indent.len();
    if let Some(f) = g!("format", styx_format::format_source(s, o)) {
        bounded(c, "formatted bytes", f.len(), (n + 16) * (16 + ind * depth_of(s)), s);
    }
    #[cfg(feature = "typed")]
    super::types::c01_typed(c, s);
}
pub fn options(r: &mut Rng) -> styx_format::FormatOptions {
    let mut o = styx_format::FormatOptions::default();
    if r.pct(40) {
        return o;
    }
    o.indent = r.pick(&["", " ", "  ", "    ", "\t", "        "]);
    o.max_width = *r.pick(&[0, 1, 10, 20, 40, 79, 80, 81, 120, 1000, usize::MAX]);
    o.min_inline_width = *r.pick(&[0, 10, 30, 80, 1000]);
    o.inline_object_threshold = *r.pick(&[0, 1, 2, 4, 100, usize::MAX]);
    o.inline_sequence_threshold = *r.pick(&[0, 1, 2, 8, 100, usize::MAX]);
    o.heredoc_line_threshold = *r.pick(&[0, 1, 2, 3, 100]);
    match r.below(3) {
        0 => o,
        1 => o.inline(),
        _ => o.multiline(),
    }
}
pub fn c01() -> Spec {
    Spec {
        prop: "C01",
        rule: "texts (valid, mutated, token soup, nested up to 300 levels, repeated units, Unicode noise, truncations) through every front end under panic capture, overflow checks, a stack limit, a hang watchdog and an output bound. Distinct by text; non-trivial: longer than two bytes",
        streams: vec![Stream { name: "text", f: c01_text, quick: 60_000, thorough: 1_500_000 }],
        must: &["ran:tokenizer", "ran:events", "ran:tree", "ran:cst", "ran:format", "ran:facet", "ran:serde", "deep"],
    }
}

// ---------------------------------------------------------------- C02
fn slice<'a>(s: &'a str, a: u32, b: u32) -> Option<&'a str> {
    if a > b { None } else { s.get(a as usize..b as usize) }
}
/// The text a scalar's source slice denotes, read by the reference reader.
fn denotes(sl: &str, kind: ScalarKind, said: &str) -> Option<String> {
    if kind == ScalarKind::Bare {
        return Some(sl.to_string());
    }
    match refp::read(&format!("k {sl}")) {
        Verdict::Ok(d) if d.ents.len() == 1 => match &d.ents[0].val.pay {
            Pay::Scalar(s) if real::kind(kind) == s.kind => Some(s.text.clone()),
            _ => None,
        },
        // a notation the reference leaves open
        Verdict::Unspec(_) => Some(said.to_string()),
        _ => None,
    }
}
pub fn monitor_stream(c: &mut Case, src: &str, evs: &[Event<'_>]) -> Result<(), (String, String)> {
    let e = |sig: &str, m: String| Err((sig.to_string(), m));
    let valid = !evs.iter().any(|e| matches!(e.kind, EventKind::Error { .. }));
    if !matches!(evs.first().map(|e| &e.kind), Some(EventKind::DocumentStart)) {
        return e("no-document-start", format!("{:?}", evs.first()));
    }
    let ends = evs.iter().filter(|e| matches!(e.kind, EventKind::DocumentEnd)).count();
    if ends != 1 {
        return e("document-end", format!("{ends} DocumentEnd events"));
    }
    if let Err(m) = real::from_events(evs) {
        return e("malformed-stream", m);
    }
    let mut last = 0u32;
    let mut prev_key_end = 0u32;
    for (i, ev) in evs.iter().enumerate() {
        let (a, b) = (ev.span.start, ev.span.end);
        let Some(sl) = slice(src, a, b) else {
            return e("span", format!("event {i} {:?} has span {a}..{b} in a text of {} bytes", ev.kind, src.len()));
        };
        let bad = |what: &str| e("span-text", format!("event {i} {:?}: {what} does not match its source {:?}", ev.kind, sl));
        match &ev.kind {
            EventKind::Scalar { value, kind } => {
                let ok = match (valid, kind) {
                    (_, ScalarKind::Bare) => sl == value.as_ref(),
                    (true, k) => denotes(sl, *k, value).as_deref() == Some(value.as_ref()),
                    (false, ScalarKind::Quoted) => sl.starts_with('"'),
                    (false, ScalarKind::Raw) => sl.starts_with('r'),
                    (false, ScalarKind::Heredoc) => sl.starts_with("<<"),
                };
                if !ok {
                    return bad("scalar");
                }
                c.count("scalar-spans");
            }
            EventKind::Key { tag, payload, kind } => {
                let mut rest = sl;
                if let Some(t) = tag {
                    match sl.strip_prefix('@').and_then(|x| x.strip_prefix(t)) {
                        Some(r) => rest = r,
                        None => return bad("key tag"),
                    }
                }
                if valid {
                    let ok = match payload {
                        None => (rest.is_empty() && tag.is_some()) || rest == "@",
                        Some(p) => denotes(rest, *kind, p).as_deref() == Some(p.as_ref()),
                    };
                    if !ok {
                        return bad("key");
                    }
                }
                prev_key_end = b;
                c.count("key-spans");
            }
            EventKind::TagStart { name } => {
                if !sl.strip_prefix('@').is_some_and(|x| x.starts_with(name)) {
                    return bad("tag");
                }
                c.count("tag-spans");
            }
            EventKind::Comment { text } => {
                if sl != *text || !text.starts_with("//") {
                    return bad("comment");
                }
                c.count("comment-spans");
            }
            EventKind::DocComment { lines } => {
                // one or several lines of the source
                let want: Vec<String> = sl
                    .lines()
                    .map(|l| l.trim_start_matches(|c: char| c == ',' || c.is_whitespace()))
                    .filter(|l| l.starts_with("///"))
                    .map(|l| l.strip_prefix("/// ").or(l.strip_prefix("///")).unwrap().to_string())
                    .collect();
                if want != *lines {
                    return bad("doc comment");
                }
                c.count("doc-spans");
            }
            EventKind::Unit => {
                if valid && sl != "@" && b != prev_key_end && !sl.contains('.') {
                    return bad("unit");
                }
            }
            EventKind::SequenceStart => {
                if !sl.starts_with('(') || (valid && !sl.ends_with(')')) {
                    return bad("sequence");
                }
            }
            _ => {}
        }
        if valid {
            let pos = match &ev.kind {
                EventKind::EntryStart | EventKind::Key { .. } | EventKind::Scalar { .. } | EventKind::TagStart { .. } | EventKind::SequenceStart => Some(a),
                _ => None,
            };
            if let Some(p) = pos {
                if p < last {
                    return e("order", format!("event {i} {:?} starts at {p}, before an earlier event at {last}", ev.kind));
                }
                last = p;
            }
        }
    }
    Ok(())
}
pub fn c02_judge(c: &mut Case, s: &str) -> bool {
    let evs = match c.guard(|| real::events(s)) {
        Ok(e) => e,
        Err(m) => {
            c.fail("panic", m, s);
            return false;
        }
    };
    if let Err((sig, m)) = monitor_stream(c, s, &evs) {
        c.fail(sig, m, s);
    }
    c.add("events", evs.len());
    // however it is pulled
    match c.guard(|| Parser::new(s).parse_to_vec()) {
        Ok(v) if v == evs => {}
        Ok(v) => c.fail("pull-differs", format!("parse_to_vec gives {} events, next_event {}", v.len(), evs.len()), s),
        Err(m) => c.fail("panic", m, s),
    }
    let cut = c.r.below(evs.len() + 1);
    let cloned = c.guard(|| {
        let mut p = Parser::new(s);
        let mut v = vec![];
        for _ in 0..cut {
            v.extend(p.next_event());
        }
        let mut q = p.clone();
        let mut w = v.clone();
        while let Some(e) = q.next_event() {
            w.push(e);
        }
        while let Some(e) = p.next_event() {
            v.push(e);
        }
        // pulling past the end stays at the end
        let after = p.next_event().is_some() || p.next_event().is_some();
        (v, w, after)
    });
    match cloned {
        Ok((v, w, after)) => {
            if v != evs || w != evs {
                c.fail("clone-differs", format!("a parser cloned after {cut} events continues differently"), s);
            }
            if after {
                c.fail("after-end", "events after the end of the stream", s);
            }
        }
        Err(m) => c.fail("panic", m, s),
    }
    true
}
pub fn c02_text(c: &mut Case) {
    let (what, s) = any_text(c);
    c.count(what);
    c02_judge(c, &s);
    c.eval(if s.len() > 2 { Some(&s) } else { None });
    c.sample(&s);
}
pub fn c02() -> Spec {
    Spec {
        prop: "C02",
        rule: "texts of every kind; an online monitor checks balance, entry protocol, span bounds, span text and order of every event, and three ways of pulling the stream are compared. Distinct by text; non-trivial: longer than two bytes",
        streams: vec![Stream { name: "text", f: c02_text, quick: 240_000, thorough: 4_800_000 }],
        must: &["scalar-spans", "key-spans", "tag-spans", "comment-spans", "doc-spans", "events"],
    }
}

// ---------------------------------------------------------------- C03
pub fn c03_text(c: &mut Case) {
    let (what, s) = any_text(c);
    c.count(what);
    match c.guard(|| {
        let mut t = styx_tokenizer::Tokenizer::new(&s);
        let mut at = 0usize;
        let mut n = 0;
        loop {
            let k = t.next_token();
            let (a, b) = (k.span.start as usize, k.span.end as usize);
            if k.kind == styx_tokenizer::TokenKind::Eof {
                if at != s.len() || a != s.len() {
                    return Err(format!("tokens end at {at} (end of file at {a}) of {}", s.len()));
                }
                return Ok(n);
            }
            if a != at || b < a || s.get(a..b).is_none() {
                return Err(format!("token {n} {:?} covers {a}..{b}, the previous one ended at {at}", k.kind));
            }
            if s.get(a..b) != Some(k.text) {
                return Err(format!("token {n} {:?} has text {:?} but covers {:?}", k.kind, k.text, &s[a..b]));
            }
            at = b;
            n += 1;
            if n > 4 * s.len() + 64 {
                return Err("no end of file token".into());
            }
        }
    }) {
        Ok(Ok(n)) => c.add("tokens", n),
        Ok(Err(m)) => c.fail("tokens", m, &s),
        Err(m) => c.fail("panic", m, &s),
    }
    match c.guard(|| {
        let p = styx_cst::parse(&s);
        let root = p.syntax();
        let mut n = 0;
        let mut bad = None;
        let mut at = 0usize;
        for t in root.descendants_with_tokens() {
            n += 1;
            let r = t.text_range();
            if let Some(tok) = t.as_token() {
                if usize::from(r.start()) != at || Some(tok.text()) != s.get(usize::from(r.start())..usize::from(r.end())) {
                    bad = Some(format!("syntax token {:?} at {:?} has text {:?}", tok.kind(), r, tok.text()));
                }
                at = usize::from(r.end());
            }
        }
        if bad.is_none() && root.text() != s.as_str() {
            bad = Some(format!("the syntax tree's text is {:?}", root.text().to_string()));
        }
        (n, bad)
    }) {
        Ok((n, None)) => c.add("nodes", n),
        Ok((_, Some(m))) => c.fail("cst-text", m, &s),
        Err(m) => c.fail("panic", m, &s),
    }
    c.eval(if s.len() > 2 { Some(&s) } else { None });
    c.sample(&s);
}
pub fn c03() -> Spec {
    Spec {
        prop: "C03",
        rule: "texts of every kind; a monitor checks that token spans tile the text and that every token and the syntax tree reproduce it. Distinct by text; non-trivial: longer than two bytes",
        streams: vec![Stream { name: "text", f: c03_text, quick: 600_000, thorough: 12_000_000 }],
        must: &["tokens", "nodes", "deep", "soup"],
    }
}

// ---------------------------------------------------------------- C05
/// Places a scalar can stand; `{}` is replaced. Heredocs end their line.
const PLACES: &[(&str, &str)] = &[
    ("value", "k {}\n"),
    ("value2", "a 1\nk {}\nz 2\n"),
    ("nested", "k {\n  x {}\n}\n"),
    ("explicit", "{\n  k {}\n}\n"),
    ("seq", "k (\n{}\n)\n"),
    ("seq2", "k (a {}\n b)\n"),
    ("tagged", "k @t{}\n"),
    ("tagseq", "k (@t{}\n)\n"),
    ("attr", "k x>{}\n"),
    ("attr2", "k x>1 y>{}\n"),
    ("key", "{} v\n"),
    ("nestedkey", "k {\n  {} v\n}\n"),
    ("tagkey", "@t{} v\n"),
];
fn first_scal(es: &[Ent], place: &str) -> Option<Scal> {
    fn deepest(v: &Val) -> Option<&Scal> {
        match &v.pay {
            Pay::Scalar(s) => Some(s),
            Pay::Seq(x) => x.first().and_then(deepest),
            Pay::Obj(es) => es.last().and_then(|e| deepest(&e.val)),
            _ => None,
        }
    }
    match place {
        "key" | "tagkey" => es.first()?.key.pay.clone(),
        "nestedkey" => match &es.first()?.val.pay {
            Pay::Obj(x) => x.first()?.key.pay.clone(),
            _ => None,
        },
        "value2" => deepest(&es.get(1)?.val).cloned(),
        "seq2" => match &es.first()?.val.pay {
            Pay::Seq(x) => deepest(x.get(1)?).cloned(),
            _ => None,
        },
        _ => deepest(&es.first()?.val).cloned(),
    }
}
pub fn c05_string(c: &mut Case) {
    let nasty = *c.r.pick(&[10usize, 60, 100]);
    let k = *c.r.pick(&[Kind::Bare, Kind::Quoted, Kind::Quoted, Kind::Raw, Kind::Raw, Kind::Heredoc, Kind::Heredoc]);
    let (place, tmpl) = *c.r.pick(PLACES);
    let is_key = place.ends_with("key");
    let text = match k {
        Kind::Heredoc => mkdoc::heredoc_text(&mut c.r, nasty, true),
        _ => mkdoc::text(&mut c.r, nasty, true),
    };
    if k == Kind::Heredoc && is_key {
        return;
    }
    if k == Kind::Bare && (!mkdoc::bare_ok(&text) || place.starts_with("tag") || (is_key && text.contains('.')) || (place == "attr" && text.contains('='))) {
        return;
    }
    let spelled = match k {
        Kind::Bare => text.clone(),
        Kind::Quoted => mkdoc::quoted(&mut c.r, &text),
        Kind::Raw => mkdoc::raw(&mut c.r, &text, false),
        Kind::Heredoc => mkdoc::heredoc(&mut c.r, &text, None, "\n"),
    };
    let src = tmpl.replacen("{}", &spelled, 1);
    // "k {\n  x {}" style templates contain braces: replace the last pair instead
    let src = match place {
        "nested" => format!("k {{\n  x {spelled}\n}}\n"),
        "nestedkey" => format!("k {{\n  {spelled} v\n}}\n"),
        "explicit" => format!("{{\n  k {spelled}\n}}\n"),
        _ => src,
    };
    let want = Scal { text, kind: k };
    c.count(&format!("{k:?}/{place}"));
    let got = c.guard(|| {
        let ev = real::events(&src);
        let p = real::from_events(&ev);
        let t = real::tree(&src);
        (p, t)
    });
    let (p, t) = match got {
        Ok(x) => x,
        Err(m) => {
            c.fail("panic", m, &src);
            return;
        }
    };
    match p {
        Err(m) => c.fail("malformed-stream", m, &src),
        Ok(p) => {
            if let Some(e) = p.errors.first() {
                c.fail(format!("rejected:{}", ename(&e.kind)), format!("{want:?} in place {place}: {e:?}"), &src);
            } else if first_scal(&p.ents, place).as_ref() != Some(&want) {
                c.fail("events-text", format!("wrote {want:?}, read {:?}", first_scal(&p.ents, place)), &src);
            }
        }
    }
    match t {
        Err(m) => c.fail("tree-rejected", m, &src),
        Ok(t) => {
            if first_scal(&t, place).as_ref() != Some(&want) {
                c.fail("tree-text", format!("wrote {want:?}, read {:?}", first_scal(&t, place)), &src);
            }
        }
    }
    #[cfg(feature = "typed")]
    if place == "value" {
        for (api, r) in [
            ("facet", c.guard(|| facet_styx::from_str::<std::collections::HashMap<String, String>>(&src).map_err(|e| e.to_string()))),
            ("serde", c.guard(|| serde_styx::from_str::<std::collections::HashMap<String, String>>(&src).map_err(|e| e.to_string()))),
        ] {
            match r {
                Err(m) => c.fail(format!("panic:{api}"), m, &src),
                Ok(Err(m)) => c.fail(format!("{api}-rejected"), m, &src),
                Ok(Ok(m)) => {
                    if m.get("k") != Some(&want.text) {
                        c.fail(format!("{api}-text"), format!("wrote {want:?}, read {:?}", m.get("k")), &src);
                    }
                }
            }
        }
    }
    c.eval(Some(&src));
    c.sample(&src);
}
pub fn c05_broken(c: &mut Case) {
    let place = *c.r.pick(&["k {}\n", "k (a {})\n", "k @t{}\n", "k {\n x {}\n}\n", "{} v\n", "k x>{}\n", "@t{} v\n", "a.b {}\n", "k {x {}}\n"]);
    let pre = mkdoc::text(&mut c.r, 10, false).replace(['"', '\\'], "");
    let post = mkdoc::text(&mut c.r, 10, false).replace(['"', '\\'], "");
    let spelled = match c.r.below(5) {
        0 | 1 => {
            let e = match c.r.below(9) {
                0 => format!("\\{}", c.r.pick(&['x', 'q', 'a', 'b', '0', 'U', '\'', ' ', 'N', 'é', '😀', '/', '{', '\n'])),
                1 => {
                    let n = c.r.below(4);
                    let h: String = (0..n).map(|_| *c.r.pick(&['0', '9', 'a', 'F'])).collect();
                    format!("\\u{h}{}", c.r.pick(&["", "g", " ", "é", "-", "{}"]))
                }
                2 => format!("\\u{:04x}", 0xd800 + c.r.below(0x800)),
                3 => format!("\\u{{{:x}}}", 0xd800 + c.r.below(0x800)),
                4 => format!("\\u{{{:x}}}", 0x110000u64 + c.r.below(0x7fffffff) as u64),
                5 => "\\u{}".into(),
                6 => format!("\\u{{{}}}", c.r.pick(&["g", "41 ", " 41", "-1", "0x41", "é", "4_1", "+41"])),
                7 => format!("\\u{{{}", c.r.pick(&["41", "", "1f600"])),
                _ => "\\u".into(),
            };
            format!("\"{pre}{e}{post}\"")
        }
        2 => format!("\"{pre}"),
        3 => {
            let n = c.r.range(1, 5);
            let m = c.r.below(n);
            format!("r{}\"{pre}\"{}", "#".repeat(n), "#".repeat(m))
        }
        _ => {
            let d = *c.r.pick(&["EOF", "eof", "Eof", "9A", "_A", "A-B", "", "ABCDEFGHIJKLMNOPQ", "É"]);
            let close = *c.r.pick(&["", "EO", "EOFX", "eof", "EOF x", "EOF;", "x EOF"]);
            format!("<<{d}\n{}\n{close}", pre.replace('\n', " "))
        }
    };
    let src = match place {
        "k {\n x {}\n}\n" => format!("k {{\n x {spelled}\n}}\n"),
        "k {x {}}\n" => format!("k {{x {spelled}}}\n"),
        p => p.replacen("{}", &spelled, 1),
    };
    let v = refp::read(&src);
    let Verdict::Err { kind, .. } = v else {
        c.count("broken-but-not-rejected-by-reference");
        return;
    };
    c.count(&format!("broken:{kind}"));
    let r = c.guard(|| {
        let e = real::events(&src);
        (e.iter().any(|e| matches!(e.kind, EventKind::Error { .. })), real::tree(&src).is_ok())
    });
    match r {
        Err(m) => c.fail("panic", m, &src),
        Ok((false, _)) => c.fail(format!("accepted:{kind}"), "malformed scalar accepted by the parser", &src),
        Ok((_, true)) => c.fail(format!("tree-accepted:{kind}"), "malformed scalar accepted by the tree builder", &src),
        _ => {}
    }
    c.eval(Some(&src));
}
pub fn c05() -> Spec {
    Spec {
        prop: "C05",
        rule: "a string, a notation able to spell it, a random spelling and a place in a document; read back through events, tree, facet and serde. Malformed spellings must be rejected. Distinct by document",
        streams: vec![
            Stream { name: "string", f: c05_string, quick: 3_000_000, thorough: 60_000_000 },
            Stream { name: "broken", f: c05_broken, quick: 1_200_000, thorough: 24_000_000 },
        ],
        must: &["Bare/value", "Quoted/value", "Raw/value", "Heredoc/value", "Quoted/key", "Raw/tagkey", "Heredoc/tagged", "broken:invalid-escape", "broken:unterminated-string", "broken:unterminated-raw", "broken:unterminated-heredoc"],
    }
}

// ---------------------------------------------------------------- C06
fn spell_key(r: &mut Rng, k: &KeyId, bare_dots: bool) -> String {
    let scal = |r: &mut Rng, t: &str, bare: bool| -> String {
        let bare_allowed = bare && mkdoc::bare_ok(t) && (bare_dots || !t.contains('.'));
        match r.below(3) {
            0 if bare_allowed => t.to_string(),
            1 => mkdoc::raw(r, t, false),
            _ if bare_allowed && r.pct(40) => t.to_string(),
            _ => mkdoc::quoted(r, t),
        }
    };
    match k {
        KeyId::Scalar(t) => scal(r, t, true),
        KeyId::Unit => "@".into(),
        KeyId::Tag(n, None) => format!("@{n}{}", if r.pct(20) { "@" } else { "" }),
        KeyId::Tag(n, Some(p)) => format!("@{n}{}", scal(r, p, false)),
    }
}
fn some_value(r: &mut Rng) -> (&'static str, bool) {
    let v = *r.pick(&["1", "x", "\"q q\"", "@", "", "(a b)", "{z 1}", "{}", "@t", "@t{z 1}", "z>1", "z>1 w>2", "r#\"raw\"#"]);
    (v, v.starts_with('{') || v.starts_with("z>"))
}
fn pool(r: &mut Rng) -> Vec<KeyId> {
    let s = |t: &str| KeyId::Scalar(t.into());
    let t = |n: &str, p: Option<&str>| KeyId::Tag(n.into(), p.map(|x| x.to_string()));
    let mut all = vec![
        s("a"), s("b"), s("c"), s("a b"), s(""), s("@"), s("@a"), s("A"), s("é"), s("e\u{301}"), s("{}"), s("()"), s("<error>"), s("a.b"), s("true"), s("1"), s("01"), s("\n"), s("\\n"),
        KeyId::Unit, t("a", None), t("a", Some("")), t("a", Some("x")), t("a", Some("y")), t("b", None), t("b", Some("x")), s("@a\"x\""), s("a@"), s("\"a\""),
    ];
    r.shuffle(&mut all);
    let n = r.range(2, 14);
    all.truncate(n);
    all
}
pub fn c06_keys(c: &mut Case) {
    // one object with keys from a small pool, at a chosen place
    let place = *c.r.pick(&["root", "explicit", "nested", "deep", "inseq", "tagged", "attrs"]);
    let keys = pool(&mut c.r);
    let n = c.r.range(1, 8);
    let far = c.r.pct(15);
    let mut body = String::new();
    let mut seen: Vec<KeyId> = vec![];
    let mut dup: Option<usize> = None; // offset in body of the first repeated key
    let inline = c.r.pct(30) && place != "root" && place != "explicit";
    let mut used = String::new();
    for i in 0..n {
        let k = if place == "attrs" { KeyId::Scalar((*c.r.pick(&["a", "b", "c", "a-b", "é"])).into()) } else { c.r.pick(&keys).clone() };
        let sp = if place == "attrs" { match &k { KeyId::Scalar(s) => s.clone(), _ => unreachable!() } } else { spell_key(&mut c.r, &k, false) };
        if seen.contains(&k) && dup.is_none() {
            dup = Some(body.len());
        }
        used.push_str(&format!("{k:?};"));
        seen.push(k);
        body.push_str(&sp);
        if place == "attrs" {
            body.push_str(*c.r.pick(&[">1 ", ">\"x\" ", ">(a b) ", ">{z 1} "]));
        } else {
            let (v, _) = some_value(&mut c.r);
            if !v.is_empty() {
                body.push(' ');
                body.push_str(v);
            }
            body.push_str(if inline { ", " } else { "\n" });
            if far && !inline && i + 1 < n {
                for j in 0..c.r.range(1, 60) {
                    body.push_str(&format!("filler_{i}_{j} {j}\n"));
                }
            }
        }
    }
    let (pre, post) = match place {
        "root" => ("", ""),
        "explicit" => ("{\n", "}\n"),
        "nested" => ("k {", "}\n"),
        "deep" => ("k {x {y {", "}}}\nw 1\n"),
        "inseq" => ("k (a {", "} b)\n"),
        "tagged" => ("k @t{", "}\n"),
        _ => ("k ", "\n"),
    };
    let src = format!("{pre}{body}{post}");
    // the reference must agree about everything except the duplicate
    c06_judge(c, &src, dup.map(|d| (d + pre.len()) as u32), "duplicate", place);
    let key = format!("{place}{used}");
    c.eval(if n > 1 { Some(&key) } else { None });
    c.sample(&src);
}
fn c06_judge(c: &mut Case, src: &str, fault: Option<u32>, kind: &str, place: &str) {
    let evs = match c.guard(|| real::events(src)) {
        Ok(e) => e,
        Err(m) => return c.fail("panic", m, src),
    };
    let errs: Vec<_> = evs
        .iter()
        .filter_map(|e| match &e.kind {
            EventKind::Error { kind } => Some((kind.clone(), e.span)),
            _ => None,
        })
        .collect();
    let is_path = |k: &ParseErrorKind| matches!(k, ParseErrorKind::DuplicateKey { .. } | ParseErrorKind::ReopenedPath { .. } | ParseErrorKind::NestIntoTerminal { .. });
    match fault {
        None => {
            c.count(&format!("distinct/{place}"));
            if let Some((k, s)) = errs.first() {
                c.fail(format!("false-{}", ename(k)), format!("no key is repeated, but {k:?} at {s:?}"), src);
            } else if let Err(m) = real::tree(src) {
                c.fail("false-tree", format!("no key is repeated, but the tree builder says {m}"), src);
            }
        }
        Some(at) => {
            c.count(&format!("{kind}/{place}"));
            match errs.iter().filter(|(k, _)| is_path(k)).min_by_key(|(_, s)| s.start) {
                None => c.fail(format!("missed-{kind}:{place}"), format!("the key at byte {at} is not allowed again, errors: {errs:?}"), src),
                Some((k, s)) => {
                    if s.start != at {
                        c.fail(format!("misplaced-{kind}"), format!("the repeated key is at byte {at}, the first error {k:?} at {}..{}", s.start, s.end), src);
                    }
                    if let ParseErrorKind::DuplicateKey { original } = k
                        && original.start >= at
                    {
                        c.fail("original-span", format!("the original of the key at {at} is given as {original:?}"), src);
                    }
                }
            }
            if c.guard(|| real::tree(src)).is_ok_and(|t| t.is_ok()) {
                c.fail("tree-accepted", "the tree builder accepts a repeated key", src);
            }
        }
    }
}
pub fn c06_paths(c: &mut Case) {
    let explicit = c.r.pct(25);
    let n = c.r.range(2, 12);
    let segs = ["a", "b", "c", "d"];
    let mut tree = PathTree::default();
    let mut src = String::from(if explicit { "{\n" } else { "" });
    let mut fault = None;
    let mut used = String::new();
    let mut prev: Vec<&str> = vec![];
    for _ in 0..n {
        // stay near the previous path so that long valid runs happen too
        let mut path: Vec<&str> = if c.r.pct(60) { prev[..c.r.below(prev.len() + 1)].to_vec() } else { vec![] };
        let want = c.r.range(1, 4);
        while path.len() < want {
            path.push(*c.r.pick(&segs));
        }
        if c.r.pct(20) {
            let uniq = ["e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"];
            *path.last_mut().unwrap() = uniq[c.r.below(12)];
        }
        let (v, block) = some_value(&mut c.r);
        let ids: Vec<KeyId> = path.iter().map(|s| KeyId::Scalar(s.to_string())).collect();
        let at = src.len() as u32;
        let key = if path.len() == 1 && c.r.pct(20) { spell_key(&mut c.r, &ids[0], false) } else { path.join(".") };
        match tree.add(&ids, block) {
            Ok(true) => {}
            Ok(false) => return, // nesting into a written object: not described
            Err(k) => fault = Some((at, k)),
        }
        used.push_str(&key);
        used.push(if block { '{' } else { ';' });
        src.push_str(&key);
        if !v.is_empty() {
            src.push(' ');
            src.push_str(v);
        }
        src.push('\n');
        if fault.is_some() {
            break;
        }
        prev = path;
    }
    if explicit {
        src.push_str("}\n");
    }
    let (f, k) = match fault {
        None => (None, ""),
        Some((a, k)) => (Some(a), k),
    };
    c06_judge(c, &src, f, k, if explicit { "explicit" } else { "root" });
    c.eval(Some(&used));
    c.sample(&src);
}
pub fn c06() -> Spec {
    Spec {
        prop: "C06",
        rule: "objects at seven places with keys drawn from a small pool in random notations and distances, and sequences of dotted paths judged by an independent path tree. Distinct by key sequence; non-trivial: at least two entries",
        streams: vec![
            Stream { name: "keys", f: c06_keys, quick: 800_000, thorough: 16_000_000 },
            Stream { name: "paths", f: c06_paths, quick: 800_000, thorough: 16_000_000 },
        ],
        must: &["duplicate/root", "duplicate/explicit", "duplicate/nested", "duplicate/attrs", "duplicate/inseq", "reopened/root", "reopened/explicit", "nest-into-terminal/root", "distinct/root", "distinct/nested"],
    }
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    ThirdAtom,
    Comma,
    Escape,
    TagName,
    Unclosed,
    Stray,
}
struct Site {
    at: usize,
    lo: u32,
}
/// Walk the values of one entry; collect sites of each kind. `lo` is the start of the smallest
/// bracket pair or (written) entry around the site.
fn sites(e: &Ent, src: &str, attr: bool, lo: u32, out: &mut Vec<(Fault, Site)>) {
    let lo = if attr { lo } else { e.key.sp.0 };
    if !attr && !e.val.implied.0 && !mkdoc::ends_with_heredoc(&e.val) {
        out.push((Fault::ThirdAtom, Site { at: e.val.sp.1 as usize, lo }));
    }
    val_sites(&e.val, src, lo, out);
}
fn val_sites(v: &Val, src: &str, lo: u32, out: &mut Vec<(Fault, Site)>) {
    if v.implied.0 && !matches!(v.pay, Pay::Obj(_)) {
        return;
    }
    let end = v.sp.1 as usize;
    match &v.pay {
        Pay::Unit => {
            if !v.tags.is_empty() && src[..end].ends_with(v.tags.last().unwrap().as_str()) {
                out.push((Fault::TagName, Site { at: end, lo }));
            }
        }
        Pay::Scalar(s) => {
            if s.kind == Kind::Quoted {
                out.push((Fault::Escape, Site { at: end - 1, lo }));
            }
        }
        Pay::Seq(x) => {
            let open = src[v.sp.0 as usize..].find('(').map(|i| v.sp.0 + i as u32).unwrap_or(lo);
            for y in x {
                if !mkdoc::ends_with_heredoc(y) {
                    out.push((Fault::Comma, Site { at: y.sp.1 as usize, lo: open }));
                }
                val_sites(y, src, open, out);
            }
            out.push((Fault::Unclosed, Site { at: end - 1, lo: 0 }));
        }
        Pay::Obj(es) => {
            let written = src[..end].ends_with('}') && src[v.sp.0 as usize..].trim_start_matches(|c: char| c == '@' || c.is_alphanumeric() || c == '_' || c == '-' || c == '/').starts_with('{');
            if written && !v.implied.0 {
                out.push((Fault::Unclosed, Site { at: end - 1, lo: 0 }));
            }
            for e in es {
                sites(e, src, !written && !v.implied.0, lo, out);
            }
        }
    }
}
pub fn c07_fault(c: &mut Case) {
    let mut p = profile(c);
    p.budget = p.budget.min(60);
    p.dotted = c.r.pct(30);
    p.chains = false;
    let (_, src) = document(&mut c.r, &p);
    let Verdict::Ok(d) = refp::read(&src) else { return };
    if d.ents.is_empty() {
        return;
    }
    let ti = c.r.below(d.ents.len());
    let top = &d.ents[ti];
    let mut all = vec![];
    sites(top, &src, false, top.key.sp.0, &mut all);
    all.push((Fault::Stray, Site { at: top.key.sp.0 as usize, lo: top.key.sp.0 }));
    let kinds = [Fault::ThirdAtom, Fault::Comma, Fault::Escape, Fault::TagName, Fault::Unclosed, Fault::Stray];
    let want = *c.r.pick(&kinds);
    let of_kind: Vec<&(Fault, Site)> = all.iter().filter(|x| x.0 == want).collect();
    let i = c.r.below(if of_kind.is_empty() { all.len() } else { of_kind.len() });
    let (f, site) = if of_kind.is_empty() { &all[i] } else { of_kind[i] };
    let (f, at, lo) = (*f, site.at, site.lo);
    let (ins, del): (&str, usize) = match f {
        Fault::ThirdAtom => (*c.r.pick(&[" zz9", " \"zz9\"", " zz9 zz8", " ()", " zz9 {a b}"]), 0),
        Fault::Comma => (*c.r.pick(&[",", " ,", " , "]), 0),
        Fault::Escape => (*c.r.pick(&["\\q", "\\u12", "\\ud800", "\\u{110000}", "\\u{}", "\\x41"]), 0),
        Fault::TagName => (*c.r.pick(&[".x", "/x", "=", ":y"]), 0),
        Fault::Unclosed => ("", 1),
        Fault::Stray => (*c.r.pick(&[") ", "( ", ">", "= ", "\"\\q\" "]), 0),
    };
    let m = format!("{}{}{}", &src[..at], ins, &src[at + del..]);
    let Verdict::Err { kind, .. } = refp::read(&m) else {
        c.count("not-a-fault");
        return;
    };
    c.count(&format!("{f:?}"));
    c.count(&format!("class:{kind}"));
    let Ok((a, b)) = c.guard(|| (real::events(&src), real::events(&m))) else {
        return c.fail("panic", "panic while parsing", &m);
    };
    let errs: Vec<&Event> = b.iter().filter(|e| matches!(e.kind, EventKind::Error { .. })).collect();
    if errs.is_empty() {
        return c.fail(format!("missed:{f:?}"), format!("fault {f:?} at byte {at} is not reported"), &m);
    }
    let lo = if f == Fault::Unclosed { top.key.sp.0.min(if d.explicit { 0 } else { u32::MAX }) } else { lo };
    // a doc comment of the entry may be blamed too
    let local = matches!(f, Fault::ThirdAtom | Fault::Comma | Fault::Escape | Fault::TagName);
    // end of the affected text: the entry with what was inserted, for faults that cannot swallow what follows
    let hi = if local && !ins.contains(['(', '{', '"']) { top.val.sp.1.max(top.key.sp.1) + ins.len() as u32 } else { m.len() as u32 };
    if !errs.iter().any(|e| e.span.start >= lo && e.span.start <= hi && e.span.end as usize <= m.len()) {
        c.fail(
            format!("misplaced:{f:?}"),
            format!("fault {f:?} at byte {at} ({ins:?}), the entry or brackets around it start at {lo}, affected text ends at {hi}; errors at {:?}", errs.iter().map(|e| (e.span.start, e.span.end)).collect::<Vec<_>>()),
            &m,
        );
    }
    if f == Fault::Escape && !errs.iter().any(|e| (e.span.start as usize) < at + ins.len() && e.span.end as usize > at) {
        c.fail("escape-span", format!("bad escape at {at}, errors at {:?}", errs.iter().map(|e| (e.span.start, e.span.end)).collect::<Vec<_>>()), &m);
    }
    // what comes before the faulty entry is unaffected
    let cut = a.iter().position(|e| matches!(e.kind, EventKind::EntryStart) && e.span.start >= top.key.sp.0).unwrap_or(0);
    let starts = |e: &&Event| e.span.start < top.key.sp.0 || matches!(e.kind, EventKind::DocumentStart);
    let pre_a: Vec<&Event> = a[..cut].iter().filter(starts).filter(|e| !matches!(e.kind, EventKind::Comment { .. } | EventKind::ObjectStart)).collect();
    let pre_b: Vec<&Event> = b.iter().filter(starts).filter(|e| !matches!(e.kind, EventKind::Comment { .. } | EventKind::ObjectStart | EventKind::Error { .. } | EventKind::DocumentEnd)).take(pre_a.len()).collect();
    if pre_a != pre_b {
        let i = (0..pre_a.len()).find(|i| pre_b.get(*i) != Some(&pre_a[*i])).unwrap_or(0);
        c.fail("prefix", format!("fault at byte {at} in the entry at {}: event {i} before it was {:?}, now {:?}", top.key.sp.0, pre_a.get(i), pre_b.get(i)), &m);
    }
    agree(c, &m, true);
    c.eval(Some(&m));
    c.sample(&m);
}
#[cfg(feature = "typed")]
use super::types as untyped;
#[cfg(not(feature = "typed"))]
mod untyped {
    pub fn facet_untyped(s: &str) -> Result<(), ()> {
        styx_tree::parse(s).map(|_| ()).map_err(|_| ())
    }
    pub use facet_untyped as serde_untyped;
}
/// Event parser, tree builder and both deserializers agree on whether a text is in error.
pub fn agree(c: &mut Case, s: &str, bad: bool) {
    let r = c.guard(|| {
        (
            styx_tree::parse(s).is_err(),
            untyped::facet_untyped(s).is_err(),
            untyped::serde_untyped(s).is_err(),
        )
    });
    match r {
        Err(m) => c.fail("panic:deserialize", m, s),
        Ok((t, f, d)) => {
            for (api, e) in [("tree", t), ("facet", f), ("serde", d)] {
                // a typed reader may refuse a valid document that does not fit its type
                if e != bad && (bad || api == "tree") {
                    c.fail(format!("{api}-{}", if bad { "accepts" } else { "rejects" }), format!("event parser in error: {bad}, {api} in error: {e}"), s);
                }
            }
        }
    }
}
pub fn c07_agree(c: &mut Case) {
    let (what, s) = any_text(c);
    c.count(what);
    let Ok(evs) = c.guard(|| real::events(&s)) else { return };
    let bad = evs.iter().any(|e| matches!(e.kind, EventKind::Error { .. }));
    c.count(if bad { "in-error" } else { "clean" });
    agree(c, &s, bad);
    c.eval(if s.len() > 2 { Some(&s) } else { None });
}
pub fn c07() -> Spec {
    Spec {
        prop: "C07",
        rule: "a valid document with one injected fault of a known kind and place (confirmed by the reference): some error must lie in the faulty region and the events before it must not change; and texts of every kind on which all readers must agree. Distinct by text",
        streams: vec![
            Stream { name: "fault", f: c07_fault, quick: 180_000, thorough: 3_600_000 },
            Stream { name: "agree", f: c07_agree, quick: 120_000, thorough: 2_400_000 },
        ],
        must: &["ThirdAtom", "Comma", "Escape", "TagName", "Unclosed", "Stray", "in-error", "clean"],
    }
}

// ---------------------------------------------------------------- C08
pub fn c08_spans(c: &mut Case) {
    let mut p = profile(c);
    p.dotted = false;
    p.chains = false;
    let (_, src) = document(&mut c.r, &p);
    if !matches!(refp::read(&src), Verdict::Ok(_)) {
        return;
    }
    let t = match c.guard(|| real::tree(&src)) {
        Ok(Ok(t)) => t,
        _ => return, // C04's business
    };
    let mut n = 0;
    if let Err((sig, m)) = span_walk(&src, &t, (0, src.len() as u32), &mut n) {
        c.fail(sig, m, &src);
    }
    c.add("spans", n);
    let mut sh = String::new();
    Val::new(vec![], Pay::Obj(t)).shape(&mut sh);
    c.eval(if n > 2 { Some(&sh) } else { None });
    c.sample(&src);
}
fn implied(e: &Ent) -> bool {
    e.val.pay == Pay::Unit && e.val.tags.is_empty() && e.val.sp.0 == e.key.sp.0 && e.val.sp.1 == e.key.sp.1
}
fn span_walk(src: &str, es: &[Ent], within: (u32, u32), n: &mut usize) -> Result<(), (String, String)> {
    let mut at = within.0;
    for e in es {
        for (what, s) in [("key", e.key.sp), ("value", e.val.sp)] {
            if what == "value" && implied(e) {
                continue;
            }
            *n += 1;
            if s.0 > s.1 || src.get(s.0 as usize..s.1 as usize).is_none() {
                return Err(("bounds".into(), format!("{what} span {s:?} is not a range of the text ({e:?})")));
            }
            if s.0 < at || s.1 > within.1 {
                return Err(("nesting".into(), format!("{what} span {}..{} of {:?} should be after {at} and inside {within:?}", s.0, s.1, e.key)));
            }
            at = s.1;
        }
        let k = &src[e.key.sp.0 as usize..e.key.sp.1 as usize];
        reparse(&format!("{k} x"), &e.key, None)?;
        if !implied(e) {
            val_walk(src, &e.val, n)?;
        }
    }
    Ok(())
}
fn val_walk(src: &str, v: &Val, n: &mut usize) -> Result<(), (String, String)> {
    let sl = &src[v.sp.0 as usize..v.sp.1 as usize];
    match styx_tree::parse(&format!("k {sl}\n")).map(|t| real::from_value(&t)).map_err(|e| e.to_string()) {
        Ok(Val { pay: Pay::Obj(es), .. }) if es.len() == 1 && es[0].val == *v => {}
        other => return Err(("reparse".into(), format!("the text {sl:?} at {}..{} stands for {v:?} but on its own reads {other:?}", v.sp.0, v.sp.1))),
    }
    match &v.pay {
        Pay::Seq(x) => {
            let mut at = v.sp.0;
            for y in x {
                *n += 1;
                if y.sp.0 < at || y.sp.1 > v.sp.1 || y.sp.0 > y.sp.1 {
                    return Err(("nesting".into(), format!("element span {}..{} should be after {at} and inside {}..{}", y.sp.0, y.sp.1, v.sp.0, v.sp.1)));
                }
                at = y.sp.1;
                val_walk(src, y, n)?;
            }
            Ok(())
        }
        Pay::Obj(es) => span_walk(src, es, (v.sp.0, v.sp.1), n),
        _ => Ok(()),
    }
}
fn reparse(text: &str, k: &Key, _: Option<()>) -> Result<(), (String, String)> {
    match styx_tree::parse(text).map(|t| real::from_value(&t)).map_err(|e| e.to_string()) {
        Ok(Val { pay: Pay::Obj(es), .. }) if es.len() == 1 && es[0].key == *k => Ok(()),
        other => Err(("reparse-key".into(), format!("{text:?} should give the key {k:?}, gives {other:?}"))),
    }
}
pub fn c08() -> Spec {
    Spec {
        prop: "C08",
        rule: "valid documents; every key and value span of the tree is checked for bounds, nesting and order, and its source text is parsed again and compared. Distinct by tree shape; non-trivial: more than two spans",
        streams: vec![Stream { name: "spans", f: c08_spans, quick: 200_000, thorough: 4_000_000 }],
        must: &["spans"],
    }
}
#[allow(unused)]
fn unused(r: &mut Rng, p: Profile) {
    Gen::new(r, p);
}
