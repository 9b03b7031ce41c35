//! C09, C10, C11: the source formatter.
use super::front::{any_text, options};
use super::parse::profile;
use crate::mkdoc::document;
use crate::model::*;
use crate::mutate;
use crate::real;
use crate::refp::{self, Verdict};
use crate::run::*;
use styx_format::format_source;
use styx_parse::{EventKind, ParseErrorKind};
use styx_tokenizer::{TokenKind, Tokenizer};

/// A document on which the reference and the event parser agree that it is valid.
fn valid(c: &mut Case) -> Option<(String, Vec<Ent>)> {
    let mut p = profile(c);
    let (_, src) = document(&mut c.r, &p);
    if !matches!(refp::read(&src), Verdict::Ok(_)) {
        return None;
    }
    let evs = c.guard(|| real::events(&src)).ok()?;
    let t = real::from_events(&evs).ok()?;
    if !t.errors.is_empty() {
        return None;
    }
    Some((src.clone(), t.ents))
}
pub fn c09_meaning(c: &mut Case) {
    let Some((src, ents)) = valid(c) else { return };
    let o = options(&mut c.r);
    let out = match c.guard(|| format_source(&src, o)) {
        Ok(o) => o,
        Err(m) => return c.fail("panic", m, &src),
    };
    let got = match c.guard(|| {
        let e = real::events(&out);
        real::from_events(&e)
    }) {
        Ok(Ok(g)) => g,
        Ok(Err(m)) | Err(m) => return c.fail("malformed", m, &src),
    };
    if let Some(e) = got.errors.first() {
        c.fail("output-invalid", format!("formatted text is not valid: {:?} at {:?}\n{out}", e.kind, e.sp), &src);
    } else if let Some(d) = diff(&forget_kinds(&ents), &forget_kinds(&got.ents)) {
        c.fail("meaning", format!("{d}\n{out}"), &src);
    }
    if out != src {
        c.count("changed");
    }
    c.count("formatted");
    let mut sh = String::new();
    Val::new(vec![], Pay::Obj(ents)).shape(&mut sh);
    c.eval(if sh.len() > 3 { Some(&sh) } else { None });
    c.sample(&src);
}
/// Comments and doc comments, with what stands between them.
fn skeleton(s: &str) -> (Vec<String>, usize) {
    let mut t = Tokenizer::new(s);
    let mut v = vec![];
    let mut n = 0;
    loop {
        let k = t.next_token();
        let x = match k.kind {
            TokenKind::Eof => return (v, n),
            TokenKind::LineComment | TokenKind::DocComment => {
                n += 1;
                k.text.trim_end().to_string()
            }
            TokenKind::Whitespace | TokenKind::Newline | TokenKind::Comma => continue,
            k => format!("<{k:?}>"),
        };
        v.push(x);
    }
}
pub fn c10_comments(c: &mut Case) {
    let Some((src, _)) = valid(c) else { return };
    let (before, n) = skeleton(&src);
    if n == 0 {
        return;
    }
    let o = options(&mut c.r);
    let out = match c.guard(|| format_source(&src, o)) {
        Ok(o) => o,
        Err(m) => return c.fail("panic", m, &src),
    };
    let (after, k) = skeleton(&out);
    if n != k {
        c.fail("lost", format!("{n} comments before, {k} after:\n{out}"), &src);
    } else if before != after {
        let i = (0..before.len()).find(|i| after.get(*i) != Some(&before[*i])).unwrap_or(0);
        c.fail("moved", format!("token {i} was {:?}, is now {:?}\n{out}", before.get(i), after.get(i)), &src);
    }
    c.add("comments", n);
    c.eval(Some(&src));
    c.sample(&src);
}
pub fn c11_again(c: &mut Case) {
    let Some((src, ents)) = valid(c) else { return };
    let o = options(&mut c.r);
    let (a, b) = match c.guard(|| {
        let a = format_source(&src, o.clone());
        let b = format_source(&a, o.clone());
        (a, b)
    }) {
        Ok(x) => x,
        Err(m) => return c.fail("panic", m, &src),
    };
    if a != b {
        c.fail("not-idempotent", format!("first:\n{a}\nsecond:\n{b}"), &src);
    }
    c.count("formatted-twice");
    let mut sh = String::new();
    Val::new(vec![], Pay::Obj(ents)).shape(&mut sh);
    c.eval(if sh.len() > 3 { Some(&sh) } else { None });
    c.sample(&src);
}
pub fn c11_invalid(c: &mut Case) {
    let src = if c.r.pct(60) {
        let mut p = profile(c);
        p.budget = p.budget.min(30);
        let a = document(&mut c.r, &p).1;
        let b = document(&mut c.r, &p).1;
        mutate::mutate(&mut c.r, &a, &b)
    } else {
        any_text(c).1
    };
    let Verdict::Err { kind, .. } = refp::read(&src) else { return };
    let Ok(evs) = c.guard(|| real::events(&src)) else { return };
    // repeated keys are not syntax errors; extra atoms: recorded finding
    if !evs.iter().any(|e| match &e.kind {
        EventKind::Error { kind } => !matches!(kind, ParseErrorKind::DuplicateKey { .. } | ParseErrorKind::ReopenedPath { .. } | ParseErrorKind::NestIntoTerminal { .. } | ParseErrorKind::TooManyAtoms),
        _ => false,
    }) {
        return;
    }
    let o = options(&mut c.r);
    match c.guard(|| format_source(&src, o)) {
        Err(m) => c.fail("panic", m, &src),
        Ok(f) if f != src => c.fail(format!("changed-invalid:{kind}"), format!("a document with an error was rewritten to:\n{f}"), &src),
        Ok(_) => {}
    }
    c.count(&format!("invalid:{kind}"));
    c.eval(Some(&src));
}
pub fn c09() -> Spec {
    Spec {
        prop: "C09",
        rule: "valid documents in random notations, layouts and comments x random option sets; the formatted text is parsed and its entries compared with the source's. Distinct by tree shape; non-trivial: at least one entry",
        streams: vec![Stream { name: "meaning", f: c09_meaning, quick: 240_000, thorough: 4_800_000 }],
        must: &["formatted", "changed"],
    }
}
pub fn c10() -> Spec {
    Spec {
        prop: "C10",
        rule: "valid documents with comments x option sets; comments and what stands between them are compared before and after formatting. Distinct by document; non-trivial: at least one comment",
        streams: vec![Stream { name: "comments", f: c10_comments, quick: 240_000, thorough: 4_800_000 }],
        must: &["comments"],
    }
}
pub fn c11() -> Spec {
    Spec {
        prop: "C11",
        rule: "valid documents formatted twice with the same options; invalid documents (by reference and parser) formatted once. Distinct by tree shape or text",
        streams: vec![
            Stream { name: "again", f: c11_again, quick: 180_000, thorough: 3_600_000 },
            Stream { name: "invalid", f: c11_invalid, quick: 180_000, thorough: 3_600_000 },
        ],
        must: &["formatted-twice", "invalid:unexpected-token", "invalid:invalid-escape", "invalid:invalid-key", "invalid:comma-in-sequence", "invalid:unclosed-object"],
    }
}
