//! C38: rendered error reports name and show the place of the fault.
use super::schema::{mk_env, mutate as spoil, spell};
use super::types::*;
use crate::mkdoc::document;
use crate::model::*;
use crate::mutate;
use crate::real;
use crate::run::*;
use facet_styx::RenderError;

/// Without terminal colours.
fn bare_text(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        if ch == '\u{1b}' && it.peek() == Some(&'[') {
            for x in it.by_ref() {
                if x.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(ch);
        }
    }
    out
}
fn solid(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && !c.is_control()).collect()
}
/// The lines of a text, by the line ends an editor counts, with where each begins.
fn lines(src: &str) -> Vec<(usize, &str)> {
    let b = src.as_bytes();
    let (mut out, mut from, mut i) = (vec![], 0, 0);
    while i < b.len() {
        let n = match b[i] {
            b'\n' => 1,
            b'\r' if b.get(i + 1) == Some(&b'\n') => 2,
            b'\r' => 1,
            _ => {
                i += 1;
                continue;
            }
        };
        out.push((from, &src[from..i]));
        i += n;
        from = i;
    }
    out.push((from, &src[from..]));
    out
}
/// The first words of a report.
fn heading(report: &str) -> String {
    solid(bare_text(report).split("╭─[").next().unwrap_or(""))
}
/// What the report has to mention.
fn mentions(c: &mut Case, what: &str, report: &str, words: &[&str], src: &str) {
    let text = solid(&bare_text(report));
    for w in words {
        if w.contains('\u{1b}') || text.contains(&solid(w)) {
            c.count("words found");
        } else {
            c.fail(format!("{what}:words"), format!("{w:?} is not mentioned\n{report}"), src);
        }
    }
}
const NAMES: &[&str] = &["x.styx", "dir/with space/é.styx", "<stdin>", "a:b]"];

/// Judge one report about bytes a..z of the text.
fn judge(c: &mut Case, what: &str, report: &str, name: &str, src: &str, a: usize, z: usize, one_label: bool) {
    if a > src.len() || z > src.len() || a > z || !src.is_char_boundary(a) || !src.is_char_boundary(z) {
        return c.fail(format!("{what}:span"), format!("bytes {a}..{z} are no place in the text"), src);
    }
    // the renderer has line ends of its own there
    if src.contains(['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}']) {
        return c.count("line ends of the renderer");
    }
    if report.contains("\u{1b}[") {
        c.fail(format!("{what}:color"), format!("NO_COLOR is set and the report has colours: {report:?}"), src);
    }
    let text = bare_text(report);
    let ls = lines(src);
    // behind a final line end, the last line or an empty one after it
    let li = ls.iter().rposition(|l| l.0 <= a).unwrap();
    let col = src[ls[li].0..a].chars().count();
    let here = format!("{name}:{}:{}", li + 1, col + 1);
    let head = text.lines().find(|l| l.contains("╭─[")).unwrap_or("");
    let mut ok = head.contains(&format!("[ {here} ]"));
    let mut shown = li;
    if !ok && a == src.len() && a > 0 && ls[li].1.is_empty() && li > 0 {
        let (from, _) = ls[li - 1];
        ok = head.contains(&format!("[ {name}:{}:{} ]", li, src[from..].chars().count() + 1));
        shown = li - 1;
        c.count("at the end of the text");
    }
    // a position in a line end belongs to either line
    if !ok {
        return c.fail(format!("{what}:place"), format!("the fault is at {here} (bytes {a}..{z}), the report says {head:?}\n{text}"), src);
    }
    c.count("places compared");
    let l = ls[shown].1;
    if !l.is_ascii() || !src[..a].is_ascii() {
        c.count("places behind wide text");
    }
    if l.trim().is_empty() {
        return;
    }
    let number = format!("{} │ ", shown + 1);
    let rows: Vec<&str> = text.lines().collect();
    let Some(i) = rows.iter().position(|r| r.trim_start().starts_with(&number) && solid(r).ends_with(&solid(l))) else {
        return c.fail(format!("{what}:line"), format!("line {} ({l:?}) is not shown\n{text}", shown + 1), src);
    };
    c.count("lines shown");
    let inline = a < z && src[a..z].lines().count() == 1 && !src[a..z].contains(['\n', '\r']);
    if !one_label || !inline || !l.bytes().all(|b| (32..127).contains(&b)) {
        return;
    }
    let at = rows[i].chars().position(|x| x == '│').unwrap() + 2;
    let under: Vec<char> = rows.get(i + 1).unwrap_or(&"").chars().collect();
    let first = (at..under.len()).find(|j| under[*j] != ' ').unwrap_or(0);
    let run = (first..under.len()).take_while(|j| matches!(under[*j], '─' | '┬')).count();
    if first != at + col || run != z - a {
        c.fail(format!("{what}:mark"), format!("{:?} (column {col}) is marked from column {} over {run}\n{text}", &src[a..z], first as isize - at as isize), src);
    }
    c.count("marks compared");
}
/// A report about two places shows the line of the first, too.
fn first_place(c: &mut Case, report: &str, src: &str, a: usize) {
    if src.contains(['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}']) {
        return;
    }
    let ls = lines(src);
    let li = ls.iter().rposition(|l| l.0 <= a).unwrap();
    let number = format!("{} │ ", li + 1);
    let text = bare_text(report);
    if !text.lines().any(|r| r.trim_start().starts_with(&number) && solid(r).ends_with(&solid(ls[li].1))) || !text.contains("first defined here") {
        return c.fail("syntax:first", format!("line {} with the first key is not shown\n{text}", li + 1), src);
    }
    c.count("first places shown");
}
fn wide(c: &mut Case, src: String) -> String {
    // something wide before the fault
    match c.r.below(5) {
        0 => format!("// é 日本 😀\n{src}"),
        1 => format!("'日本' \"é😀\"\n{src}"),
        2 => format!("/// ключ\nwide \"😀😀😀😀😀😀\"\r\n{src}"),
        _ => src,
    }
}
fn syntax(c: &mut Case) {
    let p = super::parse::profile(c);
    let (_, src) = document(&mut c.r, &p);
    let src = if c.r.pct(15) {
        mutate::soup(&mut c.r)
    } else {
        let (_, other) = document(&mut c.r, &p);
        mutate::mutate(&mut c.r, &src, &other)
    };
    let src = wide(c, src);
    let name = *c.r.pick(NAMES);
    let Ok(evs) = c.guard(|| real::events(&src)) else { return };
    for e in evs.iter().take(400) {
        let styx_parse::EventKind::Error { kind } = &e.kind else { continue };
        let err = styx_tree::ParseError::new(kind.clone(), e.span);
        let one = !matches!(kind, styx_parse::ParseErrorKind::DuplicateKey { .. });
        match c.guard(|| err.render(name, &src)) {
            Err(m) => c.fail("syntax:panic", m, &src),
            Ok(t) => {
                judge(c, "syntax", &t, name, &src, e.span.start as usize, e.span.end as usize, one);
                let said = err.to_string();
                let (msg, at) = said.rsplit_once(" at offset ").unwrap_or((&said, ""));
                if at != e.span.start.to_string() {
                    c.fail("syntax:offset", format!("{said:?} for {:?}", e.span), &src);
                }
                if !msg.contains('\u{1b}') && heading(&t) != solid(&format!("Error: {msg}")) {
                    c.fail("syntax:message", format!("{said:?} is rendered as\n{t}"), &src);
                }
                if let styx_parse::ParseErrorKind::DuplicateKey { original } = kind {
                    first_place(c, &t, &src, original.start as usize);
                }
            }
        }
        c.eval(Some(&format!("{kind:?} {src}")));
        c.count(&format!("syntax:{}", super::parse::ename(kind)));
    }
    // what the tree builder refuses, it can show
    if let Ok(Err(e)) = c.guard(|| styx_tree::parse(&src)) {
        let Some(err) = e.as_parse_error() else { return };
        match c.guard(|| err.render(name, &src)) {
            Err(m) => c.fail("build:panic", m, &src),
            Ok(t) => judge(c, "build", &t, name, &src, err.span.start as usize, err.span.end as usize, false),
        }
    }
}
fn words(k: &facet_styx::ValidationErrorKind) -> Vec<String> {
    use facet_styx::ValidationErrorKind::*;
    match k {
        MissingField { field } => vec![field.clone()],
        UnknownField { field, valid_fields, suggestion } => [field.clone()].into_iter().chain(valid_fields.iter().cloned()).chain(suggestion.clone()).collect(),
        TypeMismatch { expected, got } => vec![expected.clone(), got.clone()],
        InvalidValue { reason } | SchemaError { reason } => vec![reason.clone()],
        UnknownType { name } => vec![name.clone()],
        InvalidVariant { expected, got } => expected.iter().cloned().chain([format!("@{got}")]).collect(),
        UnionMismatch { tried } => tried.clone(),
        WrongTag { expected, got } => vec![format!("@{expected}"), format!("@{got}")],
        ExpectedObject | ExpectedSequence | ExpectedScalar | ExpectedTagged => vec![],
    }
}
fn validation(c: &mut Case) {
    let env = mk_env(&mut c.r);
    let Some((stext, sf)) = super::schemacheck::schema(c, &env) else { return };
    for _ in 0..4 {
        let d = c.r.range(1, 5);
        let mut bad = env.value(&mut c.r, &env.root, d);
        for _ in 0..c.r.range(1, 3) {
            spoil(&mut bad, &mut c.r);
        }
        if !matches!(bad.pay, Pay::Obj(_)) || !bad.tags.is_empty() {
            continue;
        }
        let Some((text, _)) = spell(c, &bad, true) else { continue };
        let text = if text.trim_start().starts_with('{') { text } else { wide(c, text) };
        let Ok(tree) = styx_tree::parse(&text) else { continue };
        let Ok(r) = c.guard(|| facet_styx::validate(&tree, &sf)) else { continue };
        let both = format!("=== schema\n{stext}\n=== document\n{text}");
        let name = *c.r.pick(NAMES);
        for e in &r.errors {
            match c.guard(|| e.render(name, &text)) {
                Err(m) => c.fail("validation:panic", format!("{m} {e:?}"), &both),
                Ok(t) => match e.span {
                    None => c.count("validation: no span"),
                    Some(s) => {
                        judge(c, "validation", &t, name, &text, s.start as usize, s.end as usize, true);
                        let words = words(&e.kind);
                        mentions(c, "validation", &t, &words.iter().map(|w| w.as_str()).collect::<Vec<_>>(), &both);
                    }
                },
            }
            c.eval(Some(&format!("{e:?} {text}")));
            c.count("validation errors");
        }
        // all of them in one report
        match c.guard(|| r.render(name, &text)) {
            Err(m) => c.fail("validation:panic", m, &both),
            Ok(t) => {
                let n = bare_text(&t).matches("╭─[").count();
                if n != r.errors.len() + r.warnings.len() && !text.contains("╭─[") {
                    c.fail("validation:count", format!("{} errors, {} warnings, {n} reports", r.errors.len(), r.warnings.len()), &both);
                }
            }
        }
    }
}
fn typed_one<T: Sample + facet::Facet<'static> + serde::Serialize>(c: &mut Case) {
    let v: T = super::read::value(c);
    let Some(text) = super::read::spell(c, crate::toval::to_val(&v), false) else { return };
    let (text, other) = (wide(c, text.clone()), text);
    let bad = if c.r.pct(20) {
        let p = super::parse::profile(c);
        document(&mut c.r, &p).1
    } else {
        mutate::mutate(&mut c.r, &text, &other)
    };
    let name = *c.r.pick(NAMES);
    let Ok(Err(e)) = c.guard(|| facet_styx::from_str::<T>(&bad)) else { return };
    let kind = format!("{:?}", e.kind).split([' ', '{', '(']).next().unwrap_or("").to_string();
    match c.guard(|| e.render(name, &bad)) {
        Err(m) => c.fail("typed:panic", format!("{m} {e:?}"), &bad),
        Ok(t) => match &e.span {
            // these are about the text as a whole
            _ if matches!(kind.as_str(), "UnexpectedEof" | "Unsupported" | "CannotBorrow") => c.count("typed: whole text"),
            None => c.count("typed: no span"),
            Some(s) => {
                if kind == "MissingField" || kind == "UnknownField" {
                    let said = format!("{:?}", e.kind);
                    if let Some(field) = said.split('"').nth(1) {
                        mentions(c, "typed", &t, &[field], &bad);
                    }
                }
                judge(c, "typed", &t, name, &bad, s.offset as usize, s.offset as usize + s.len as usize, true)
            }
        },
    }
    c.count(&format!("typed:{kind}"));
    c.eval(Some(&format!("{kind} {bad}")));
}
fn typed(c: &mut Case) {
    match c.r.below(8) {
        0 => typed_one::<Ints>(c),
        1 => typed_one::<Texts>(c),
        2 => typed_one::<Lists>(c),
        3 => typed_one::<Maps>(c),
        4 => typed_one::<Deep>(c),
        5 => typed_one::<Enums>(c),
        6 => typed_one::<Config>(c),
        _ => typed_one::<Optional>(c),
    }
}
pub fn c38() -> Spec {
    Spec {
        prop: "C38",
        rule: "an evaluation is one error (of syntax, of schema validation, of typed reading) rendered as a report; distinct by error and text",
        streams: vec![
            Stream { name: "syntax", f: syntax, quick: 60_000, thorough: 2_000_000 },
            Stream { name: "validation", f: validation, quick: 6_000, thorough: 200_000 },
            Stream { name: "typed", f: typed, quick: 60_000, thorough: 2_000_000 },
        ],
        must: &["places compared", "places behind wide text", "lines shown", "marks compared", "words found", "first places shown", "validation errors", "syntax:DuplicateKey", "syntax:UnexpectedToken", "syntax:InvalidEscape"],
    }
}
