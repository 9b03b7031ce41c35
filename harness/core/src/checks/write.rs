//! C12: writing values.
use super::front::options;
use super::parse::profile;
use crate::mkdoc::document;
use crate::model::*;
use crate::real;
use crate::run::*;
use styx_tree as t;

/// Values that can be written at all: root keys that are plain, one tag per value.
pub fn writable(c: &mut Case) -> Vec<Ent> {
    let mut p = profile(c);
    p.chains = false;
    p.dotted = false;
    p.comments = 0;
    let (es, _) = document(&mut c.r, &p);
    collapse_chains(&es)
}
pub fn judge(c: &mut Case, what: &str, es: &[Ent], out: &str) {
    let got = match c.guard(|| real::tree(out)) {
        Err(m) => return c.fail(format!("{what}:panic"), m, out),
        Ok(Err(m)) => return c.fail(format!("{what}:invalid"), format!("the text written is not valid: {m}\n{out}\nvalue: {es:?}"), out),
        Ok(Ok(g)) => g,
    };
    // The writer spells a tagged scalar as a tagged sequence of one (recorded finding
    // "tagged-scalar"): the two are not told apart here.
    let (es, got) = (scalars_in_seq(es), scalars_in_seq(&got));
    if let Some(d) = diff(&forget_kinds(&es), &forget_kinds(&got)) {
        c.fail(format!("{what}:differs"), format!("{d}\n{out}"), out);
    }
}
pub fn scalars_in_seq(es: &[Ent]) -> Vec<Ent> {
    fn val(v: &Val) -> Val {
        let p = match &v.pay {
            Pay::Seq(x) => Pay::Seq(x.iter().map(val).collect()),
            Pay::Obj(e) => Pay::Obj(scalars_in_seq(e)),
            Pay::Scalar(..) if !v.tags.is_empty() => Pay::Seq(vec![Val::new(vec![], v.pay.clone())]),
            p => p.clone(),
        };
        Val::new(v.tags.clone(), p)
    }
    es.iter().map(|e| Ent { key: e.key.clone(), val: val(&e.val), doc: e.doc.clone() }).collect()
}
/// A text aimed at the choices a writer makes: notation, delimiter, hash count, line endings.
pub fn hostile(r: &mut crate::rng::Rng) -> String {
    const BITS: &[&str] = &[
        "\n", "\n", "\n\n", "\r\n", "\r", "TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT", "\"", "\"#", "\"##",
        "#", "\\", "\\n", "\t", " ", "  ", "a", "b c", "r", "r#", "//", "///", "<<", "<<A", "{", "}", "(", ")", ",", "=",
        "@", "@a", ">", ".", "\u{0}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "é", "日本", "😀", "\u{10ffff}", "\u{ffff}\u{f0001}", "\u{7ff}\u{800}", "true", "1", "-", "/",
        "\\u{41}", "\u{1b}", "_", "'", "`", "|", "*", "&", ":", ";", "$",
    ];
    let mut s = String::new();
    for _ in 0..r.range(0, 8) {
        s.push_str(r.pick(BITS));
    }
    if r.pct(25) {
        s.push('\n');
    }
    if r.pct(3) {
        s = s.repeat(r.range(2, 40));
    }
    s
}
fn harden(c: &mut Case, es: &mut [Ent], level: usize) {
    const TAGS: &[&str] = &["r", "err", "or", "a", "_", "x-r", "b1", "string", "T", "a-"];
    let mut seen: Vec<Key> = vec![];
    for e in es.iter_mut() {
        if c.r.pct(level) && e.key.pay.is_some() {
            e.key.pay = Some(Scal { text: hostile(&mut c.r), kind: Kind::Quoted });
        }
        if c.r.pct(level / 3) && e.key.pay.is_some() {
            e.key.tag = Some(c.r.pick(TAGS).to_string());
        }
        if c.r.pct(level / 2) {
            const LINES: &[&str] = &["", " ", "doc", "  two", "x ", "\t", "/ a", "//", "@tag {", "é\"", "a, b"];
            let n = c.r.range(1, 3);
            e.doc = Some((0..n).map(|_| *c.r.pick(LINES)).collect::<Vec<_>>().join("\n"));
        }
        let mut i = 0;
        while seen.iter().any(|k| k.tag == e.key.tag && k.pay.as_ref().map(|s| &s.text) == e.key.pay.as_ref().map(|s| &s.text)) {
            i += 1;
            e.key.pay = Some(Scal { text: format!("k{i}"), kind: Kind::Bare });
        }
        seen.push(e.key.clone());
        harden_val(c, &mut e.val, level, TAGS);
    }
}
fn harden_val(c: &mut Case, v: &mut Val, level: usize, tags: &[&str]) {
    if c.r.pct(level / 3) {
        v.tags = vec![c.r.pick(tags).to_string()];
    }
    match &mut v.pay {
        Pay::Scalar(s) => {
            if c.r.pct(level) {
                s.text = hostile(&mut c.r);
            }
        }
        Pay::Seq(x) => x.iter_mut().for_each(|x| harden_val(c, x, level, tags)),
        Pay::Obj(e) => harden(c, e, level),
        _ => {}
    }
}
pub fn c12_hostile(c: &mut Case) {
    let mut es = writable(c);
    let level = *c.r.pick(&[10, 30, 70]);
    harden(c, &mut es, level);
    c.count("hardened");
    c12_write(c, es);
}
pub fn c12_value(c: &mut Case) {
    let es = writable(c);
    c12_write(c, es);
}
fn c12_write(c: &mut Case, es: Vec<Ent>) {
    let obj = t::Object { entries: es.iter().map(real::to_entry).collect(), span: None };
    let v = t::Value { tag: None, payload: Some(t::Payload::Object(obj.clone())), span: None };
    let o = options(&mut c.r);
    match c.guard(|| styx_format::format_value(&v, o.clone())) {
        Ok(s) => judge(c, "document", &es, &s),
        Err(m) => c.fail("document:panic", m, &format!("{es:?}")),
    }
    match c.guard(|| styx_format::format_object_braced(&obj, o)) {
        Ok(s) => judge(c, "braced", &es, &s),
        Err(m) => c.fail("braced:panic", m, &format!("{es:?}")),
    }
    c.count("written");
    let mut sh = String::new();
    Val::new(vec![], Pay::Obj(es)).shape(&mut sh);
    c.eval(if sh.len() > 3 { Some(&sh) } else { None });
    c.sample(&sh);
}
pub fn c12() -> Spec {
    Spec {
        prop: "C12",
        rule: "value trees with hostile texts x option sets, written as a document and as a braced object, parsed again and compared. Distinct by tree shape; non-trivial: at least one entry",
        streams: vec![
            Stream { name: "value", f: c12_value, quick: 120_000, thorough: 2_400_000 },
            Stream { name: "hostile", f: c12_hostile, quick: 180_000, thorough: 3_600_000 },
        ],
        must: &["written", "hardened"],
    }
}
