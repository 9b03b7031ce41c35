//! C01-C08: the front ends against the reference reader and stream monitors.
use crate::mkdoc::{Profile, document};
use crate::model::*;
use crate::mutate;
use crate::real;
use crate::refp::{self, Verdict};
use crate::run::*;

pub fn profile(c: &mut Case) -> Profile {
    Profile::full().vary(&mut c.r)
}
/// Judge one text against the reference. Returns the verdict.
pub fn conform(c: &mut Case, src: &str) -> Verdict {
    let v = refp::read(src);
    c.count(v.name());
    let parsed = match c.guard(|| {
        let ev = real::events(src);
        real::from_events(&ev)
    }) {
        Err(m) => {
            c.fail("panic", m, src);
            return v;
        }
        Ok(Err(m)) => {
            if !matches!(v, Verdict::Unspec(_)) {
                c.fail("malformed-stream", m, src);
            }
            return v;
        }
        Ok(Ok(p)) => p,
    };
    let tree = match c.guard(|| real::tree(src)) {
        Err(m) => {
            c.fail("panic", m, src);
            return v;
        }
        Ok(t) => t,
    };
    match &v {
        Verdict::Unspec(_) => {}
        Verdict::Err { kind, at } => {
            c.count(&format!("rejected:{kind}"));
            if parsed.errors.is_empty() {
                c.fail(format!("accepted:{kind}"), format!("the reference rejects this ({kind} at byte {at}) but no error is reported"), src);
            } else if tree.is_ok() {
                c.fail("tree-accepted", format!("the event parser reports {:?} but the tree builder accepts", parsed.errors[0]), src);
            }
        }
        Verdict::Ok(d) => {
            if let Some(e) = parsed.errors.first() {
                c.fail(format!("rejected:{}", ename(&e.kind)), format!("valid document rejected: {e:?}"), src);
                return v;
            }
            if let Some(m) = diff(&d.ents, &parsed.ents) {
                c.fail("meaning", format!("events differ from the reference: {m}"), src);
                return v;
            }
            match tree {
                Err(m) => c.fail("tree-rejected", format!("valid document rejected by the tree builder: {m}"), src),
                Ok(t) => {
                    if let Some(m) = diff(&collapse_chains(&d.ents), &t) {
                        c.fail("tree-meaning", format!("tree differs from the reference: {m}"), src);
                    }
                }
            }
        }
    }
    v
}
pub fn ename(k: &styx_parse::ParseErrorKind) -> String {
    let s = format!("{k:?}");
    s.split(['(', ' ', '{']).next().unwrap().to_string()
}
fn shape_of(es: &[Ent]) -> String {
    let mut s = String::new();
    Val::new(vec![], Pay::Obj(es.to_vec())).shape(&mut s);
    s
}
pub fn c04_gen(c: &mut Case) {
    let p = profile(c);
    let (ents, src) = document(&mut c.r, &p);
    match conform(c, &src) {
        Verdict::Ok(d) => {
            if let Some(m) = diff(&ents, &d.ents) {
                c.fail("harness:reference-vs-generator", m, &src);
            }
            let s = shape_of(&ents);
            c.add("nodes", Val::new(vec![], Pay::Obj(ents)).count());
            c.eval(if s.len() > 4 { Some(&s) } else { None });
            c.sample(&src);
        }
        Verdict::Err { kind, at } => c.fail("harness:reference-rejects-generated", format!("{kind} at {at}"), &src),
        Verdict::Unspec(w) => c.fail("harness:reference-unspec-generated", w, &src),
    }
}
pub fn c04_mut(c: &mut Case) {
    let mut p = profile(c);
    p.budget = p.budget.min(25);
    let (_, src) = document(&mut c.r, &p);
    let (_, other) = document(&mut c.r, &p);
    let m = mutate::mutate(&mut c.r, &src, &other);
    let v = conform(c, &m);
    c.eval(match &v {
        Verdict::Unspec(_) => None,
        _ => Some(&m),
    });
}
pub fn c04_soup(c: &mut Case) {
    let m = mutate::soup(&mut c.r);
    let v = conform(c, &m);
    c.eval(match &v {
        Verdict::Unspec(_) => None,
        _ => Some(&m),
    });
}
pub fn c04() -> Spec {
    Spec {
        prop: "C04",
        rule: "documents generated from a value model in random notations, layouts and comments; mutated documents; token soup. Each is judged by the reference reader (accept with this tree / reject / not specified). Distinct: by tree shape (generated) or text (mutants); non-trivial: judged by the reference and more than one entry",
        streams: vec![
            Stream { name: "gen", f: c04_gen, quick: 240_000, thorough: 4_800_000 },
            Stream { name: "mut", f: c04_mut, quick: 480_000, thorough: 9_600_000 },
            Stream { name: "soup", f: c04_soup, quick: 480_000, thorough: 9_600_000 },
        ],
        must: &["valid", "invalid"],
    }
}
