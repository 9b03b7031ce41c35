//! C16, C18: the library's schema validation against the independent one.
use super::schema::*;
use crate::model::*;
use crate::run::*;
use facet_styx::{SchemaFile, ValidationError, ValidationErrorKind};

/// The schema file read back, from a text with its own spelling.
pub fn schema(c: &mut Case, env: &Env) -> Option<(String, SchemaFile)> {
    let (text, _) = spell(c, &env.file(), true)?;
    match c.guard(|| facet_styx::from_str::<SchemaFile>(&text).map_err(|e| e.to_string())) {
        Err(m) => c.fail("schema:panic", m, &text),
        Ok(Err(m)) => c.fail("schema:refused", format!("{m}\n{text}"), &text),
        Ok(Ok(s)) => return Some((text, s)),
    }
    None
}
fn validate(c: &mut Case, doc: &str, sf: &SchemaFile, both: &str) -> Option<Vec<ValidationError>> {
    let tree = match styx_tree::parse(doc) {
        Ok(t) => t,
        Err(e) => {
            c.fail("doc:refused", format!("{e}\n{doc}"), both);
            return None;
        }
    };
    match c.guard(|| facet_styx::validate(&tree, sf)) {
        Err(m) => {
            c.fail("validate:panic", m, both);
            None
        }
        Ok(r) => Some(r.errors),
    }
}
fn conform(c: &mut Case) {
    let env = mk_env(&mut c.r);
    let Some((stext, sf)) = schema(c, &env) else { return };
    for i in 0..4 {
        let d = c.r.range(1, 5);
        let mut v = env.value(&mut c.r, &env.root, d);
        let mut how = "as-is";
        if i > 0 {
            for _ in 0..c.r.range(1, 3) {
                how = mutate(&mut v, &mut c.r);
            }
        }
        if !matches!(v.pay, Pay::Obj(_)) || !v.tags.is_empty() {
            continue;
        }
        let Some((text, ents)) = spell(c, &v, true) else { continue };
        let doc = Val::new(vec![], Pay::Obj(merged(&ents)));
        let mut bl = vec![];
        let want = env.judge(&doc, &env.root, "", &mut bl);
        let both = format!("=== schema\n{stext}\n=== document\n{text}");
        let Some(errs) = validate(c, &text, &sf, &both) else { continue };
        match want {
            T::Open => {
                c.count("open");
                continue;
            }
            T::Yes => {
                c.count("conforming");
                if let Some(e) = errs.first() {
                    c.fail(format!("refused:{}", kind(e)), format!("{e}\n{both}"), &both);
                }
            }
            T::No => {
                c.count("violating");
                c.count(&format!("violating:{how}"));
                if errs.is_empty() {
                    c.fail(format!("accepted:{how}"), format!("should fail at {bl:?}\n{both}"), &both);
                }
            }
        }
        kinds(&env, &env.root, c, 0);
        c.eval(Some(&both));
        c.sample(&both);
    }
}
fn kind(e: &ValidationError) -> String {
    let s = format!("{:?}", e.kind);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
fn kinds(env: &Env, s: &Sch, c: &mut Case, d: usize) {
    let mut go = |x: &Sch| kinds(env, x, c, d + 1);
    let n = match s {
        Sch::Str(None, None) => "string",
        Sch::Str(..) => "string-limits",
        Sch::Int(..) => "int",
        Sch::Float(..) => "float",
        Sch::Bool => "bool",
        Sch::Unit => "unit",
        Sch::Any => "any",
        Sch::Lit(_) => "literal",
        Sch::OneOf(..) => "one-of",
        Sch::Default(_, s) => {
            go(s);
            "default"
        }
        Sch::Deprecated(_, s) => {
            go(s);
            "deprecated"
        }
        Sch::Opt(s) => {
            go(s);
            "optional"
        }
        Sch::Seq(s) => {
            go(s);
            "seq"
        }
        Sch::Map(_, s) => {
            go(s);
            "map"
        }
        Sch::Tuple(v) => {
            v.iter().for_each(go);
            "tuple"
        }
        Sch::Union(v) => {
            v.iter().for_each(go);
            "union"
        }
        Sch::Enum(v) => {
            v.iter().filter_map(|(_, s)| s.as_ref()).for_each(go);
            "enum"
        }
        Sch::Ref(i) => {
            if d < 6 {
                go(&env.types[*i]);
            }
            "ref"
        }
        Sch::Obj(fs, rest) => {
            for f in fs {
                if f.flat.is_some() {
                    c.count("type:flatten");
                }
                kinds(env, &f.sch, c, d + 1);
            }
            if let Some((_, s)) = rest {
                kinds(env, s, c, d + 1);
                c.count("type:catch-all");
            }
            "object"
        }
    };
    c.count(&format!("type:{n}"));
}
/// Types defined only in terms of themselves: no answer is prescribed, but there has to be one.
fn cycles(c: &mut Case) {
    let names = ["A", "B", "C"];
    let n = c.r.range(1, 3);
    let mut s = String::from("meta {id x}\nschema {\n  @ @object{a @A, b @optional(@A)}\n");
    for i in 0..n {
        let t = *c.r.pick(&names[..n]);
        let u = *c.r.pick(&names[..n]);
        let body = match c.r.below(9) {
            0 => format!("@{t}"),
            1 => format!("@union(@{t} @{u})"),
            2 => format!("@optional(@{t})"),
            3 => format!("@default(1 @{t})"),
            4 => format!("@flatten(@{t})"),
            5 => format!("@object{{x @flatten(@{t}), y @{u}}}"),
            6 => format!("@enum{{a @{t}, b @{u}}}"),
            7 => format!("@deprecated(\"r\" @{t})"),
            _ => format!("@object{{x @{t}, @ @{u}}}"),
        };
        s.push_str(&format!("  {} {body}\n", names[i]));
    }
    s.push('}');
    let doc = *c.r.pick(&["a 1", "a {x {y 1}}", "a @a@\nb 1", "", "a {x {x {x {x 1}}}, y (1 2)}", "a @b{x 1, y 2}"]);
    let both = format!("=== schema\n{s}\n=== document\n{doc}");
    let sf = match facet_styx::from_str::<SchemaFile>(&s) {
        Ok(f) => f,
        Err(e) => return c.fail("schema:refused", e.to_string(), &both),
    };
    validate(c, doc, &sf, &both);
    c.count("cycles");
    c.eval(Some(&both));
}
pub fn c16() -> Spec {
    Spec {
        prop: "C16",
        rule: "an evaluation is one document validated against one schema; distinct by both texts",
        streams: vec![
            Stream { name: "conform", f: conform, quick: 60_000, thorough: 3_000_000 },
            Stream { name: "cycles", f: cycles, quick: 3000, thorough: 60_000 },
        ],
        must: &[
            "conforming", "violating", "cycles", "type:object", "type:catch-all", "type:flatten", "type:optional", "type:default", "type:deprecated", "type:seq", "type:tuple", "type:map",
            "type:union", "type:enum", "type:one-of", "type:literal", "type:ref", "type:string-limits", "type:int", "type:float", "type:bool", "type:unit", "type:any",
        ],
    }
}

// ---------------------------------------------------------------- C18

fn located(c: &mut Case) {
    let env = mk_env(&mut c.r);
    let Some((stext, sf)) = schema(c, &env) else { return };
    for _ in 0..6 {
        let d = c.r.range(1, 5);
        let good = env.value(&mut c.r, &env.root, d);
        if env.ok(&good, &env.root) != T::Yes {
            c.count("not-conforming");
            continue;
        }
        let mut bad = good.clone();
        let how = mutate(&mut bad, &mut c.r);
        if !matches!(bad.pay, Pay::Obj(_)) || !bad.tags.is_empty() {
            continue;
        }
        let Some((text, ents)) = spell(c, &bad, true) else { continue };
        let doc = Val::new(vec![], Pay::Obj(merged(&ents)));
        let mut bl = vec![];
        if env.judge(&doc, &env.root, "", &mut bl) != T::No {
            c.count("still-conforming");
            continue;
        }
        let both = format!("=== schema\n{stext}\n=== document\n{text}");
        let Some(errs) = validate(c, &text, &sf, &both) else { continue };
        for b in bl.iter().filter(|b| b.at != Where::Maybe) {
            if let Err(m) = found(b, &errs, &text) {
                let show: Vec<_> = errs.iter().map(|e| format!("{:?} {:?} {}", e.path, e.span, kind(e))).collect();
                c.fail(format!("{m}:{how}"), format!("expected {b:?}\nreported {}\n{both}", show.join("; ")), &both);
            }
            c.count(match b.at {
                Where::Value => "at:value",
                Where::Missing(_) => "at:missing",
                Where::Unknown(_) => "at:unknown",
                Where::Key => "at:key",
                Where::Maybe => "at:maybe",
            });
        }
        for e in &errs {
            let fits = |b: &Blame| b.path == e.path || b.at == Where::Maybe && e.path.starts_with(&b.path) || matches!(&b.at, Where::Missing(_)) && parent(&b.path, b) == e.path;
            if !bl.iter().any(fits) {
                let show: Vec<_> = errs.iter().map(|e| format!("{:?} {:?} {}", e.path, e.span, kind(e))).collect();
                c.fail(format!("blames-other:{how}"), format!("faults {bl:?}\nreported {}\n{both}", show.join("; ")), &both);
            }
            if let Some(s) = e.span {
                let (a, z) = (s.start as usize, s.end as usize);
                if a > z || z > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(z) {
                    c.fail("span:outside", format!("{e:?}\n{both}"), &both);
                }
            }
        }
        c.eval(Some(&both));
        c.sample(&both);
    }
}
fn parent(p: &str, b: &Blame) -> String {
    match &b.at {
        Where::Missing(f) => p.strip_suffix(f.as_str()).unwrap_or(p).trim_end_matches('.').to_string(),
        _ => p.to_string(),
    }
}
fn found(b: &Blame, errs: &[ValidationError], text: &str) -> Result<(), String> {
    let here: Vec<_> = errs.iter().filter(|e| e.path == b.path || e.path == parent(&b.path, b)).collect();
    if here.is_empty() {
        return Err("path".into());
    }
    let fits = |e: &&ValidationError| -> bool {
        match (&b.at, &e.kind) {
            (Where::Missing(f), ValidationErrorKind::MissingField { field }) if f != field => return false,
            (Where::Missing(_), ValidationErrorKind::MissingField { .. }) => {}
            (Where::Missing(_), _) => return false,
            (Where::Unknown(f), ValidationErrorKind::UnknownField { field, .. }) if f != field => return false,
            (Where::Unknown(_), ValidationErrorKind::UnknownField { .. }) => {}
            (Where::Unknown(_), _) => return false,
            _ => {}
        }
        let Some(s) = e.span else { return true };
        if b.implied {
            return true;
        }
        let (a, z) = (s.start, s.end);
        match &b.at {
            // Somewhere in the object that lacks the field; the root may be given as the whole text.
            Where::Missing(_) => b.sp.1 == 0 || a >= b.sp.0 && z <= b.sp.1,
            // The key itself.
            Where::Unknown(_) | Where::Key => (a, z) == (b.sp.0, b.sp.1),
            // The value, with or without its tag.
            Where::Value | Where::Maybe => {
                let atom = &text[b.sp.0 as usize..b.sp.1 as usize];
                a >= b.sp.0 && z == b.sp.1 && (a == b.sp.0 || atom.starts_with('@')) || b.sp.1 == 0
            }
        }
    };
    if here.iter().any(fits) { Ok(()) } else { Err("span".into()) }
}
pub fn c18() -> Spec {
    Spec {
        prop: "C18",
        rule: "an evaluation is one document with one change that breaks its schema; distinct by schema and document text",
        streams: vec![Stream { name: "located", f: located, quick: 60_000, thorough: 3_000_000 }],
        must: &["at:value", "at:missing", "at:unknown", "at:key"],
    }
}
