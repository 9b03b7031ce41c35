//! Documents with what is known about them, one JSON object per line, for the checks that drive
//! other programs (command line, language server, other implementations).
use super::parse::profile;
use super::schema::{self, T};
use crate::mkdoc::{self, document};
use crate::model::*;
use crate::mutate;
use crate::real;
use crate::refp::{self, Verdict};
use crate::rng::Rng;
use crate::run::{Case, Out, guard};
use serde_json::{Value as J, json};
use std::io::Write;

fn kind(k: Kind) -> &'static str {
    match k {
        Kind::Bare => "bare",
        Kind::Quoted => "quoted",
        Kind::Raw => "raw",
        Kind::Heredoc => "heredoc",
    }
}
/// {"g": tags, "sp": [a, b]} and one of: "s"+"k" scalar, "q" sequence, "o" object; none of them: unit
pub fn val(v: &Val) -> J {
    let mut j = json!({ "sp": [v.sp.0, v.sp.1] });
    if !v.tags.is_empty() {
        j["g"] = json!(v.tags);
    }
    if v.implied.0 {
        j["imp"] = json!(true);
    }
    match &v.pay {
        Pay::Unit => {}
        Pay::Scalar(s) => {
            j["s"] = json!(s.text);
            j["k"] = json!(kind(s.kind));
        }
        Pay::Seq(x) => j["q"] = J::Array(x.iter().map(val).collect()),
        Pay::Obj(e) => j["o"] = ents(e),
    }
    j
}
pub fn ents(es: &[Ent]) -> J {
    J::Array(
        es.iter()
            .map(|e| {
                let mut k = json!({ "sp": [e.key.sp.0, e.key.sp.1] });
                if let Some(t) = &e.key.tag {
                    k["g"] = json!([t]);
                }
                if let Some(s) = &e.key.pay {
                    k["s"] = json!(s.text);
                    k["k"] = json!(kind(s.kind));
                }
                let mut x = vec![k, val(&e.val)];
                if let Some(d) = &e.doc {
                    x.push(json!(d));
                }
                J::Array(x)
            })
            .collect(),
    )
}
pub fn describe(src: &str) -> J {
    let v = refp::read(src);
    let mut j = json!({ "t": src, "v": v.name() });
    match v {
        Verdict::Ok(d) => j["ref"] = ents(&d.ents),
        Verdict::Err { kind, at } => {
            j["kind"] = json!(kind);
            j["at"] = json!(at);
        }
        Verdict::Unspec(w) => j["kind"] = json!(w),
    }
    // what the real code makes of it
    match guard(|| real::tree(src)) {
        Ok(Ok(t)) => {
            j["ok"] = json!(true);
            j["tree"] = ents(&t);
        }
        Ok(Err(m)) => {
            j["ok"] = json!(false);
            j["error"] = json!(m);
        }
        Err(m) => j["panic"] = json!(m),
    }
    if let Ok(Ok(p)) = guard(|| real::from_events(&real::events(src))) {
        j["errors"] = J::Array(p.errors.iter().map(|e| json!([e.sp.0, e.sp.1])).collect());
    }
    if let Ok(f) = guard(|| styx_format::format_source(src, Default::default())) {
        j["fmt"] = json!(f);
    }
    j
}
fn doc(c: &mut Case, small: bool) -> String {
    let mut p = profile(c);
    if small {
        p.budget = p.budget.min(40);
        p.max_depth = p.max_depth.min(12);
    }
    document(&mut c.r, &p).1
}
pub fn generate(a: &[String], seed: u64) {
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let n: u64 = get("--n").and_then(|s| s.parse().ok()).unwrap_or(100);
    let what = a[0].clone();
    if what == "serve" {
        return serve();
    }
    let mut o = std::io::BufWriter::new(std::io::stdout().lock());
    let mut out = Out::default();
    for i in 0..n {
        let r = Rng::new(seed, &format!("gen/{what}"), i);
        let mut c = Case { r, out: &mut out, idx: i, stream: "gen", verbose: false, tier_thorough: false };
        let line = match what.as_str() {
            "gen" => describe(&doc(&mut c, true)),
            "big" => describe(&doc(&mut c, false)),
            "mut" => {
                let (a, b) = (doc(&mut c, true), doc(&mut c, true));
                describe(&mutate::mutate(&mut c.r, &a, &b))
            }
            "soup" => describe(&mutate::soup(&mut c.r)),
            "plain" => {
                // keys and values any reader of JSON can tell apart
                let mut p = profile(&mut c);
                p.budget = p.budget.min(60);
                p.simple_keys = true;
                p.root_tag_keys = false;
                p.chains = false;
                describe(&mkdoc::document(&mut c.r, &p).1)
            }
            "schema" => match pair(&mut c) {
                Some(j) => j,
                None => continue,
            },
            _ => panic!("what to generate"),
        };
        writeln!(o, "{line}").unwrap();
    }
}
/// A schema, and documents with the verdicts of the independent validator.
fn pair(c: &mut Case) -> Option<J> {
    let env = schema::mk_env(&mut c.r);
    let (stext, _) = schema::spell(c, &env.file(), true)?;
    let mut docs = vec![];
    for i in 0..3 {
        let d = c.r.range(1, 5);
        let mut v = env.value(&mut c.r, &env.root, d);
        if i > 0 {
            for _ in 0..c.r.range(1, 3) {
                schema::mutate(&mut v, &mut c.r);
            }
        }
        if !matches!(v.pay, Pay::Obj(_)) || !v.tags.is_empty() {
            continue;
        }
        let Some((text, es)) = schema::spell(c, &v, true) else { continue };
        let root = Val::new(vec![], Pay::Obj(schema::merged(&es)));
        let want = match env.judge(&root, &env.root, "", &mut vec![]) {
            T::Yes => "yes",
            T::No => "no",
            T::Open => "open",
        };
        let fmt = guard(|| styx_format::format_source(&text, Default::default())).ok();
        let mut j = json!({ "t": text, "want": want, "fmt": fmt });
        // the same document declaring its schema, where it has no braces of its own
        let path = *c.r.pick(&["schema.styx", "./schema.styx", "sub/schema.styx", "\"sub/my schema.styx\"", "../schema.styx"]);
        let nl = *c.r.pick(&["\n", "\n\n", "\r\n", "\n// c\n"]);
        let decl = format!("@schema {path}{nl}{text}");
        if let (Verdict::Ok(a), Verdict::Ok(b)) = (refp::read(&text), refp::read(&decl))
            && b.ents.len() == a.ents.len() + 1
        {
            j["decl"] = json!(decl);
            j["path"] = json!(path.trim_matches('"'));
            j["declfmt"] = json!(guard(|| styx_format::format_source(&decl, Default::default())).ok());
        }
        docs.push(j);
    }
    Some(json!({ "schema": stext, "docs": docs }))
}

/// Describes texts as they come: {"t": text, "indent": string?} per line.
fn serve() {
    use std::io::BufRead;
    let mut o = std::io::stdout().lock();
    for l in std::io::stdin().lock().lines() {
        let q: J = serde_json::from_str(&l.unwrap()).unwrap();
        let t = q["t"].as_str().unwrap();
        let mut j = describe(t);
        if let Some(s) = q["indent"].as_str() {
            let opt = styx_format::FormatOptions::default().indent(Box::leak(s.to_string().into_boxed_str()));
            j["fmt"] = json!(guard(|| styx_format::format_source(t, opt)).ok());
        }
        writeln!(o, "{j}").unwrap();
        o.flush().unwrap();
    }
}
