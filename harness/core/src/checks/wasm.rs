//! C39: the functions of the browser library against the reference reader and a JSON model.
use crate::mkdoc::{Profile, document, text};
use crate::model::*;
use crate::mutate;
use crate::real;
use crate::refp::{self, Verdict};
use crate::rng::Rng;
use crate::run::*;
use serde_json::{Map, Value as J, json};
use wasm_bindgen::JsValue;

const SAFE: f64 = 9007199254740991.0;

/// What a JSON numeral says, if the text is one.
fn numeral(t: &str) -> Option<f64> {
    match serde_json::from_str::<J>(t) {
        Ok(J::Number(_)) if !t.starts_with([' ', '\t', '\n', '\r']) && !t.ends_with([' ', '\t', '\n', '\r']) => t.parse().ok(),
        _ => None,
    }
}
/// A text that may be read as a number by some notation.
fn loose(t: &str) -> Option<f64> {
    let u = t.strip_prefix(['+', '-']).unwrap_or(t);
    let d = u.trim_start_matches('.');
    if !d.starts_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    t.parse::<f64>().ok().filter(|n| n.is_finite())
}
/// Does `got` say what a scalar says?
fn scalar(s: &Scal, got: &JsValue) -> bool {
    let bare = s.kind == Kind::Bare;
    let string = matches!(got, JsValue::Str(t) if *t == s.text);
    match s.text.as_str() {
        "true" => *got == JsValue::Bool(true) || !bare && string,
        "false" => *got == JsValue::Bool(false) || !bare && string,
        "null" => *got == JsValue::Null || !bare && string,
        t => {
            let must = bare && numeral(t).is_some_and(|n| n.is_finite() && n.abs() <= SAFE);
            let number = matches!((loose(t), got), (Some(n), JsValue::Num(g)) if n == *g);
            number || !must && string
        }
    }
}
fn at(path: &str, want: &dyn std::fmt::Debug, got: &JsValue) -> Result<(), String> {
    Err(format!("{path}: {want:?} is shown as {got:?}"))
}
/// The name an entry has in JSON.
fn name_ok(k: &Key, n: &str) -> bool {
    match (&k.tag, &k.pay) {
        (None, None) => n == "@",
        (None, Some(s)) => n == s.text,
        (Some(t), None) => n == format!("@{t}"),
        (Some(t), Some(s)) => n.starts_with(&format!("@{t}")) && (n.contains(&s.text) || n.contains(json!(s.text).to_string().trim_matches('"'))),
    }
}
fn shows(path: &str, v: &Val, got: &JsValue) -> Result<(), String> {
    let Some(tag) = v.tags.first() else {
        return match &v.pay {
            Pay::Unit if *got == JsValue::Null => Ok(()),
            Pay::Scalar(s) if scalar(s, got) => Ok(()),
            Pay::Seq(xs) => match got {
                JsValue::Arr(gs) if gs.len() == xs.len() => xs.iter().zip(gs).enumerate().try_for_each(|(i, (x, g))| shows(&format!("{path}[{i}]"), x, g)),
                _ => at(path, xs, got),
            },
            Pay::Obj(es) => object(path, es, got),
            p => at(path, p, got),
        };
    };
    let JsValue::Obj(gs) = got else { return at(path, v, got) };
    if *got.prop("$tag") != JsValue::Str(tag.clone()) {
        return at(path, v, got);
    }
    if v.pay == Pay::Unit {
        return if gs.len() == 1 { Ok(()) } else { at(path, v, got) };
    }
    if gs.len() != 2 {
        return at(path, v, got);
    }
    shows(&format!("{path}@"), &Val::new(vec![], v.pay.clone()), got.prop("$value"))
}
fn object(path: &str, es: &[Ent], got: &JsValue) -> Result<(), String> {
    let JsValue::Obj(gs) = got else { return at(path, &es, got) };
    if gs.len() != es.len() {
        return Err(format!("{path}: {} entries are shown as {}: {:?}", es.len(), gs.len(), gs.iter().map(|g| &g.0).collect::<Vec<_>>()));
    }
    for (e, (n, g)) in es.iter().zip(gs) {
        if !name_ok(&e.key, n) {
            return Err(format!("{path}: the key {:?} is named {n:?}", e.key));
        }
        shows(&format!("{path}.{n}"), &e.val, g)?;
    }
    Ok(())
}
/// Entries of sibling dotted paths put together, as they are one object; None if two keys would have one name.
fn merged(es: &[Ent]) -> Option<Vec<Ent>> {
    let mut out: Vec<Ent> = vec![];
    for e in es {
        let e = Ent { key: e.key.clone(), val: e.val.clone(), doc: None };
        if let Some(l) = out.last_mut()
            && refp::key_id(&l.key) == refp::key_id(&e.key)
            && let (Pay::Obj(a), Pay::Obj(b)) = (&mut l.val.pay, &e.val.pay)
        {
            a.extend(b.iter().cloned());
            continue;
        }
        out.push(e);
    }
    let mut names = std::collections::HashSet::new();
    for e in &mut out {
        // where `@` and "@", or `@a` and "@a", meet
        let n = match (&e.key.tag, &e.key.pay) {
            (None, None) => "@".to_string(),
            (None, Some(s)) => s.text.clone(),
            (Some(t), None) => format!("@{t}"),
            (Some(t), Some(s)) => format!("@{t}{}", json!(s.text)),
        };
        if !names.insert(n) {
            return None;
        }
        merge_val(&mut e.val)?;
    }
    Some(out)
}
fn merge_val(v: &mut Val) -> Option<()> {
    match &mut v.pay {
        Pay::Obj(es) => *es = merged(es)?,
        Pay::Seq(xs) => {
            for x in xs {
                merge_val(x)?;
            }
        }
        _ => {}
    }
    Some(())
}
fn js(j: &J) -> JsValue {
    match j {
        J::Null => JsValue::Null,
        J::Bool(b) => JsValue::Bool(*b),
        J::Number(n) => JsValue::Num(n.as_f64().unwrap()),
        J::String(s) => JsValue::Str(s.clone()),
        J::Array(a) => JsValue::Arr(a.iter().map(js).collect()),
        J::Object(o) => JsValue::Obj(o.iter().map(|(k, v)| (k.clone(), js(v))).collect()),
    }
}
/// Equal but for the last digit, which serde_json's own reader may get wrong.
fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= a.abs().max(b.abs()) * 1e-14 || (a - b).abs() < 1e-300
}
fn alike(a: &JsValue, b: &JsValue) -> bool {
    match (a, b) {
        (JsValue::Num(a), JsValue::Num(b)) => near(*a, *b),
        (JsValue::Arr(a), JsValue::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| alike(a, b)),
        (JsValue::Obj(a), JsValue::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && alike(&a.1, &b.1)),
        _ => a == b,
    }
}
/// One text through parse, validate and to_json.
fn judge(c: &mut Case, src: &str) -> Option<String> {
    let Ok(evs) = c.guard(|| real::events(src)) else { return None };
    let errs: Vec<(u32, u32)> = evs.iter().filter(|e| matches!(e.kind, styx_parse::EventKind::Error { .. })).map(|e| (e.span.start, e.span.end)).collect();
    let (p, ok, j) = match c.guard(|| (styx_wasm::parse(src), styx_wasm::validate(src), styx_wasm::to_json(src))) {
        Err(m) => {
            c.fail("panic", m, src);
            return None;
        }
        Ok(x) => x,
    };
    c.eval(Some(src));
    c.count(if errs.is_empty() { "texts without errors" } else { "texts with errors" });
    if *p.prop("success") != JsValue::Bool(errs.is_empty()) || ok != errs.is_empty() {
        c.fail("verdict", format!("the parser reports {} errors, parse says {:?}, validate says {ok}", errs.len(), p.prop("success")), src);
    }
    let JsValue::Arr(ds) = p.prop("diagnostics") else {
        c.fail("diagnostics", format!("parse gives {p:?}"), src);
        return None;
    };
    let got: Vec<(u32, u32)> = ds.iter().map(|d| (d.prop("start").as_f64().unwrap_or(-1.0) as u32, d.prop("end").as_f64().unwrap_or(-1.0) as u32)).collect();
    if got != errs {
        c.fail("diagnostics", format!("the parser reports errors at {errs:?}, parse at {got:?}"), src);
    }
    for (d, e) in ds.iter().zip(evs.iter().filter_map(|e| if let styx_parse::EventKind::Error { kind } = &e.kind { Some(kind) } else { None })) {
        if d.prop("message").as_string().is_none_or(|m| m.is_empty()) || *d.prop("severity") != JsValue::Str("error".into()) {
            c.fail("diagnostics:text", format!("{e:?} is reported as {d:?}"), src);
        }
        let names: Vec<&String> = match e {
            styx_parse::ParseErrorKind::ReopenedPath { closed_path: p } | styx_parse::ParseErrorKind::NestIntoTerminal { terminal_path: p } => p.iter().collect(),
            styx_parse::ParseErrorKind::InvalidEscape(s) => vec![s],
            _ => vec![],
        };
        if names.iter().any(|n| !d.prop("message").as_string().unwrap_or_default().contains(n.as_str())) {
            c.fail("diagnostics:text", format!("{e:?} is reported as {d:?}"), src);
        }
    }
    if *j.prop("success") != JsValue::Bool(errs.is_empty()) {
        c.fail("json:verdict", format!("the parser reports {} errors, to_json gives {j:?}", errs.len()), src);
        return None;
    }
    if !errs.is_empty() {
        if j.prop("error").as_string().is_none_or(|m| m.is_empty()) {
            c.fail("json:error", format!("to_json gives {j:?}"), src);
        }
        return None;
    }
    let Some(s) = j.prop("jsonString").as_string() else {
        c.fail("json:string", format!("to_json gives {j:?}"), src);
        return None;
    };
    match serde_json::from_str::<J>(&s) {
        Err(e) => c.fail("json:string", format!("{e}: {s}"), src),
        Ok(v) if !alike(&js(&v), j.prop("json")) => c.fail("json:string", format!("json is {:?}, jsonString is {s}", j.prop("json")), src),
        _ => {}
    }
    let Verdict::Ok(d) = refp::read(src) else { return None };
    let Some(es) = merged(&collapse_chains(&d.ents)) else {
        c.count("names meet");
        return None;
    };
    c.count("trees compared");
    if let Err(m) = object("", &es, j.prop("json")) {
        c.fail("json", m, src);
        return None;
    }
    Some(s)
}
fn docs(c: &mut Case) {
    let mut p = Profile::full().vary(&mut c.r);
    p.chains = false;
    let (_, src) = document(&mut c.r, &p);
    let src = if c.r.pct(40) {
        let (_, other) = document(&mut c.r, &p);
        mutate::mutate(&mut c.r, &src, &other)
    } else if c.r.pct(10) {
        mutate::soup(&mut c.r)
    } else {
        src
    };
    let Some(s) = judge(c, &src) else { return };
    // and back
    let Ok(j) = serde_json::from_str::<J>(&s) else { return };
    back(c, &j);
}
/// Scalars at the borders of numbers.
fn numbers(c: &mut Case) {
    let mut src = String::new();
    for i in 0..c.r.range(1, 8) {
        let t = number_like(&mut c.r);
        let t = match c.r.below(4) {
            0 if t.chars().all(|x| refp::is_bare_char(x)) => format!("\"{t}\""),
            _ => t,
        };
        if t.starts_with(['/', '"']) || refp::is_bare_start(t.chars().next().unwrap_or(' ')) {
            src.push_str(&if c.r.pct(20) { format!("k{i} @t({t})\n") } else { format!("k{i} {t}\n") });
        }
    }
    c.count("numbers");
    if let Some(s) = judge(c, &src)
        && let Ok(j) = serde_json::from_str::<J>(&s)
    {
        back(c, &j);
    }
}
fn number_like(r: &mut Rng) -> String {
    let n = r.next();
    match r.below(12) {
        0 => r.pick(&["inf", "-inf", "+inf", "infinity", "-Infinity", "INF", "nan", "NaN", "-nan", "Infinity", "e5", ".", "-", "+", "1e", "--1", "1.2.3", "0x10", "1_000", "1,5"]).to_string().replace(',', ""),
        1 => r.pick(&["1e308", "1e309", "-1e309", "1e400", "1e-400", "5e-324", "1.7976931348623159e308", "9e99999", "0e0", "-0", "-0.0", "+0", "00", "007", "1.", ".5", "+5", "-.5", "1E5", "1e+5"]).to_string(),
        2 => r.pick(&["9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740991", "-9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"]).to_string(),
        3 => r.pick(&["true", "false", "null", "True", "NULL", "yes", "True1", "nulls", "true.1"]).to_string(),
        4 => format!("{}", n as i64),
        5 => format!("{}", (n >> 12) as i64),
        6 => format!("{}", f64::from_bits(n)).replace("NaN", "0"),
        7 => format!("{:e}", f64::from_bits(n)).replace("NaN", "0"),
        8 => format!("{}.{}", n % 100, n % 7919),
        9 => format!("{}e{}", n % 1000, (n >> 20) as i64 % 400),
        10 => format!("-{}", n % 100000),
        _ => format!("{}", n % 256),
    }
}
fn string(r: &mut Rng) -> String {
    match r.below(10) {
        0 => number_like(r),
        1 => r.pick(&["", "@", "@a", "//x", "/// x", "a//b", "/", "a=b", "a>b", ">", "r\"x\"", "r#\"x\"#", "<<EOF", "<<", "a;b", "#", "\\", "\"", "a\\nb", "'x'", "{}", "()", ",", "a.b", ".", "..", "a..b", "$tag", "$value", "\u{feff}x", "\u{a0}", "\u{85}", "\u{2028}", "\u{0}", "\r", "\r\n", "\t", " a", "a ", "-", "@schema"]).to_string(),
        _ => {
            let n = r.range(0, 60);
            text(r, n, true)
        }
    }
}
fn value(r: &mut Rng, depth: usize) -> J {
    match r.below(if depth == 0 { 5 } else { 9 }) {
        0 => json!(null),
        1 => json!(r.pct(50)),
        2 => match r.below(5) {
            0 => json!(r.next()),
            1 => json!(r.next() as i64),
            2 => json!((r.next() % 2000) as f64 / 8.0),
            3 => {
                let f = f64::from_bits(r.next());
                if f.is_finite() { json!(f) } else { json!(0) }
            }
            _ => json!(r.below(1000)),
        },
        3 | 4 => json!(string(r)),
        5 | 6 => J::Array((0..r.below(4)).map(|_| value(r, depth - 1)).collect()),
        7 => {
            let mut o = Map::new();
            let name = if r.pct(75) { r.pick(&["some", "a", "Ok", "x-1", "v1.2", "_", "type"]).to_string() } else { string(r) };
            o.insert("$tag".into(), json!(name));
            if r.pct(70) {
                o.insert("$value".into(), value(r, depth - 1));
            }
            if r.pct(15) {
                o.insert(string(r), value(r, depth - 1));
            }
            if r.pct(5) {
                o.insert("$tag".into(), value(r, depth - 1));
            }
            J::Object(o)
        }
        _ => J::Object((0..r.below(5)).map(|_| (string(r), value(r, depth - 1))).collect()),
    }
}
/// Does what came back say the same?
fn same(path: &str, want: &J, got: &JsValue) -> Result<(), String> {
    let ok = match (want, got) {
        (J::Null, JsValue::Null) => true,
        (J::Bool(a), JsValue::Bool(b)) => a == b,
        (J::Number(a), JsValue::Num(b)) => near(a.as_f64().unwrap(), *b),
        (J::Number(a), JsValue::Str(b)) => a.as_f64().is_some_and(|n| n.abs() > SAFE) && a.to_string() == *b,
        // Styx has no types for scalars: a string that spells a number becomes one
        (J::String(a), g) => {
            let s = Scal { text: a.clone(), kind: Kind::Quoted };
            scalar(&s, g)
        }
        (J::Array(a), JsValue::Arr(b)) if a.len() == b.len() => return a.iter().zip(b).enumerate().try_for_each(|(i, (x, y))| same(&format!("{path}[{i}]"), x, y)),
        (J::Object(a), JsValue::Obj(b)) => {
            let tagged = a.get("$tag").is_some_and(|t| t.is_string());
            // a tag without a payload
            let bare = tagged && a.len() == 2 && a.get("$value").is_some_and(|v| v.is_null()) && b.len() == 1;
            if a.len() != b.len() && !bare {
                false
            } else {
                for ((n, x), (m, y)) in a.iter().zip(b) {
                    if n != m {
                        return Err(format!("{path}: the key {n:?} became {m:?}"));
                    }
                    // the writer spells a tagged scalar as a tagged sequence of one
                    if tagged && n == "$value" && a.len() == 2 && !x.is_array() && same("", x, y).is_err()
                        && let JsValue::Arr(ys) = y
                        && ys.len() == 1
                    {
                        return same(&format!("{path}.$value"), x, &ys[0]);
                    }
                    same(&format!("{path}.{n}"), x, y)?;
                }
                true
            }
        }
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("{path}: {want} became {got:?}")) }
}
/// A JSON object to Styx and back again.
fn back(c: &mut Case, j: &J) {
    if !j.is_object() {
        return;
    }
    // a document is an object, not a tagged value
    if j.get("$tag").is_some_and(|t| t.is_string()) {
        return c.count("tagged roots");
    }
    let src = j.to_string();
    let r = match c.guard(|| styx_wasm::from_json(&src)) {
        Err(m) => return c.fail("from:panic", m, &src),
        Ok(r) => r,
    };
    c.eval(Some(&src));
    let Some(styx) = r.prop("styxString").as_string().filter(|_| *r.prop("success") == JsValue::Bool(true)) else {
        return c.fail("from:refused", format!("from_json gives {r:?}"), &src);
    };
    c.count("written");
    if let Verdict::Err { kind, .. } = refp::read(&styx) {
        return c.fail("from:invalid", format!("{kind}: {styx}"), &src);
    }
    match c.guard(|| styx_wasm::to_json(&styx)) {
        Err(m) => c.fail("back:panic", m, &src),
        Ok(g) => {
            if *g.prop("success") != JsValue::Bool(true) {
                return c.fail("back:refused", format!("{g:?} for {styx:?}"), &src);
            }
            if let Err(m) = same("", j, g.prop("json")) {
                c.fail("back", format!("{m}\n{styx}"), &src);
            }
        }
    }
}
fn from(c: &mut Case) {
    let n = c.r.below(6);
    let d = c.r.range(0, 4);
    let j = J::Object((0..n).map(|_| (string(&mut c.r), value(&mut c.r, d))).collect());
    back(c, &j);
    // what is not JSON is refused
    if c.r.pct(20) {
        let t = j.to_string();
        let t = mutate::mutate(&mut c.r, &t, "{\"a\": [1, 2.5e3, null]}");
        let good = serde_json::from_str::<J>(&t).is_ok();
        match c.guard(|| styx_wasm::from_json(&t)) {
            Err(m) => c.fail("from:panic", m, &t),
            Ok(r) if !good && *r.prop("success") != JsValue::Bool(false) => c.fail("from:accepted", format!("{r:?}"), &t),
            Ok(r) if !good && r.prop("error").as_string().is_none() => c.fail("from:error", format!("{r:?}"), &t),
            _ => c.count(if good { "still JSON" } else { "no JSON" }),
        }
    }
}
pub fn c39() -> Spec {
    Spec {
        prop: "C39",
        rule: "an evaluation is one text through parse, validate and to_json, or one JSON object through from_json and back; distinct by text",
        streams: vec![
            Stream { name: "docs", f: docs, quick: 60_000, thorough: 2_000_000 },
            Stream { name: "numbers", f: numbers, quick: 40_000, thorough: 1_000_000 },
            Stream { name: "from", f: from, quick: 80_000, thorough: 2_000_000 },
        ],
        must: &["texts with errors", "trees compared", "numbers", "written", "no JSON"],
    }
}
