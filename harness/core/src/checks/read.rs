//! C15: reading a document into Rust types, whatever its notation.
use super::spell::*;
use super::types::*;
use crate::mkdoc::{self, Gen, Profile};
use crate::model::*;
use crate::refp;
use crate::rng::Rng;
use crate::run::*;
use crate::toval::{self, *};
use facet::Facet;
use serde::{Serialize, de::DeserializeOwned};
use std::fmt::Debug;

/// Leave out entries that are None, or keep them without a value.
fn nones(v: &mut Val, r: &mut Rng) {
    match &mut v.pay {
        Pay::Seq(x) => x.iter_mut().for_each(|x| nones(x, r)),
        Pay::Obj(es) => {
            let fields = v.sp.1 & 0xff != MAP;
            es.retain(|e| !(fields && e.val.sp.1 & 0xff == NONE && r.pct(60)));
            es.iter_mut().for_each(|e| nones(&mut e.val, r));
        }
        _ => {}
    }
}
/// Entries no field of the type is named after.
fn unknown(v: &mut Val, r: &mut Rng, n: &mut usize) {
    let plain = v.sp.1 & 0xff == STRUCT;
    match &mut v.pay {
        Pay::Seq(x) => x.iter_mut().for_each(|x| unknown(x, r, n)),
        Pay::Obj(es) => {
            es.iter_mut().for_each(|e| unknown(&mut e.val, r, n));
            if plain && r.pct(30) {
                let mut p = Profile::full().vary(r);
                p.budget = 8;
                p.dotted = false;
                let depth = r.range(0, 3);
                let val = Gen::new(r, p).val(depth);
                *n += 1;
                let k = Key { tag: None, pay: Some(Scal { text: format!("zz_extra_{n}"), kind: Kind::Bare }), sp: Sp(0, 0) };
                let at = r.below(es.len() + 1);
                es.insert(at, Ent { key: k, val, doc: None });
            }
        }
        _ => {}
    }
}
fn schema_decl(r: &mut Rng) -> Ent {
    let mut p = Profile::full().vary(r);
    p.budget = 8;
    p.dotted = false;
    let depth = r.range(0, 3);
    let val = match r.below(3) {
        0 => Val::scalar("schema.styx", Kind::Bare),
        1 => Val::new(vec![], Pay::Obj(vec![])),
        _ => Gen::new(r, p).val(depth),
    };
    Ent { key: Key { tag: Some("schema".into()), pay: None, sp: Sp(0, 0) }, val, doc: None }
}
/// A document text for a value, or None when what was printed does not denote it.
pub fn spell(c: &mut Case, mut v: Val, canonical: bool) -> Option<String> {
    let mut p = Profile::full().vary(&mut c.r);
    p.cr_in_text = true;
    p.attrs = !canonical;
    if c.r.pct(50) {
        shuffle(&mut v, &mut c.r);
    }
    notations(&mut v, &mut c.r);
    if c.r.pct(30) {
        docs(&mut v, &mut c.r);
    }
    let Pay::Obj(mut es) = v.pay else { panic!("root") };
    let dotted = !canonical && c.r.pct(40);
    let plain = es.clone();
    if dotted {
        es = dot(es, &mut c.r, 2);
    }
    let schema = !canonical && c.r.pct(15);
    if schema {
        let d = schema_decl(&mut c.r);
        let at = if c.r.pct(80) { 0 } else { c.r.below(es.len() + 1) };
        // Never between sibling paths.
        let at = if dotted { 0 } else { at };
        es.insert(at, d);
    }
    let text = mkdoc::print(&mut c.r, &p, &es);
    match refp::read(&text) {
        refp::Verdict::Ok(d) if diff(&forget_kinds(&es), &forget_kinds(&d.ents)).is_none() => {}
        _ => {
            c.count("not-spelled");
            return None;
        }
    }
    for (k, on) in [("spelled:dotted", dotted && es.len() != plain.len()), ("spelled:schema", schema)] {
        if on {
            c.count(k);
        }
    }
    Some(text)
}
pub fn value<T: Sample>(c: &mut Case) -> T {
    let d = c.r.range(1, 4);
    FACET.with(|f| f.set(true));
    let v = T::sample(&mut c.r, d);
    FACET.with(|f| f.set(false));
    v
}
fn spelled<T: Sample + Facet<'static> + Serialize + Debug + PartialEq>(c: &mut Case, ty: &str) {
    let v: T = value(c);
    let mut ast = toval::to_val(&v);
    nones(&mut ast, &mut c.r);
    let mut extra = 0;
    if c.r.pct(30) {
        unknown(&mut ast, &mut c.r, &mut extra);
    }
    let Some(text) = spell(c, ast, false) else { return };
    let text = implicit_units(&text);
    let mut outs = vec![("read", c.guard(|| facet_styx::from_str::<T>(&text).map_err(|e| e.to_string())))];
    if extra > 0 {
        c.count("spelled:unknown");
    }
    if c.r.pct(2) {
        // The types are 'static, so borrowed reading needs text that stays.
        let kept: &'static str = Box::leak(text.clone().into_boxed_str());
        outs.push(("borrowed", c.guard(|| facet_styx::from_str_borrowed::<T>(kept).map_err(|e| e.to_string()))));
    }
    for (how, out) in outs {
        match out {
            Err(m) => c.fail(format!("{ty}:{how}:panic"), format!("{m}\n{text}"), &text),
            Ok(Err(m)) => c.fail(format!("{ty}:{how}:refused"), format!("{m}\n{text}\nvalue {v:?}"), &text),
            Ok(Ok(b)) if b != v => c.fail(format!("{ty}:{how}:differs"), format!("denotes {v:?}\nread    {b:?}\n{text}"), &text),
            Ok(Ok(_)) => {}
        }
    }
    c.count(ty);
    c.eval(Some(&text));
    c.sample(&text);
}
fn serde_spelled<T: Sample + Serialize + DeserializeOwned + Debug + PartialEq>(c: &mut Case, ty: &str) {
    let v: T = value(c);
    let mut ast = toval::to_val(&v);
    drop_nones(&mut ast);
    let mut extra = 0;
    if c.r.pct(30) {
        unknown(&mut ast, &mut c.r, &mut extra);
    }
    if ty == "Flat" || (ty == "Defaults" && format!("{v:?}").contains("d: None")) || has_unit(&ast) {
        return c.count("serde:skipped");
    }
    let Some(text) = spell(c, ast, true) else { return };
    if extra > 0 {
        c.count("serde:unknown");
    }
    match c.guard(|| serde_styx::from_str::<T>(&text).map_err(|e| e.to_string())) {
        Err(m) => c.fail(format!("serde:{ty}:panic"), format!("{m}\n{text}"), &text),
        Ok(Err(m)) => c.fail(format!("serde:{ty}:refused"), format!("{m}\n{text}\nvalue {v:?}"), &text),
        Ok(Ok(b)) if b != v => c.fail(format!("serde:{ty}:differs"), format!("denotes {v:?}\nread    {b:?}\n{text}"), &text),
        Ok(Ok(_)) => {}
    }
    c.count(&format!("serde:{ty}"));
    c.eval(Some(&text));
    c.sample(&text);
}
fn drop_nones(v: &mut Val) {
    match &mut v.pay {
        Pay::Seq(x) => x.iter_mut().for_each(drop_nones),
        Pay::Obj(es) => {
            let fields = v.sp.1 & 0xff != MAP;
            es.retain(|e| !(fields && e.val.sp.1 & 0xff == NONE));
            es.iter_mut().for_each(|e| drop_nones(&mut e.val));
        }
        _ => {}
    }
}
/// A unit as the value of an entry: may be printed as nothing, which serde misreads (finding).
fn has_unit(v: &Val) -> bool {
    match &v.pay {
        Pay::Seq(x) => x.iter().any(has_unit),
        Pay::Obj(es) => es.iter().any(|e| e.val.tags.is_empty() && e.val.pay == Pay::Unit || has_unit(&e.val)),
        _ => false,
    }
}

// ---------------------------------------------------------------- faults
/// One place of the value that can be broken, and how.
/// `lax`: facet fills in a missing field of the type by itself.
fn sites(v: &Val, lax: bool, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, &'static str)>) {
    let what = v.sp.1 & 0xff;
    if what == ENUM {
        out.push((path.clone(), "variant"));
    }
    match &v.pay {
        Pay::Unit => {}
        Pay::Scalar(_) => {
            if v.tags.is_empty() && v.sp.0 != 0 {
                out.push((path.clone(), "scalar"));
                if v.sp.0 != STR {
                    out.push((path.clone(), "text"));
                }
            }
        }
        Pay::Seq(x) => {
            if v.tags.is_empty() && what == SEQ {
                out.push((path.clone(), "seq"));
            }
            for (i, y) in x.iter().enumerate() {
                path.push(i);
                sites(y, lax, path, out);
                path.pop();
            }
        }
        Pay::Obj(es) => {
            if v.tags.is_empty() && matches!(what, STRUCT | MAP) && !path.is_empty() {
                out.push((path.clone(), "object"));
            }
            if !lax && es.iter().any(|e| e.key.sp.0 == REQUIRED) {
                out.push((path.clone(), "required"));
            }
            for (i, e) in es.iter().enumerate() {
                path.push(i);
                sites(&e.val, lax, path, out);
                path.pop();
            }
        }
    }
}
fn at<'a>(v: &'a mut Val, path: &[usize]) -> &'a mut Val {
    match path.split_first() {
        None => v,
        Some((i, rest)) => match &mut v.pay {
            Pay::Seq(x) => at(&mut x[*i], rest),
            Pay::Obj(es) => at(&mut es[*i].val, rest),
            _ => unreachable!(),
        },
    }
}
/// Decimal text one further from zero.
fn beyond(t: &str) -> String {
    let (sign, d) = t.strip_prefix('-').map_or(("", t), |d| ("-", d));
    let mut b = d.as_bytes().to_vec();
    let mut i = b.len();
    loop {
        if i == 0 {
            b.insert(0, b'1');
            break;
        }
        i -= 1;
        if b[i] == b'9' {
            b[i] = b'0'
        } else {
            b[i] += 1;
            break;
        }
    }
    format!("{sign}{}", String::from_utf8(b).unwrap())
}
fn other_text(ty: u32, r: &mut Rng) -> String {
    if let Some((_, lo, hi)) = INTS.iter().find(|i| i.0 == ty) {
        return match r.below(10) {
            0 | 1 | 2 => beyond(hi),
            3 | 4 => if *lo == "0" { "-1".into() } else { beyond(lo) },
            5 => "1.5".into(),
            6 => "abc".into(),
            7 => "".into(),
            8 => "0x1F".into(),
            _ => format!("{hi}000"),
        };
    }
    match ty {
        BOOL => r.pick(&["yes", "1", "True", "", "TRUE", "truefalse"]).to_string(),
        CHAR => r.pick(&["", "ab", "\\n", "abc def"]).to_string(),
        _ => r.pick(&["1,5", "abc", "", "1.2.3", "0x10", "--1"]).to_string(),
    }
}
fn broken<T: Sample + Facet<'static> + Serialize + DeserializeOwned + Debug + PartialEq>(c: &mut Case, ty: &str) {
    if ty == "Defaults" {
        return c.count("fault:skipped");
    }
    let v: T = value(c);
    let mut ast = toval::to_val(&v);
    let mut all = Vec::new();
    sites(&ast, matches!(ty, "Tree" | "Units"), &mut vec![], &mut all);
    if all.is_empty() {
        return c.count("fault:none");
    }
    let kinds: Vec<&str> = ["variant", "scalar", "text", "seq", "object", "required"].into_iter().filter(|k| all.iter().any(|a| a.1 == *k)).collect();
    let kind = *c.r.pick(&kinds);
    let pick: Vec<_> = all.iter().filter(|a| a.1 == kind).collect();
    let (path, _) = (*c.r.pick(&pick)).clone();
    let r = &mut c.r;
    let site = at(&mut ast, &path);
    match kind {
        "variant" => site.tags[0] = r.pick(&["nosuch", "No", "x9", "nothing-else"]).to_string(),
        "scalar" => {
            *site = if r.pct(50) {
                Val::new(vec![], Pay::Seq(vec![site.clone()]))
            } else {
                Val::new(vec![], Pay::Obj(vec![Ent { key: Key { tag: None, pay: Some(Scal { text: "k".into(), kind: Kind::Bare }), sp: Sp(0, 0) }, val: site.clone(), doc: None }]))
            }
        }
        "text" => {
            let t = other_text(site.sp.0, r);
            site.pay = Pay::Scalar(Scal { text: t, kind: Kind::Quoted });
        }
        "seq" | "object" => *site = Val::scalar(r.pick(&["x", "1", ""]).to_string(), Kind::Quoted),
        _ => {
            let Pay::Obj(es) = &mut site.pay else { unreachable!() };
            let req: Vec<usize> = (0..es.len()).filter(|i| es[*i].key.sp.0 == REQUIRED).collect();
            es.remove(*r.pick(&req));
        }
    }
    nones(&mut ast, &mut c.r);
    let serde = c.r.pct(25) && ty != "Flat" && !has_unit(&ast);
    let Some(text) = spell(c, ast, serde) else { return };
    let text = if serde { text } else { implicit_units(&text) };
    let (who, out) = if serde {
        ("serde", c.guard(|| serde_styx::from_str::<T>(&text).map_err(|e| e.to_string())))
    } else {
        ("facet", c.guard(|| facet_styx::from_str::<T>(&text).map_err(|e| e.to_string())))
    };
    match out {
        Err(m) => c.fail(format!("fault:{who}:{ty}:{kind}:panic"), format!("{m}\n{text}"), &text),
        Ok(Err(_)) => {}
        Ok(Ok(b)) => c.fail(format!("fault:{who}:{ty}:{kind}:accepted"), format!("read as {b:?}\n{text}"), &text),
    }
    c.count(&format!("fault:{who}:{kind}"));
    c.eval(Some(&text));
    c.sample(&text);
}
/// Text that is not a document is refused even where every field could be filled.
fn invalid<T: Sample + Facet<'static> + Serialize + DeserializeOwned + Debug + PartialEq>(c: &mut Case, ty: &str) {
    let v: T = value(c);
    let mut ast = toval::to_val(&v);
    nones(&mut ast, &mut c.r);
    let Some(text) = spell(c, ast, false) else { return };
    let bad = crate::mutate::mutate1(&mut c.r, &text, &text);
    let verdict = refp::read(&bad);
    c.count(&format!("mutated:{}", verdict.name()));
    if !matches!(verdict, refp::Verdict::Err { .. }) {
        // Still: both readers must return.
        for (who, out) in [
            ("facet", c.guard(|| facet_styx::from_str::<T>(&bad).is_ok())),
            ("serde", c.guard(|| serde_styx::from_str::<T>(&bad).is_ok())),
        ] {
            if let Err(m) = out {
                c.fail(format!("mutated:{who}:{ty}:panic"), m, &bad);
            }
        }
        return;
    }
    for (who, out) in [
        ("facet", c.guard(|| facet_styx::from_str::<T>(&bad).map_err(|e| e.to_string()))),
        ("serde", c.guard(|| serde_styx::from_str::<T>(&bad).map_err(|e| e.to_string()))),
    ] {
        match out {
            Err(m) => c.fail(format!("invalid:{who}:{ty}:panic"), format!("{m}\n{bad}"), &bad),
            Ok(Err(_)) => {}
            Ok(Ok(b)) => c.fail(format!("invalid:{who}:{ty}:accepted"), format!("{verdict:?} read as {b:?}\n{bad}"), &bad),
        }
    }
    c.count("invalid");
    c.eval(Some(&bad));
}
macro_rules! over {
    ($name:ident, $f:ident, [$($t:ident),* $(,)?]) => {
        pub fn $name(c: &mut Case) {
            const N: &[&str] = &[$(stringify!($t)),*];
            let i = c.r.below(N.len());
            let mut n = 0;
            $(
                if i == n {
                    return $f::<$t>(c, stringify!($t));
                }
                n += 1;
            )*
            let _ = n;
        }
    };
}
macro_rules! everywhere {
    ($($t:ident),* $(,)?) => {
        over!(s_spelled, spelled, [$($t),*]);
        over!(s_serde, serde_spelled, [$($t),*]);
        over!(s_broken, broken, [$($t),*]);
        over!(s_invalid, invalid, [$($t),*]);
    };
}
everywhere!(Ints, Wide, Floats, Texts, Optional, Small, Lists, Maps, Renamed, Deep, Middle, Flat, Enums, Nests, Tree, Units, Empty, Defaults, Config, Tuples, Sets, Keyed);
pub fn c15() -> Spec {
    Spec {
        prop: "C15",
        rule: "a value of one of 22 sample types, spelled as a document by an independent printer (notation of every scalar and key, object and attribute forms, dotted sibling paths, order of fields, comments, docs, a schema declaration, unknown fields), read and compared; or the same with one fault, which must be refused. Distinct by text",
        streams: vec![
            Stream { name: "spelled", f: s_spelled, quick: 200_000, thorough: 8_000_000 },
            Stream { name: "serde", f: s_serde, quick: 80_000, thorough: 3_000_000 },
            Stream { name: "broken", f: s_broken, quick: 120_000, thorough: 4_000_000 },
            Stream { name: "invalid", f: s_invalid, quick: 100_000, thorough: 4_000_000 },
        ],
        must: &["spelled:dotted", "spelled:schema", "spelled:unknown", "Enums", "Flat", "fault:facet:required", "fault:facet:text", "fault:facet:variant", "fault:serde:text", "invalid"],
    }
}
