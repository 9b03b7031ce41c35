//! Ways of spelling one value: notations, dotted keys, order, doc comments.
use crate::mkdoc::bare_ok;
use crate::model::*;
use crate::rng::Rng;

/// Marks a value as the text of a float, in the unused half of its source range.
pub const F32: u32 = 4;
pub const F64: u32 = 5;

/// Choose a notation for every scalar and key.
pub fn notations(v: &mut Val, r: &mut Rng) {
    let after_tag = v.tags.last().cloned();
    match &mut v.pay {
        Pay::Unit => {}
        Pay::Scalar(s) => {
            if matches!(v.sp.0, F32 | F64)
                && let Ok(f) = s.text.parse::<f64>()
                && f.is_finite()
            {
                match r.below(8) {
                    0 if v.sp.0 == F64 => s.text = format!("{f:e}"),
                    1 if v.sp.0 == F64 => s.text = format!("{f:E}"),
                    2 if f.fract() == 0.0 && f.abs() < 1e6 && f.is_sign_positive() => s.text = format!("{}", f as i64),
                    _ => {}
                }
            }
            notation(s, r, true, after_tag.as_deref())
        }
        Pay::Seq(x) => x.iter_mut().for_each(|x| notations(x, r)),
        Pay::Obj(es) => {
            for e in es {
                if let Some(s) = &mut e.key.pay {
                    notation(s, r, false, None);
                }
                notations(&mut e.val, r)
            }
        }
    }
}
fn notation(s: &mut Scal, r: &mut Rng, value: bool, tag: Option<&str>) {
    let bare = bare_ok(&s.text) && tag.is_none() && (value || !s.text.contains('.'));
    s.kind = match r.below(10) {
        0..=5 if bare => Kind::Bare,
        9 if value && s.text.ends_with('\n') => Kind::Heredoc,
        0..=4 => Kind::Quoted,
        _ if value && s.text.ends_with('\n') && r.pct(40) => Kind::Heredoc,
        6..=7 => Kind::Raw,
        _ if bare => Kind::Bare,
        _ => Kind::Quoted,
    };
    // `@colour"x"`: after a name ending in r only the raw notation is a payload of its own.
    if s.kind == Kind::Quoted && tag.is_some_and(|t| t.ends_with('r')) {
        s.kind = Kind::Raw;
    }
}
/// Write some root objects as dotted paths.
pub fn dot(es: Vec<Ent>, r: &mut Rng, deep: usize) -> Vec<Ent> {
    let plain = |k: &Key| k.tag.is_none() && k.pay.as_ref().is_some_and(|s| bare_ok(&s.text) && !s.text.contains('.'));
    let mut out = Vec::new();
    for mut e in es {
        let fits = e.val.tags.is_empty()
            && plain(&e.key)
            && e.doc.is_none()
            && matches!(&e.val.pay, Pay::Obj(x) if !x.is_empty() && x.iter().all(|e| plain(&e.key) && e.doc.is_none()));
        if !fits || !r.pct(50) {
            out.push(e);
            continue;
        }
        let Pay::Obj(kids) = std::mem::replace(&mut e.val.pay, Pay::Unit) else { unreachable!() };
        e.key.pay.as_mut().unwrap().kind = Kind::Bare;
        let kids = if deep > 0 { dot(kids, r, deep - 1) } else { kids };
        for mut k in kids {
            k.key.pay.as_mut().unwrap().kind = Kind::Bare;
            let mut v = Val::new(vec![], Pay::Obj(vec![k]));
            v.implied = Imp(true);
            out.push(Ent { key: e.key.clone(), val: v, doc: None });
        }
    }
    out
}
pub fn shuffle(v: &mut Val, r: &mut Rng) {
    match &mut v.pay {
        Pay::Seq(x) => x.iter_mut().for_each(|x| shuffle(x, r)),
        Pay::Obj(es) => {
            r.shuffle(es);
            es.iter_mut().for_each(|e| shuffle(&mut e.val, r));
        }
        _ => {}
    }
}
pub fn docs(v: &mut Val, r: &mut Rng) {
    match &mut v.pay {
        Pay::Seq(x) => x.iter_mut().for_each(|x| docs(x, r)),
        Pay::Obj(es) => {
            for e in es {
                if r.pct(6) {
                    e.doc = Some(r.pick(&["a doc", "two\nlines", "", "\"quoted\" {x"]).to_string());
                }
                docs(&mut e.val, r);
            }
        }
        _ => {}
    }
}
/// The text with every explicit unit that is a whole entry value taken out (`k @` to `k `).
pub fn implicit_units(text: &str) -> String {
    fn walk(v: &styx_tree::Value, text: &str, entry: bool, out: &mut Vec<usize>) {
        if v.tag.is_some() {
            if let Some(p) = &v.payload {
                payload(p, text, out);
            }
            return;
        }
        match (&v.payload, v.span) {
            (None, Some(s)) if entry && &text[s.start as usize..s.end as usize] == "@" => out.push(s.start as usize),
            (Some(p), _) => payload(p, text, out),
            _ => {}
        }
    }
    fn payload(p: &styx_tree::Payload, text: &str, out: &mut Vec<usize>) {
        match p {
            // The implied value of a key has the key's span.
            styx_tree::Payload::Object(o) => o.entries.iter().filter(|e| e.key.span != e.value.span).for_each(|e| walk(&e.value, text, true, out)),
            styx_tree::Payload::Sequence(q) => q.items.iter().for_each(|e| walk(e, text, false, out)),
            styx_tree::Payload::Scalar(_) => {}
        }
    }
    let mut at = Vec::new();
    if let Ok(t) = styx_tree::parse(text) {
        walk(&t, text, true, &mut at);
    }
    let mut s = text.to_string();
    at.sort();
    for i in at.into_iter().rev() {
        if i > 0 && s[..i].ends_with([' ', '\n', '\t', '>']) {
            s.remove(i);
        }
    }
    s
}
