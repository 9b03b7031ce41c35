//! C13, C14: typed values through the serializers and back.
use super::front::options;
use super::spell::implicit_units;
use super::types::*;
use crate::real;
use crate::rng::Rng;
use crate::run::*;
use facet::Facet;
use std::collections::BTreeMap;
use serde::{Serialize, de::DeserializeOwned};
use std::fmt::Debug;

pub fn shape_key<T: Debug>(t: &T) -> String {
    // Shape of a value: its Debug text with every literal collapsed.
    let s = format!("{t:?}");
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '"' => {
                while let Some(d) = it.next() {
                    if d == '\\' {
                        it.next();
                    } else if d == '"' {
                        break;
                    }
                }
                o.push('s');
            }
            '0'..='9' | '-' => {
                while it.peek().is_some_and(|c| c.is_ascii_digit() || *c == '.' || *c == 'e' || *c == '-') {
                    it.next();
                }
                o.push('n');
            }
            ' ' => {}
            c => o.push(c),
        }
    }
    o
}
fn facet_rt<T: Sample + Facet<'static> + Debug + PartialEq>(c: &mut Case, ty: &str) {
    let d = c.r.range(1, 4);
    FACET.with(|f| f.set(true));
    let v = T::sample(&mut c.r, d);
    FACET.with(|f| f.set(false));
    let o = options(&mut c.r);
    let outs = [
        ("default", c.guard(|| facet_styx::to_string(&v).map_err(|e| e.to_string()))),
        ("compact", c.guard(|| facet_styx::to_string_compact(&v).map_err(|e| e.to_string()))),
        ("options", c.guard(|| facet_styx::to_string_with_options(&v, &o).map_err(|e| e.to_string()))),
    ];
    for (what, out) in outs {
        // Compact text has nowhere to put doc comments.
        if ty == "Noted" && what == "compact" {
            continue;
        }
        let shown = format!("{v:?}");
        let text = match out {
            Err(m) => {
                c.fail(format!("{ty}:{what}:panic"), m, &shown);
                continue;
            }
            Ok(Err(m)) => {
                c.fail(format!("{ty}:{what}:refused"), m, &shown);
                continue;
            }
            Ok(Ok(t)) => t,
        };
        // Compact text is an expression (braces kept), not a document.
        if what != "compact" {
            if let Err(m) = real::tree(&text) {
                c.fail(format!("{ty}:{what}:invalid-text"), format!("{m}\n{text}\nvalue {shown}"), &text);
                continue;
            }
        }
        c.count(what);
        // An explicit `@` as an entry's value does not read as None: finding none-as-unit.
        let text = if ty == "Raws" { text } else { implicit_units(&text) };
        match c.guard(|| facet_styx::from_str::<T>(&text).map_err(|e| e.to_string())) {
            Err(m) => c.fail(format!("{ty}:{what}:read-panic"), m, &text),
            Ok(Err(m)) => c.fail(format!("{ty}:{what}:unreadable"), format!("{m}\n{text}\nvalue {shown}"), &text),
            Ok(Ok(back)) if back != v => {
                c.fail(format!("{ty}:{what}:differs"), format!("wrote {v:?}\nread  {back:?}\n{text}"), &text)
            }
            Ok(Ok(_)) => {}
        }
    }
    c.count(ty);
    let k = format!("{ty}:{}", shape_key(&v));
    c.eval(Some(&k));
    c.sample(&k);
}
/// A bare word the untyped serde reader takes for something else than a string.
fn ambiguous(y: &str) -> bool {
    matches!(y, "true" | "false" | "null") || y.parse::<f64>().is_ok()
}
fn serde_rt<T: Sample + Facet<'static> + Serialize + DeserializeOwned + 'static + Debug + PartialEq>(c: &mut Case, ty: &str) {
    let d = c.r.range(1, 4);
    // Half the values stay within what both integrations can carry.
    let both = c.r.pct(50) && ty != "OptSeq";
    FACET.with(|f| f.set(both));
    let v = T::sample(&mut c.r, d);
    FACET.with(|f| f.set(false));
    // Finding flatten-number-like-string.
    if let Some(f) = (&v as &dyn std::any::Any).downcast_ref::<Flat>()
        && ambiguous(&f.inner.y)
    {
        return c.count("skipped:flat");
    }
    let o = options(&mut c.r);
    let outs = [
        ("default", c.guard(|| serde_styx::to_string(&v).map_err(|e| e.to_string()))),
        ("compact", c.guard(|| serde_styx::to_string_compact(&v).map_err(|e| e.to_string()))),
        ("options", c.guard(|| serde_styx::to_string_with_options(&v, &o).map_err(|e| e.to_string()))),
    ];
    for (what, out) in outs {
        let shown = format!("{v:?}");
        let text = match out {
            Err(m) => {
                c.fail(format!("{ty}:{what}:panic"), m, &shown);
                continue;
            }
            Ok(Err(m)) => {
                c.fail(format!("{ty}:{what}:refused"), m, &shown);
                continue;
            }
            Ok(Ok(t)) => t,
        };
        if what != "compact" {
            if let Err(m) = real::tree(&text) {
                c.fail(format!("{ty}:{what}:invalid-text"), format!("{m}\n{text}\nvalue {shown}"), &text);
                continue;
            }
        }
        c.count(what);
        match c.guard(|| serde_styx::from_str::<T>(&text).map_err(|e| e.to_string())) {
            Err(m) => c.fail(format!("{ty}:{what}:read-panic"), m, &text),
            Ok(Err(m)) => c.fail(format!("{ty}:{what}:unreadable"), format!("{m}\n{text}\nvalue {shown}"), &text),
            Ok(Ok(back)) if back != v => {
                c.fail(format!("{ty}:{what}:differs"), format!("wrote {v:?}\nread  {back:?}\n{text}"), &text)
            }
            Ok(Ok(_)) => {}
        }
        if both {
            let text = implicit_units(&text);
            c.count("serde-to-facet");
            match c.guard(|| facet_styx::from_str::<T>(&text).map_err(|e| e.to_string())) {
                Ok(Ok(back)) if back == v => {}
                o => c.fail(format!("{ty}:{what}:facet"), format!("facet reads {o:?}\n{text}\nvalue {shown}"), &text),
            }
        }
    }
    if both {
        if let Ok(text) = facet_styx::to_string(&v) {
            c.count("facet-to-serde");
            match c.guard(|| serde_styx::from_str::<T>(&text).map_err(|e| e.to_string())) {
                Ok(Ok(back)) if back == v => {}
                o => c.fail(format!("{ty}:from-facet"), format!("serde reads {o:?}\n{text}\nvalue {v:?}"), &text),
            }
        }
    }
    c.count(ty);
    let k = format!("{ty}:{}", shape_key(&v));
    c.eval(Some(&k));
    c.sample(&k);
}
#[macro_export]
macro_rules! types {
    ($name:ident, $tys:ident, $rt:ident, [$($t:ident),* $(,)?]) => {
        pub const $tys: &[&str] = &[$(stringify!($t)),*];
        pub fn $name(c: &mut Case) {
            let i = c.r.below($tys.len());
            let mut n = 0;
            $(
                if i == n {
                    return $rt::<$t>(c, stringify!($t));
                }
                n += 1;
            )*
            let _ = n;
        }
    };
}
types!(c13_roundtrip, C13_TYPES, facet_rt, [
    Ints, Wide, Floats, Texts, Optional, Small, Lists, Maps, Renamed, Deep, Middle, Flat, Enums, Nests, Tree, Units, Empty,
    Defaults, Config, Tuples, Sets, Keyed, Noted, Untagged, Internals, Adjacents, Numerics, Proxied, EnumKeys, MaybeFlat, OddKeys, Raws,
]);
types!(c14_roundtrip, C14_TYPES, serde_rt, [
    OptSeq,
    Ints, Wide, Floats, Texts, Optional, Small, Lists, Maps, Renamed, Deep, Middle, Flat, Enums, Nests, Tree, Units, Empty,
    Defaults, Config, Tuples, Sets, Keyed, EnumKeys,
]);
fn facet_expr<T: Sample + Facet<'static> + Debug + PartialEq>(c: &mut Case, ty: &str) {
    let d = c.r.range(1, 4);
    FACET.with(|f| f.set(true));
    let v = T::sample(&mut c.r, d);
    FACET.with(|f| f.set(false));
    let outs = [
        ("compact", c.guard(|| facet_styx::to_string_compact(&v).map_err(|e| e.to_string()))),
        ("peek", c.guard(|| facet_styx::peek_to_string_expr(facet_reflect::Peek::new(&v)).map_err(|e| e.to_string()))),
    ];
    let shown = format!("{v:?}");
    for (what, out) in outs {
        let text = match out {
            Err(m) => {
                c.fail(format!("expr:{ty}:{what}:panic"), m, &shown);
                continue;
            }
            Ok(Err(m)) => {
                c.fail(format!("expr:{ty}:{what}:refused"), m, &shown);
                continue;
            }
            Ok(Ok(t)) => t,
        };
        c.count(&format!("expr:{what}"));
        let text = implicit_units(&format!("k {text}"))[2..].to_string();
        match c.guard(|| facet_styx::from_str_expr::<T>(&text).map_err(|e| e.to_string())) {
            Err(m) => c.fail(format!("expr:{ty}:{what}:read-panic"), m, &text),
            Ok(Err(m)) => c.fail(format!("expr:{ty}:{what}:unreadable"), format!("{m}\n{text}\nvalue {shown}"), &text),
            Ok(Ok(back)) if back != v => {
                c.fail(format!("expr:{ty}:{what}:differs"), format!("wrote {v:?}\nread  {back:?}\n{text}"), &text)
            }
            Ok(Ok(_)) => {}
        }
    }
    c.count(&format!("expr:{ty}"));
    let k = format!("expr:{ty}:{}", shape_key(&v));
    c.eval(Some(&k));
    c.sample(&k);
}
type Words = Vec<String>;
type Numbers = Vec<f64>;
type ShapeMap = BTreeMap<String, Shape>;
types!(c13_expr, C13_EXPR, facet_expr, [
    Words, Numbers, ShapeMap, Shape, Nest, Level, Pair, Name, Small, Config, i64, u128, f64, String, bool, char,
]);
pub fn c13() -> Spec {
    Spec {
        prop: "C13",
        rule: "a value of one of the sample types, written in default, compact and random-option form, checked to be a document and read again. Distinct by type and value shape",
        streams: vec![Stream { name: "roundtrip", f: c13_roundtrip, quick: 400_000, thorough: 10_000_000 },
            Stream { name: "expr", f: c13_expr, quick: 200_000, thorough: 5_000_000 }],
        must: C13_TYPES,
    }
}
pub fn c14() -> Spec {
    Spec {
        prop: "C14",
        rule: "a value of one of the sample types, written by serde_styx in default, compact and random-option form, checked to be a document and read again. Distinct by type and value shape",
        streams: vec![Stream { name: "roundtrip", f: c14_roundtrip, quick: 500_000, thorough: 10_000_000 }],
        must: C14_TYPES,
    }
}
#[allow(unused)]
fn unused(_: &mut Rng) {}
