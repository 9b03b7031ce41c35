//! C17: schemas generated from Rust types, against what those types serialize to.
use super::front::options;
use super::types::*;
use crate::mkdoc;
use crate::rng::Rng;
use crate::run::*;
use facet::Facet;
use facet_styx::{SchemaFile, ValidationError};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::rc::Rc;

macro_rules! strukt {
    ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Facet)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        impl Sample for $n {
            #[allow(unused)]
            fn sample(r: &mut Rng, d: usize) -> Self {
                $n { $($f: <$t>::sample(r, d.saturating_sub(1))),* }
            }
        }
    };
}
/// Keys of flattened maps: never the name of a field, never empty.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Facet, Serialize, Deserialize)]
#[facet(transparent)]
pub struct Extra(pub String);
impl Sample for Extra {
    fn sample(r: &mut Rng, _: usize) -> Self {
        Extra(format!("k-{}", mkdoc::text(r, 50, true)))
    }
}
strukt!(FlatMap { id: i32, #[facet(flatten)] rest: BTreeMap<Extra, Small> });
strukt!(FlatText { id: i32, #[facet(flatten)] rest: HashMap<Extra, String> });
strukt!(
    /// Two levels of flattening.
    FlatDeep { id: u8, #[facet(flatten)] mid: FlatMid, list: Vec<FlatMid> }
);
strukt!(FlatMid { kind: Level, #[facet(flatten)] small: Small, opt: Option<f64> });
#[derive(Debug, Clone, PartialEq, Facet)]
pub struct Gen<T> {
    pub value: T,
    pub more: Vec<T>,
}
impl<T: Sample> Sample for Gen<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Gen { value: T::sample(r, d), more: Sample::sample(r, d) }
    }
}
strukt!(Generics { a: Gen<i32>, b: Gen<String>, c: Vec<Gen<bool>>, d: Option<Gen<Small>> });
mod other {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Facet)]
    pub struct Small {
        pub title: String,
        pub flag: bool,
    }
    impl Sample for Small {
        fn sample(r: &mut Rng, d: usize) -> Self {
            Small { title: Sample::sample(r, d), flag: Sample::sample(r, d) }
        }
    }
}
strukt!(Namesakes { a: Small, b: other::Small, c: Vec<other::Small> });
strukt!(Pointers { a: Box<Small>, b: std::sync::Arc<String>, c: Box<i32>, d: Vec<Box<Level>>, e: Option<Box<Pointers>> });
#[derive(Debug, Clone, PartialEq, Facet)]
pub struct Skips {
    pub a: i32,
    #[facet(skip_serializing_if = String::is_empty, default)]
    pub b: String,
    #[facet(skip, default)]
    pub c: i32,
    #[facet(default = 7)]
    pub d: u8,
    #[facet(default = Level::InfoMore)]
    pub e: Level,
}
impl Sample for Skips {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Skips { a: Sample::sample(r, d), b: Sample::sample(r, d), c: 0, d: Sample::sample(r, d), e: Sample::sample(r, d) }
    }
}
impl<T: Sample> Sample for std::sync::Arc<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        std::sync::Arc::new(T::sample(r, d))
    }
}
#[derive(Debug, Clone, PartialEq, Facet)]
#[repr(u8)]
pub enum Payloads {
    Bare,
    Unit(()),
    Flag(bool),
    Ch(char),
    Opt(Option<String>),
    Boxed(Box<Small>),
    Nested(Level),
    Many(Vec<Small>),
    Dict(BTreeMap<String, Level>),
    Three(i8, String, Option<bool>),
    #[facet(rename = "odd-one")]
    Odd { #[facet(rename = "in.side")] x: i32, #[facet(flatten)] s: Small },
    Back(Box<Payloads>),
}
impl Sample for Payloads {
    fn sample(r: &mut Rng, d: usize) -> Self {
        let n = if d == 0 { 3 } else { 12 };
        let d = d.saturating_sub(1);
        match r.below(n) {
            0 => Self::Bare,
            1 => Self::Unit(()),
            2 => Self::Flag(Sample::sample(r, d)),
            3 => Self::Ch(Sample::sample(r, d)),
            4 => Self::Opt(Sample::sample(r, d)),
            5 => Self::Boxed(Sample::sample(r, d)),
            6 | 11 if no_chain() => Self::Bare,
            6 => Self::Nested(Sample::sample(r, d)),
            7 => Self::Many(Sample::sample(r, d)),
            8 => Self::Dict(Sample::sample(r, d)),
            9 => Self::Three(Sample::sample(r, d), Sample::sample(r, d), Sample::sample(r, d)),
            10 => Self::Odd { x: Sample::sample(r, d), s: Sample::sample(r, d) },
            _ => Self::Back(Sample::sample(r, d)),
        }
    }
}
strukt!(Variants { a: Payloads, b: Vec<Payloads>, c: BTreeMap<Level, i32>, d: Option<Payloads> });
strukt!(Docs {
    /// A documented field with "quotes", a { brace and a \ backslash.
    a: i32,
    ///    indented doc
    ///
    /// and a second paragraph // not a comment
    b: Option<String>,
    /// doc on a struct
    c: Small,
});

#[derive(Debug, Clone, PartialEq, Facet)]
pub struct Plain(pub i32);
impl Sample for Plain {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Plain(Sample::sample(r, d))
    }
}
#[derive(Debug, Clone, PartialEq, Facet)]
pub struct Nothing;
impl Sample for Nothing {
    fn sample(_: &mut Rng, _: usize) -> Self {
        Nothing
    }
}
strukt!(Newtypes { a: Plain, b: Vec<Plain>, c: Option<Plain>, d: Nothing, e: Box<(Plain, bool)> });
strukt!(Std { p: std::path::PathBuf, c: std::borrow::Cow<'static, str>, v: Vec<std::sync::Arc<str>> });
impl Sample for std::path::PathBuf {
    fn sample(r: &mut Rng, d: usize) -> Self {
        String::sample(r, d).into()
    }
}
impl Sample for std::borrow::Cow<'static, str> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        String::sample(r, d).into()
    }
}

impl Sample for std::sync::Arc<str> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        String::sample(r, d).into()
    }
}

struct Gend {
    text: String,
    parsed: Result<SchemaFile, String>,
    direct: SchemaFile,
}
thread_local! {
    static MADE: RefCell<HashMap<&'static str, Result<Rc<Gend>, String>>> = RefCell::new(HashMap::new());
}
fn made<T: Facet<'static>>(c: &mut Case, ty: &'static str) -> Option<Rc<Gend>> {
    if let Some(g) = MADE.with(|m| m.borrow().get(ty).cloned()) {
        return g.ok();
    }
    let g = c.guard(|| {
        let text = facet_styx::schema_from_type::<T>();
        let parsed = facet_styx::from_str::<SchemaFile>(&text).map_err(|e| e.to_string());
        Rc::new(Gend { parsed, direct: facet_styx::schema_file_from_type::<T>(), text })
    });
    MADE.with(|m| m.borrow_mut().insert(ty, g.clone()));
    g.ok()
}
fn check(c: &mut Case, ty: &str, which: &str, text: &str, s: &SchemaFile) -> Option<Vec<ValidationError>> {
    let tree = match styx_tree::parse(text) {
        Ok(t) => t,
        Err(e) => {
            c.fail(format!("{ty}:invalid-text"), e.to_string(), text);
            return None;
        }
    };
    match c.guard(|| facet_styx::validate(&tree, s)) {
        Ok(r) => Some(r.errors),
        Err(m) => {
            c.fail(format!("{ty}:{which}:panic"), m, text);
            None
        }
    }
}
/// Fields a document of the type must have, by the type's own declaration; fields of exact kinds.
fn facts(ty: &str) -> (&'static [&'static str], &'static [(&'static str, &'static str)], bool) {
    match ty {
        "Ints" => (&["a", "b", "c", "d", "e", "f", "g", "h", "i"], &[("a", "true"), ("h", "\"1 2\""), ("d", "{x 1}"), ("b", "(1)"), ("e", "@tag")], true),
        "Small" => (&["x", "y"], &[("x", "word"), ("y", "{}"), ("y", "(a)")], true),
        "Config" => (&["name", "port", "level", "tags", "env"], &[("port", "word"), ("level", "@unheard-of"), ("level", "{}"), ("tags", "a"), ("opt", "word"), ("env", "(a b)"), ("env", "{a (b)}"), ("inner", "{x word, y a}"), ("inner", "{x 1}"), ("tags", "(a {})")], true),
        "Lists" => (&["a", "b", "c", "e", "f"], &[("a", "(x)"), ("c", "({x 1})"), ("e", "(1)"), ("e", "(1 a b)"), ("e", "(x a)"), ("f", "((a 1))"), ("b", "(a)")], true),
        "Enums" => (&["a", "b", "d", "e", "f"], &[("a", "@unheard-of"), ("e", "@debug{x 1}"), ("a", "@one-int{x word}"), ("a", "@two(1)"), ("a", "@fields{width 1}"), ("f", "(@debug @unheard-of)"), ("a", "@one-struct{x 1}")], true),
        "Deep" => (&["name", "inner", "list"], &[("inner", "{id 1, tags (), kind @unheard-of}"), ("list", "({id 1})"), ("inner", "{id word, tags (), kind @nothing}")], true),
        "Flat" => (&["id", "x", "y", "tail"], &[("x", "word"), ("y", "{}")], true),
        "FlatDeep" => (&["id", "kind", "x", "y", "list"], &[("kind", "@unheard-of"), ("list", "({kind @r})"), ("opt", "word")], true),
        "FlatMap" => (&["id"], &[("other", "word"), ("other", "{x 1}"), ("id", "word")], false),
        "FlatText" => (&["id"], &[("other", "{}"), ("id", "word")], false),
        "Generics" => (&["a", "b", "c"], &[("a", "{value word, more ()}"), ("a", "{value 1}"), ("b", "{value {}, more ()}"), ("c", "({value 1, more ()})")], true),
        "Namesakes" => (&["a", "b", "c"], &[("a", "{title t, flag true}"), ("b", "{x 1, y a}"), ("c", "({title t, flag 1})")], true),
        "Defaults" => (&[], &[("a", "word"), ("c", "(x)"), ("d", "word")], true),
        "Tuples" => (&["p", "v", "n", "ns"], &[("p", "(1)"), ("p", "(word a)"), ("v", "((1 a) 2)"), ("n", "{}")], true),
        "Skips" => (&["a"], &[("d", "word"), ("e", "@unheard-of"), ("b", "{}")], true),
        "Variants" => (&["a", "b", "c"], &[("a", "@Unheard"), ("a", "@Flag\"word\""), ("a", "@odd-one{\"in.side\" 1}"), ("a", "@Three(1)"), ("b", "(@Bare @Nested@nope)")], true),
        _ => (&[], &[], false),
    }
}
fn accepts<T: Sample + Facet<'static> + Debug>(c: &mut Case, ty: &'static str) {
    let Some(g) = made::<T>(c, ty) else {
        return c.fail(format!("{ty}:generate-panic"), "schema generation panicked", ty);
    };
    let parsed = match &g.parsed {
        Ok(p) => p,
        Err(e) => return c.fail(format!("{ty}:not-a-schema"), format!("{e}\n{}", g.text), &g.text),
    };
    let d = c.r.range(1, 4);
    FINITE.with(|f| f.set(true));
    // Finding tag-chain.
    NO_CHAIN.with(|f| f.set(true));
    let v = T::sample(&mut c.r, d);
    FINITE.with(|f| f.set(false));
    NO_CHAIN.with(|f| f.set(false));
    let o = options(&mut c.r);
    let mut last = None;
    for (what, out) in [
        ("default", c.guard(|| facet_styx::to_string(&v).map_err(|e| e.to_string()))),
        ("options", c.guard(|| facet_styx::to_string_with_options(&v, &o).map_err(|e| e.to_string()))),
    ] {
        // Whether it can be written is C13's business.
        let Ok(Ok(text)) = out else { continue };
        let mut ok = true;
        for (which, s) in [("text", parsed), ("direct", &g.direct)] {
            let Some(errs) = check(c, ty, which, &text, s) else { return };
            if let Some(e) = errs.first() {
                ok = false;
                c.fail(format!("{ty}:{which}:{}", kind(e)), format!("{} at {:?}\n=== {what} text\n{text}\n=== schema\n{}", e.message, e.path, g.text), &text);
            } else {
                c.count(which);
            }
        }
        if ok {
            last = Some(text);
        }
    }
    c.count(ty);
    let k = format!("{ty}:{}", super::typed::shape_key(&v));
    c.eval(Some(&k));
    c.sample(&k);
    if let Some(text) = last {
        refuses(c, ty, &g, parsed, &text);
    }
}
fn kind(e: &ValidationError) -> String {
    format!("{:?}", e.kind).split(['(', ' ', '{']).next().unwrap_or("").to_string()
}
/// One change to the accepted text that makes it something no value of the type is written as.
fn refuses(c: &mut Case, ty: &str, g: &Gend, parsed: &SchemaFile, text: &str) {
    let (need, wrong, closed) = facts(ty);
    let Ok(mut t) = styx_tree::parse(text) else { return };
    let Some(styx_tree::Payload::Object(o)) = &mut t.payload else { return };
    let at = |o: &styx_tree::Object, k: &str| o.entries.iter().position(|e| e.key.as_str() == Some(k) && e.key.tag.is_none());
    let n = c.r.below(3);
    let how;
    if n == 0 && !need.is_empty() {
        let k = *c.r.pick(need);
        let Some(i) = at(o, k) else {
            return c.fail(format!("{ty}:lacks:{k}"), format!("the written text has no `{k}`"), text);
        };
        o.entries.remove(i);
        how = format!("without {k}");
    } else if n == 1 && !wrong.is_empty() {
        let (k, w) = *c.r.pick(wrong);
        let w = styx_tree::parse(&format!("k {w}")).unwrap().get("k").unwrap().clone();
        let shown = format!("{k} {w:?}");
        match at(o, k) {
            Some(i) => o.entries[i].value = w,
            None => {
                let e = styx_tree::parse(&format!("\"{k}\" 1")).unwrap();
                let Some(styx_tree::Payload::Object(x)) = e.payload else { return };
                let mut x = x.entries.into_iter().next().unwrap();
                x.value = w;
                o.entries.push(x);
            }
        }
        how = shown;
    } else if n == 2 && closed {
        let e = styx_tree::parse("zz-unheard-of 1").unwrap();
        let Some(styx_tree::Payload::Object(x)) = e.payload else { return };
        o.entries.extend(x.entries);
        how = "an unknown field".to_string();
    } else {
        return;
    }
    for (which, s) in [("text", parsed), ("direct", &g.direct)] {
        match c.guard(|| facet_styx::validate(&t, s)) {
            Err(m) => c.fail(format!("{ty}:{which}:panic"), m, text),
            Ok(r) if r.errors.is_empty() => {
                c.fail(format!("{ty}:{which}:accepts"), format!("accepted {how}\n=== text\n{text}\n=== schema\n{}", g.text), text)
            }
            Ok(_) => c.count("refused"),
        }
    }
}
crate::types!(c17_types, C17_TYPES, accepts, [
    Ints, Wide, Floats, Texts, Optional, Small, Lists, Maps, Renamed, Deep, Middle, Flat, Enums, Nests, Tree, Units, Empty,
    Defaults, Config, Tuples, Sets, Keyed, Noted, OptSeq, FlatMap, FlatText, FlatDeep, FlatMid, Generics, Namesakes, Pointers,
    Skips, Variants, Docs, Untagged, Internals, Adjacents, Numerics, Proxied, EnumKeys, MaybeFlat, Newtypes, Std,
]);
pub fn c17() -> Spec {
    Spec {
        prop: "C17",
        rule: "a value of one of the sample types, written in default and random-option form, validated against the schema generated for the type, both as text read back and as the in-memory schema; and one change that no value of the type has, which must be reported. Distinct by type and value shape",
        streams: vec![Stream { name: "types", f: c17_types, quick: 300_000, thorough: 8_000_000 }],
        must: C17_TYPES,
    }
}
