//! Rust types carried through the typed APIs, with value generators.
use crate::mkdoc;
use crate::rng::Rng;
use crate::run::*;
use facet::Facet;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

thread_local! {
    /// Set while sampling values facet-format cannot read back (see known findings):
    /// newtype variants holding a list, None inside a sequence.
    pub static FACET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
thread_local! {
    /// Set while sampling values without infinities, which @float does not cover.
    /// Set while sampling values without a tag inside a tag, which trees do not hold.
    pub static NO_CHAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static FINITE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn no_chain() -> bool {
    NO_CHAIN.with(|f| f.get())
}
pub fn facet_only() -> bool {
    FACET.with(|f| f.get())
}
pub trait Sample: Sized {
    fn sample(r: &mut Rng, d: usize) -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Sample for $t {
            fn sample(r: &mut Rng, _: usize) -> Self {
                match r.below(6) {
                    0 => <$t>::MIN,
                    1 => <$t>::MAX,
                    2 => 0 as $t,
                    3 => (r.below(200) as i64 - 100) as $t,
                    _ => (r.next() >> r.below(64)) as $t,
                }
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize);
macro_rules! wide {
    ($($t:ty),*) => {$(
        impl Sample for $t {
            fn sample(r: &mut Rng, _: usize) -> Self {
                match r.below(6) {
                    0 => <$t>::MIN,
                    1 => <$t>::MAX,
                    2 => 0 as $t,
                    3 => u64::MAX as $t + r.below(3) as $t,
                    4 => i64::MIN as $t,
                    _ => ((((r.next() as u128) << 64) | r.next() as u128) >> r.below(128)) as $t,
                }
            }
        }
    )*};
}
wide!(i128, u128);
impl Sample for bool {
    fn sample(r: &mut Rng, _: usize) -> Self {
        r.pct(50)
    }
}
impl Sample for f64 {
    fn sample(r: &mut Rng, _: usize) -> Self {
        if FINITE.with(|f| f.get()) {
            let f = f64::from_bits(r.next());
            return if f.is_finite() && r.pct(50) { f } else { r.below(1000) as f64 / 8.0 };
        }
        match r.below(10) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::MAX,
            3 => f64::MIN_POSITIVE,
            4 => f64::INFINITY,
            5 => f64::NEG_INFINITY,
            6 => r.below(1000) as f64,
            7 => (r.below(2000) as f64 - 1000.0) / 8.0,
            _ => {
                let f = f64::from_bits(r.next());
                if f.is_nan() { 1.5 } else { f }
            }
        }
    }
}
impl Sample for f32 {
    fn sample(r: &mut Rng, _: usize) -> Self {
        if FINITE.with(|f| f.get()) {
            let f = f32::from_bits(r.next() as u32);
            return if f.is_finite() && r.pct(50) { f } else { r.below(1000) as f32 / 8.0 };
        }
        match r.below(6) {
            0 => 0.0,
            1 => f32::MAX,
            2 => f32::NEG_INFINITY,
            3 => r.below(1000) as f32 / 4.0,
            _ => {
                let f = f32::from_bits(r.next() as u32);
                if f.is_nan() { 1.5 } else { f }
            }
        }
    }
}
impl Sample for char {
    fn sample(r: &mut Rng, _: usize) -> Self {
        match r.below(3) {
            0 => *r.pick(&['a', '"', '\\', '\n', ' ', '@', '{', '(', ',', '>', '#', '/', '\t', '\r', '\0', 'é', '😀', '\u{ffff}', '\u{f0001}', '\u{10ffff}', '\u{2028}']),
            1 => (32 + r.below(95)) as u8 as char,
            _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('x'),
        }
    }
}
impl Sample for String {
    fn sample(r: &mut Rng, _: usize) -> Self {
        let n = *r.pick(&[0usize, 50, 100]);
        let mut s = mkdoc::text(r, n, true);
        if r.pct(5) {
            s = mkdoc::heredoc_text(r, n, true);
        }
        if r.pct(3) {
            s.push_str("\nEOF\n");
        }
        if r.pct(3) {
            s = format!("{s}\n{s}\n\n  {s}\n");
        }
        s
    }
}
impl Sample for () {
    fn sample(_: &mut Rng, _: usize) -> Self {}
}
impl<T: Sample> Sample for Option<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        if r.pct(40) { None } else { Some(T::sample(r, d)) }
    }
}
impl<T: Sample> Sample for Box<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Box::new(T::sample(r, d))
    }
}
fn len(r: &mut Rng, d: usize) -> usize {
    if d == 0 {
        return 0;
    }
    match r.below(8) {
        0 | 1 => 0,
        2 => 1,
        3 => 12.min(3 * d),
        _ => r.range(1, 4),
    }
}
impl<T: Sample> Sample for Vec<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        (0..len(r, d)).map(|_| T::sample(r, d - 1)).collect()
    }
}
impl<T: Sample + Ord> Sample for BTreeSet<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        (0..len(r, d)).map(|_| T::sample(r, d - 1)).collect()
    }
}
impl<T: Sample + Eq + std::hash::Hash> Sample for HashSet<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        (0..len(r, d)).map(|_| T::sample(r, d - 1)).collect()
    }
}
impl<T: Sample, const N: usize> Sample for [T; N] {
    fn sample(r: &mut Rng, d: usize) -> Self {
        std::array::from_fn(|_| T::sample(r, d))
    }
}
impl<K: Sample + Ord, V: Sample> Sample for BTreeMap<K, V> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        (0..len(r, d)).map(|_| (K::sample(r, d - 1), V::sample(r, d - 1))).collect()
    }
}
impl<K: Sample + std::hash::Hash + Eq, V: Sample> Sample for HashMap<K, V> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        (0..len(r, d)).map(|_| (K::sample(r, d - 1), V::sample(r, d - 1))).collect()
    }
}
impl<A: Sample, B: Sample> Sample for (A, B) {
    fn sample(r: &mut Rng, d: usize) -> Self {
        (A::sample(r, d), B::sample(r, d))
    }
}
impl<A: Sample, B: Sample, C: Sample> Sample for (A, B, C) {
    fn sample(r: &mut Rng, d: usize) -> Self {
        (A::sample(r, d), B::sample(r, d), C::sample(r, d))
    }
}
macro_rules! strukt {
    ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Facet, Serialize, Deserialize)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        impl Sample for $n {
            #[allow(unused)]
            fn sample(r: &mut Rng, d: usize) -> Self {
                $n { $($f: <$t>::sample(r, d.saturating_sub(1))),* }
            }
        }
    };
}
strukt!(Ints { a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: usize });
strukt!(Wide { a: i128, b: u128 });
strukt!(Floats { a: f64, b: f32, c: Vec<f64> });
strukt!(Texts { s: String, c: char, b: bool, v: Vec<String> });
strukt!(Optional { a: Option<String>, b: Option<i64>, c: Option<bool>, d: Option<Vec<String>>, e: Option<Small> });
strukt!(Small { x: i32, y: String });
strukt!(Lists { a: Vec<i64>, b: Vec<Vec<String>>, c: Vec<Small>, e: (i32, String), f: Vec<(String, bool)> });
strukt!(OptSeq { d: Vec<Option<i32>>, e: (Option<String>, i32) });
#[derive(Debug, Clone, PartialEq, Facet, Serialize, Deserialize)]
pub struct Pair(pub i32, pub String);
impl Sample for Pair {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Pair(Sample::sample(r, d), Sample::sample(r, d))
    }
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Facet, Serialize, Deserialize)]
#[facet(transparent)]
#[serde(transparent)]
pub struct Name(pub String);
impl Sample for Name {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Name(Sample::sample(r, d))
    }
}
strukt!(Tuples { p: Pair, v: Vec<Pair>, n: Name, ns: Vec<Name>, o: Option<Name> });
strukt!(Sets { a: BTreeSet<String>, b: HashSet<i64>, c: BTreeSet<char>, d: [i32; 3], e: [Small; 2] });
strukt!(Keyed { a: BTreeMap<i32, String>, b: BTreeMap<u64, bool>, c: BTreeMap<String, (i32, String)>, d: BTreeMap<bool, i32>, e: BTreeMap<char, i32> });
/// Doc comments carried as data.
#[derive(Debug, Clone, Facet)]
pub struct Noted {
    pub a: facet_styx::Documented<i32>,
    pub b: facet_styx::Documented<String>,
    pub d: NotedInner,
}
#[derive(Debug, Clone, Facet)]
pub struct NotedInner {
    pub x: facet_styx::Documented<u8>,
    pub y: facet_styx::Documented<String>,
    #[facet(rename = "renamed-note")]
    pub z: facet_styx::Documented<u8>,
    #[facet(rename = "odd key")]
    pub w: facet_styx::Documented<Vec<String>>,
    #[facet(rename = "#quo,te{")]
    pub v: facet_styx::Documented<Option<i64>>,
}
impl PartialEq for Noted {
    fn eq(&self, o: &Self) -> bool {
        format!("{self:?}") == format!("{o:?}")
    }
}
impl<T: Sample> Sample for facet_styx::Documented<T> {
    fn sample(r: &mut Rng, d: usize) -> Self {
        let v = T::sample(r, d);
        if r.pct(40) {
            return Self::new(v);
        }
        let n = r.range(1, 3);
        let doc = (0..n).map(|_| mkdoc::text(r, 50, true).replace(['\n', '\r'], " ").trim_end().to_string()).collect();
        Self::with_doc(v, doc)
    }
}
impl Sample for NotedInner {
    fn sample(r: &mut Rng, d: usize) -> Self {
        NotedInner { x: Sample::sample(r, d), y: Sample::sample(r, d), z: Sample::sample(r, d), w: Sample::sample(r, d), v: Sample::sample(r, d) }
    }
}
impl Sample for Noted {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Noted { a: Sample::sample(r, d), b: Sample::sample(r, d), d: Sample::sample(r, d) }
    }
}
strukt!(Maps { a: HashMap<String, String>, b: BTreeMap<String, i64>, c: BTreeMap<String, Vec<String>>, d: BTreeMap<String, Small>, e: BTreeMap<String, Option<String>>, f: BTreeMap<String, BTreeMap<String, bool>> });
strukt!(Renamed {
    #[facet(rename = "odd key")] #[serde(rename = "odd key")] a: i32,
    #[facet(rename = "dotted.key")] #[serde(rename = "dotted.key")] b: String,
    #[facet(rename = "@at")] #[serde(rename = "@at")] c: bool,
    #[facet(rename = "#quo,te{")] #[serde(rename = "#quo,te{")] d: String,
    #[facet(rename = "é")] #[serde(rename = "é")] e: i32,
    #[facet(rename = "")] #[serde(rename = "")] f: i32,
});
strukt!(Deep { name: String, inner: Box<Middle>, list: Vec<Middle> });
strukt!(Middle { id: u32, leaf: Option<Small>, tags: Vec<String>, kind: Shape });
strukt!(Flat { id: i32, #[facet(flatten)] #[serde(flatten)] inner: Small, tail: String });
#[derive(Debug, Clone, PartialEq, Facet, Serialize, Deserialize)]
#[facet(rename_all = "kebab-case")]
#[serde(rename_all = "kebab-case")]
#[repr(u8)]
pub enum Shape {
    Nothing,
    OneInt(i64),
    OneText(String),
    OneList(Vec<i32>),
    OneStruct(Small),
    Two(i32, String),
    Fields { width: f64, label: String, opt: Option<i32> },
    OneOpt(Option<i32>),
    OneMap(BTreeMap<String, i32>),
}
impl Sample for Shape {
    fn sample(r: &mut Rng, d: usize) -> Self {
        let d = d.saturating_sub(1);
        match r.below(9) {
            0 => Shape::Nothing,
            1 => Shape::OneInt(Sample::sample(r, d)),
            2 => Shape::OneText(Sample::sample(r, d)),
            3 if facet_only() => Shape::OneInt(3),
            3 => Shape::OneList(Sample::sample(r, d)),
            4 => Shape::OneStruct(Sample::sample(r, d)),
            5 => Shape::Two(Sample::sample(r, d), Sample::sample(r, d)),
            6 => Shape::Fields { width: Sample::sample(r, d), label: Sample::sample(r, d), opt: Sample::sample(r, d) },
            7 => Shape::OneOpt(Sample::sample(r, d)),
            _ => Shape::OneMap(Sample::sample(r, d)),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Facet, Serialize, Deserialize)]
#[repr(u8)]
pub enum Nest {
    Leaf,
    Wrap(Shape),
    Again(Box<Nest>),
    Many(Vec<Nest>),
    Rec { left: Option<Box<Nest>>, right: Shape },
}
impl Sample for Nest {
    fn sample(r: &mut Rng, d: usize) -> Self {
        if d == 0 {
            return Nest::Leaf;
        }
        let d = d - 1;
        match r.below(5) {
            0 => Nest::Leaf,
            1 | 2 if no_chain() => Nest::Many(Sample::sample(r, d)),
            1 => Nest::Wrap(Sample::sample(r, d)),
            2 => Nest::Again(Sample::sample(r, d)),
            3 if facet_only() => Nest::Leaf,
            3 => Nest::Many(Sample::sample(r, d)),
            _ => Nest::Rec { left: Sample::sample(r, d), right: Sample::sample(r, d) },
        }
    }
}
strukt!(Enums { a: Shape, b: Vec<Shape>, c: Option<Shape>, d: BTreeMap<String, Shape>, e: Level, f: Vec<Level> });
strukt!(Nests { n: Nest, v: Vec<Nest>, o: Option<Nest> });
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Facet, Serialize, Deserialize)]
#[facet(rename_all = "snake_case")]
#[serde(rename_all = "snake_case")]
#[repr(u8)]
pub enum Level {
    Debug,
    InfoMore,
    R,
}
impl Sample for Level {
    fn sample(r: &mut Rng, _: usize) -> Self {
        *r.pick(&[Level::Debug, Level::InfoMore, Level::R])
    }
}
#[derive(Debug, Clone, PartialEq, Facet, Serialize, Deserialize)]
pub struct Tree {
    pub name: String,
    pub kids: Vec<Tree>,
}
impl Sample for Tree {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Tree { name: Sample::sample(r, d), kids: if d == 0 { vec![] } else { Sample::sample(r, d - 1) } }
    }
}
strukt!(Units { a: (), b: i32 });
strukt!(Empty {});
strukt!(
    #[facet(default)]
    #[serde(default)]
    Defaults { a: i32, b: String, c: Vec<i32>, d: Option<bool> }
);
impl Default for Defaults {
    fn default() -> Self {
        Defaults { a: 7, b: "dflt".into(), c: vec![1, 2], d: Some(true) }
    }
}
strukt!(Config { name: String, port: u16, level: Level, tags: Vec<String>, opt: Option<f64>, env: BTreeMap<String, String>, inner: Option<Small> });

// ---------------------------------------------------------------- any document, untyped
pub fn facet_untyped(s: &str) -> Result<facet_value::Value, String> {
    facet_styx::from_str::<facet_value::Value>(s).map_err(|e| e.to_string())
}
pub fn serde_untyped(s: &str) -> Result<serde::de::IgnoredAny, String> {
    serde_styx::from_str::<serde::de::IgnoredAny>(s).map_err(|e| e.to_string())
}
/// Every typed and untyped reader must return something for any text.
pub fn c01_typed(c: &mut Case, s: &str) {
    macro_rules! go {
        ($name:expr, $f:expr) => {
            match c.guard(|| $f.is_ok()) {
                Ok(ok) => c.count(if ok { concat!("ran:", $name, ":ok") } else { concat!("ran:", $name, ":err") }),
                Err(m) => c.fail(concat!("panic:", $name), m, s),
            }
        };
    }
    c.count("ran:facet");
    c.count("ran:serde");
    go!("facet-untyped", facet_untyped(s));
    go!("serde-ignored", serde_untyped(s));
    go!("serde-json", serde_styx::from_str::<serde_json::Value>(s));
    match c.r.below(6) {
        0 => {
            go!("facet-config", facet_styx::from_str::<Config>(s));
            go!("serde-config", serde_styx::from_str::<Config>(s));
        }
        1 => {
            go!("facet-map", facet_styx::from_str::<HashMap<String, String>>(s));
            go!("serde-map", serde_styx::from_str::<HashMap<String, String>>(s));
        }
        2 => {
            go!("facet-enummap", facet_styx::from_str::<BTreeMap<String, Shape>>(s));
            go!("serde-enummap", serde_styx::from_str::<BTreeMap<String, Shape>>(s));
        }
        3 => {
            go!("facet-nestmap", facet_styx::from_str::<BTreeMap<String, Nest>>(s));
            go!("serde-nestmap", serde_styx::from_str::<BTreeMap<String, Nest>>(s));
        }
        4 => go!("facet-schema", facet_styx::from_str::<facet_styx::SchemaFile>(s)),
        _ => {
            go!("facet-expr", facet_styx::from_str_expr::<facet_value::Value>(s));
            go!("facet-flat", facet_styx::from_str::<Flat>(s));
            go!("serde-flat", serde_styx::from_str::<Flat>(s));
        }
    }
}
// ---------------------------------------------------------------- other enum notations
#[derive(Debug, Clone, PartialEq, Facet)]
#[facet(untagged)]
#[repr(u8)]
pub enum Either {
    Num(i64),
    Obj(Small),
    List(Vec<bool>),
    Pairs { left: i32, right: i32 },
}
impl Sample for Either {
    fn sample(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Either::Num(Sample::sample(r, d)),
            1 => Either::Obj(Sample::sample(r, d)),
            2 => Either::List(Sample::sample(r, d)),
            _ => Either::Pairs { left: Sample::sample(r, d), right: Sample::sample(r, d) },
        }
    }
}
#[derive(Debug, Clone, PartialEq, Facet)]
#[facet(tag = "type")]
#[repr(u8)]
pub enum Internal {
    Empty,
    Sized { width: u8, height: Option<u8> },
    Inner(Small),
}
impl Sample for Internal {
    fn sample(r: &mut Rng, d: usize) -> Self {
        match r.below(3) {
            0 => Internal::Empty,
            1 => Internal::Sized { width: Sample::sample(r, d), height: Sample::sample(r, d) },
            _ => Internal::Inner(Sample::sample(r, d)),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Facet)]
#[facet(tag = "t", content = "c")]
#[repr(u8)]
pub enum Adjacent {
    Empty,
    Text(String),
    Sized { width: u8, height: Option<u8> },
    Two(i32, String),
}
impl Sample for Adjacent {
    fn sample(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Adjacent::Empty,
            1 => Adjacent::Text(Sample::sample(r, d)),
            2 => Adjacent::Sized { width: Sample::sample(r, d), height: Sample::sample(r, d) },
            _ => Adjacent::Two(Sample::sample(r, d), Sample::sample(r, d)),
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Facet)]
#[facet(is_numeric)]
#[repr(u16)]
pub enum Code {
    Fine = 200,
    Missing = 404,
}
impl Sample for Code {
    fn sample(r: &mut Rng, _: usize) -> Self {
        *r.pick(&[Code::Fine, Code::Missing])
    }
}
/// Written as the text of its proxy.
#[derive(Debug, Clone, PartialEq, Facet)]
#[facet(proxy = AngleText)]
pub struct Angle(pub i32);
#[derive(Debug, Clone, PartialEq, Facet)]
#[facet(transparent)]
pub struct AngleText(pub String);
impl TryFrom<AngleText> for Angle {
    type Error = String;
    fn try_from(t: AngleText) -> Result<Self, String> {
        t.0.strip_suffix(" degrees").and_then(|n| n.parse().ok()).map(Angle).ok_or_else(|| format!("no angle: {}", t.0))
    }
}
impl From<&Angle> for AngleText {
    fn from(a: &Angle) -> Self {
        AngleText(format!("{} degrees", a.0))
    }
}
impl Sample for Angle {
    fn sample(r: &mut Rng, d: usize) -> Self {
        Angle(Sample::sample(r, d))
    }
}
macro_rules! fstrukt {
    ($n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Facet)]
        pub struct $n { $(pub $f: $t),* }
        impl Sample for $n {
            fn sample(r: &mut Rng, d: usize) -> Self {
                $n { $($f: <$t>::sample(r, d.saturating_sub(1))),* }
            }
        }
    };
}
fstrukt!(Untagged { a: Either, b: Vec<Either>, c: Option<Either>, d: BTreeMap<String, Either> });
fstrukt!(Internals { a: Internal, b: Vec<Internal>, c: Option<Internal>, d: BTreeMap<String, Internal> });
fstrukt!(Adjacents { a: Adjacent, b: Vec<Adjacent>, c: Option<Adjacent>, d: BTreeMap<String, Adjacent> });
fstrukt!(Numerics { a: Code, b: Vec<Code>, c: Option<Code>, d: BTreeMap<String, Code> });
fstrukt!(Proxied { a: Angle, b: Vec<Angle>, c: Option<Angle>, d: BTreeMap<String, Angle> });
strukt!(EnumKeys { a: BTreeMap<Level, i32>, b: BTreeMap<Name, Level> });

#[derive(Debug, Clone, PartialEq, Facet)]
pub struct MaybeFlat {
    pub id: i32,
    #[facet(flatten)]
    pub small: Option<Small>,
}
impl Sample for MaybeFlat {
    fn sample(r: &mut Rng, d: usize) -> Self {
        MaybeFlat { id: Sample::sample(r, d), small: Sample::sample(r, d) }
    }
}
// ---------------------------------------------------------------- keys that are not plain names
impl Sample for facet_styx::ObjectKey {
    fn sample(r: &mut Rng, d: usize) -> Self {
        let tag = r.pick(&["t", "string", "a-b_1", "T_x"]).to_string();
        match r.below(5) {
            0 => Self::unit(),
            1 => Self::typed(tag),
            2 => Self { value: Some(Sample::sample(r, d)), tag: Some(tag) },
            _ => Self::named(String::sample(r, d)),
        }
    }
}
impl Sample for facet_styx::RawStyx {
    fn sample(r: &mut Rng, _: usize) -> Self {
        Self::new(*r.pick(&["1", "abc", "\"a b\"", "@", "@tag", "(1 2)", "{a 1}", "@t(1 @x)", "{a {b 1, c (1 2)}}", "\"\"", "()", "@t{a @}", "@some\"text here\""]))
    }
}
fstrukt!(OddKeys {
    a: BTreeMap<Option<String>, i32>,
    b: HashMap<facet_styx::ObjectKey, String>,
    e: HashMap<facet_styx::Documented<String>, i32>,
    f: HashMap<facet_styx::ObjectKey, BTreeMap<Option<String>, bool>>,
});
fstrukt!(Raws { a: facet_styx::RawStyx, b: Vec<facet_styx::RawStyx>, d: BTreeMap<String, facet_styx::RawStyx> });
