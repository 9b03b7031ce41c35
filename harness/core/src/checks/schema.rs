//! C16, C18: schema validation against an independent reading of the schema reference.
use super::spell::{dot, docs, notations, shuffle};
use crate::mkdoc::{self, Gen, Profile, bare_ok};
use crate::model::*;
use crate::refp;
use crate::rng::Rng;
use crate::run::*;

#[derive(Clone, Debug)]
pub enum Sch {
    Str(Option<usize>, Option<usize>),
    Int(Option<i128>, Option<i128>),
    Float(Option<f64>, Option<f64>),
    Bool,
    Unit,
    Any,
    Obj(Vec<Field>, Option<(&'static str, Box<Sch>)>),
    Seq(Box<Sch>),
    Tuple(Vec<Sch>),
    Map(Option<Box<Sch>>, Box<Sch>),
    Union(Vec<Sch>),
    Opt(Box<Sch>),
    Enum(Vec<(String, Option<Sch>)>),
    OneOf(Box<Sch>, Vec<String>),
    Default(Val, Box<Sch>),
    Deprecated(String, Box<Sch>),
    Lit(String),
    Ref(usize),
}
#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub sch: Sch,
    /// Fields of this named type take the place of this field.
    pub flat: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Env {
    pub names: Vec<String>,
    pub types: Vec<Sch>,
    pub root: Sch,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    Yes,
    No,
    Open,
}
impl T {
    fn and(self, o: T) -> T {
        match (self, o) {
            (T::No, _) | (_, T::No) => T::No,
            (T::Open, _) | (_, T::Open) => T::Open,
            _ => T::Yes,
        }
    }
    fn or(self, o: T) -> T {
        match (self, o) {
            (T::Yes, _) | (_, T::Yes) => T::Yes,
            (T::Open, _) | (_, T::Open) => T::Open,
            _ => T::No,
        }
    }
    fn of(b: bool) -> T {
        if b { T::Yes } else { T::No }
    }
}

// ---------------------------------------------------------------- the reference validator

pub fn json_number(t: &str) -> bool {
    let b = t.strip_prefix('-').unwrap_or(t);
    let digits = |s: &str| s.len() - s.trim_start_matches(|c: char| c.is_ascii_digit()).len();
    let n = digits(b);
    if n == 0 || (n > 1 && b.starts_with('0')) {
        return false;
    }
    let mut rest = &b[n..];
    if let Some(f) = rest.strip_prefix('.') {
        let n = digits(f);
        if n == 0 {
            return false;
        }
        rest = &f[n..];
    }
    if let Some(e) = rest.strip_prefix(['e', 'E']) {
        let e = e.strip_prefix(['+', '-']).unwrap_or(e);
        let n = digits(e);
        if n == 0 {
            return false;
        }
        rest = &e[n..];
    }
    rest.is_empty()
}
/// Entries of one object with sibling dotted paths put together.
pub fn merged(es: &[Ent]) -> Vec<Ent> {
    let mut out: Vec<Ent> = Vec::new();
    for e in es {
        if let Pay::Obj(kids) = &e.val.pay
            && e.val.implied.0
            && let Some(o) = out.iter_mut().find(|o| refp::key_id(&o.key) == refp::key_id(&e.key))
            && let Pay::Obj(have) = &mut o.val.pay
        {
            have.extend(kids.clone());
            continue;
        }
        out.push(e.clone());
    }
    for e in &mut out {
        if e.val.implied.0
            && let Pay::Obj(k) = &mut e.val.pay
        {
            *k = merged(k);
        }
    }
    out
}
/// Where a value fails: the path, what kind of place it is, and the text it stands on.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Where {
    Value,
    Missing(String),
    Unknown(String),
    Key,
    /// Not settled by the reference: may be reported here or below.
    Maybe,
}
#[derive(Clone, Debug)]
pub struct Blame {
    pub path: String,
    pub at: Where,
    pub sp: Sp,
    pub implied: bool,
}
fn join(p: &str, k: &str) -> String {
    if p.is_empty() { k.into() } else { format!("{p}.{k}") }
}
impl Env {
    fn absent_ok(&self, s: &Sch) -> T {
        match s {
            Sch::Opt(_) | Sch::Default(..) => T::Yes,
            Sch::Deprecated(_, s) => self.absent_ok(s),
            Sch::Ref(i) => match self.absent_ok(&self.types[*i]) {
                T::No => T::No,
                _ => T::Open,
            },
            Sch::Union(v) => {
                if v.iter().any(|s| self.absent_ok(s) != T::No) {
                    T::Open
                } else {
                    T::No
                }
            }
            _ => T::No,
        }
    }
    pub fn fields(&self, s: &Sch) -> (Vec<Field>, Option<(&'static str, Box<Sch>)>) {
        match s {
            Sch::Obj(fs, rest) => {
                let mut out = Vec::new();
                let mut rest = rest.clone();
                for f in fs {
                    match f.flat {
                        Some(i) => {
                            let (more, r) = self.fields(&self.types[i]);
                            out.extend(more);
                            rest = rest.or(r);
                        }
                        None => out.push(f.clone()),
                    }
                }
                (out, rest)
            }
            Sch::Ref(i) => self.fields(&self.types[*i]),
            _ => (vec![], None),
        }
    }
    pub fn ok(&self, v: &Val, s: &Sch) -> T {
        self.judge(v, s, "", &mut Vec::new())
    }
    pub fn judge(&self, v: &Val, s: &Sch, path: &str, bl: &mut Vec<Blame>) -> T {
        let t = self.judge_at(v, s, path, bl);
        if t == T::Open {
            bl.push(Blame { path: path.into(), at: Where::Maybe, sp: v.sp, implied: false });
        }
        t
    }
    fn judge_at(&self, v: &Val, s: &Sch, path: &str, bl: &mut Vec<Blame>) -> T {
        let at = |bl: &mut Vec<Blame>| bl.push(Blame { path: path.into(), at: Where::Value, sp: v.sp, implied: v.implied.0 });
        let t = match s {
            Sch::Any => return T::Yes,
            Sch::Ref(i) => return self.judge(v, &self.types[*i], path, bl),
            Sch::Default(_, s) | Sch::Deprecated(_, s) => return self.judge(v, s, path, bl),
            Sch::Opt(s) => {
                if v.tags.is_empty() && v.pay == Pay::Unit {
                    return T::Yes;
                }
                return self.judge(v, s, path, bl);
            }
            Sch::Union(alts) => {
                let t = alts.iter().fold(T::No, |t, s| t.or(self.ok(v, s)));
                if t == T::No {
                    at(bl);
                }
                return t;
            }
            Sch::OneOf(base, vals) => {
                let t = self.judge(v, base, path, bl);
                if t == T::No {
                    return t;
                }
                let Pay::Scalar(x) = &v.pay else { return T::Open };
                let u = T::of(vals.contains(&x.text));
                if u == T::No {
                    at(bl);
                }
                return t.and(u);
            }
            Sch::Enum(vars) => return self.judge_enum(v, vars, path, bl),
            _ if !v.tags.is_empty() => T::Open,
            Sch::Bool => match &v.pay {
                Pay::Scalar(x) => T::of(x.text == "true" || x.text == "false"),
                _ => T::No,
            },
            Sch::Unit => T::of(v.pay == Pay::Unit),
            Sch::Lit(l) => match &v.pay {
                Pay::Scalar(x) => T::of(x.text == *l),
                _ => T::No,
            },
            Sch::Str(lo, hi) => match &v.pay {
                Pay::Scalar(x) => {
                    let f = |n: usize| lo.is_none_or(|l| n >= l) && hi.is_none_or(|h| n <= h);
                    if f(x.text.len()) == f(x.text.chars().count()) { T::of(f(x.text.len())) } else { T::Open }
                }
                _ => T::No,
            },
            Sch::Int(lo, hi) => match &v.pay {
                Pay::Scalar(x) => {
                    let d = x.text.strip_prefix(['-', '+']).unwrap_or(&x.text);
                    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
                        T::No
                    } else {
                        match x.text.parse::<i128>() {
                            _ if x.text.starts_with('+') => T::Open,
                            Err(_) => T::Open,
                            Ok(n) => T::of(lo.is_none_or(|l| n >= l) && hi.is_none_or(|h| n <= h)),
                        }
                    }
                }
                _ => T::No,
            },
            Sch::Float(lo, hi) => match &v.pay {
                Pay::Scalar(x) if json_number(&x.text) => match x.text.parse::<f64>() {
                    Ok(f) if f.is_finite() => T::of(lo.is_none_or(|l| f >= l) && hi.is_none_or(|h| f <= h)),
                    _ => T::Open,
                },
                _ => T::No,
            },
            Sch::Seq(s) => match &v.pay {
                Pay::Seq(x) => return x.iter().enumerate().fold(T::Yes, |t, (i, v)| t.and(self.judge(v, s, &format!("{path}[{i}]"), bl))),
                _ => T::No,
            },
            Sch::Tuple(ss) => match &v.pay {
                Pay::Seq(x) => {
                    let mut t = T::Yes;
                    if x.len() != ss.len() {
                        at(bl);
                        t = T::No;
                    }
                    return x.iter().zip(ss).enumerate().fold(t, |t, (i, (v, s))| t.and(self.judge(v, s, &format!("{path}[{i}]"), bl)));
                }
                _ => T::No,
            },
            Sch::Map(k, s) => match &v.pay {
                Pay::Obj(es) => {
                    let mut t = T::Yes;
                    for e in es {
                        let Key { tag: None, pay: Some(x), .. } = &e.key else {
                            bl.push(Blame { path: path.into(), at: Where::Maybe, sp: e.key.sp, implied: false });
                            t = t.and(T::Open);
                            continue;
                        };
                        if let Some(k) = k {
                            let mut key = Val::scalar(x.text.clone(), x.kind);
                            key.sp = e.key.sp;
                            let u = self.ok(&key, k);
                            if u == T::No {
                                bl.push(Blame { path: path.into(), at: Where::Key, sp: e.key.sp, implied: false });
                            }
                            t = t.and(u);
                        }
                        t = t.and(self.judge(&e.val, s, &join(path, &x.text), bl));
                    }
                    return t;
                }
                _ => T::No,
            },
            Sch::Obj(..) => match &v.pay {
                Pay::Obj(es) => return self.judge_obj(v, es, s, path, bl),
                _ => T::No,
            },
        };
        if t == T::No {
            at(bl);
        }
        t
    }
    fn judge_obj(&self, v: &Val, es: &[Ent], s: &Sch, path: &str, bl: &mut Vec<Blame>) -> T {
        let (fields, rest) = self.fields(s);
        let mut t = T::Yes;
        for e in es {
            let name = match &e.key {
                Key { tag: None, pay, .. } => pay.as_ref().map(|s| s.text.as_str()),
                _ => {
                    bl.push(Blame { path: path.into(), at: Where::Maybe, sp: e.key.sp, implied: false });
                    t = t.and(T::Open);
                    continue;
                }
            };
            let p = join(path, name.unwrap_or("@"));
            let f = name.and_then(|n| fields.iter().find(|f| f.name == n));
            if let Some(f) = f {
                t = t.and(self.judge(&e.val, &f.sch, &p, bl));
            } else if let Some((how, s)) = &rest {
                // A unit key against a catch-all for strings is not settled.
                if name.is_none() && *how != "" {
                    t = t.and(T::Open);
                }
                t = t.and(self.judge(&e.val, s, &p, bl));
            } else {
                bl.push(Blame { path: p, at: Where::Unknown(name.unwrap_or("@").into()), sp: e.key.sp, implied: false });
                t = T::No;
            }
        }
        for f in &fields {
            if !es.iter().any(|e| e.key.tag.is_none() && e.key.pay.as_ref().is_some_and(|s| s.text == f.name)) {
                let u = self.absent_ok(&f.sch);
                if u == T::No {
                    bl.push(Blame { path: join(path, &f.name), at: Where::Missing(f.name.clone()), sp: v.sp, implied: v.implied.0 });
                } else if u == T::Open {
                    bl.push(Blame { path: join(path, &f.name), at: Where::Maybe, sp: v.sp, implied: false });
                }
                t = t.and(u);
            }
        }
        t
    }
    fn judge_enum(&self, v: &Val, vars: &[(String, Option<Sch>)], path: &str, bl: &mut Vec<Blame>) -> T {
        let here = |bl: &mut Vec<Blame>| bl.push(Blame { path: path.into(), at: Where::Value, sp: v.sp, implied: v.implied.0 });
        let Some(tag) = v.tags.first() else {
            // An untagged scalar may stand for a variant holding that kind of scalar.
            let mut t = T::No;
            if let Pay::Scalar(_) = v.pay {
                for (_, s) in vars {
                    match s {
                        Some(s @ (Sch::Str(..) | Sch::Int(..) | Sch::Float(..) | Sch::Bool)) => t = t.or(self.ok(v, s)),
                        Some(Sch::Unit) | None => {}
                        Some(s) => {
                            if self.ok(v, s) != T::No {
                                t = t.or(T::Open)
                            }
                        }
                    }
                }
            }
            if t == T::No {
                here(bl);
            }
            return t;
        };
        let Some((_, s)) = vars.iter().find(|(n, _)| n == tag) else {
            here(bl);
            return T::No;
        };
        let mut p = v.clone();
        p.tags.remove(0);
        if p.tags.len() > 0 {
            return T::Open; // a tree value holds one tag
        }
        match s {
            None => {
                let t = T::of(p.pay == Pay::Unit);
                if t == T::No {
                    bl.push(Blame { path: join(path, tag), at: Where::Value, sp: v.sp, implied: false });
                }
                t
            }
            Some(s) => {
                let sub = join(path, tag);
                let n = bl.len();
                let t = self.judge(&p, s, &sub, bl);
                // A missing payload may be reported at the value itself.
                if p.pay == Pay::Unit && t == T::No {
                    bl.truncate(n);
                    here(bl);
                }
                t
            }
        }
    }
}

// ---------------------------------------------------------------- generator of schemas

const NAMES: &[&str] = &["a", "b", "host", "port", "name", "kind", "items", "a-b", "key_1", "x", "y", "tls", "é", "Value", "type", "string", "object"];
const TYPES: &[&str] = &["Server", "Node", "Cfg", "T1", "foo-bar", "my_type", "Address", "Leaf"];

const KINDS: &[&str] = &[
    "string", "int", "float", "bool", "unit", "any", "object", "seq", "tuple", "map", "union", "optional", "enum", "one-of", "flatten", "default", "deprecated", "literal", "type",
];
pub struct MkSch<'a> {
    r: &'a mut Rng,
    ntypes: usize,
    left: isize,
}
fn mk_name(r: &mut Rng, used: &[String]) -> String {
    for _ in 0..20 {
        let n = if r.pct(6) {
            r.pick(&["a b", "", "x.y", "\"q\"", "@t", "日本", "1", "true", "{}", "q\\n"]).to_string()
        } else if r.pct(20) {
            format!("{}{}", r.pick(NAMES), r.below(20))
        } else {
            r.pick(NAMES).to_string()
        };
        if !used.contains(&n) {
            return n;
        }
    }
    format!("f{}", used.len())
}
fn opt<X>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> X) -> Option<X> {
    if r.pct(50) { Some(f(r)) } else { None }
}
impl MkSch<'_> {
    fn scalar(&mut self) -> Sch {
        let r = &mut *self.r;
        match r.below(8) {
            0 => {
                let lo = opt(r, |r| r.below(5));
                Sch::Str(lo, opt(r, |r| lo.unwrap_or(0) + r.below(9)))
            }
            1 | 2 => Sch::Str(None, None),
            3 => {
                let lo = opt(r, |r| *r.pick(&[-170141183460469231731687303715884105728i128, -9223372036854775809, -300, -1, 0, 1, 10, 65535, 18446744073709551616]));
                let hi = opt(r, |r| lo.unwrap_or(-5).saturating_add(*r.pick(&[0i128, 1, 5, 100, 65535, 1 << 70])));
                Sch::Int(lo, hi)
            }
            4 => Sch::Int(None, None),
            5 => {
                let lo = opt(r, |r| *r.pick(&[-273.15f64, -1.0, 0.0, 0.5, 1e10]));
                let hi = opt(r, |r| lo.unwrap_or(-2.5) + *r.pick(&[0.0, 0.25, 1.0, 100.0]));
                Sch::Float(lo, hi)
            }
            6 => Sch::Float(None, None),
            _ => Sch::Bool,
        }
    }
    fn lit(r: &mut Rng) -> String {
        loop {
            let t = Self::any_lit(r);
            // Recorded finding: a literal spelled like a kind of schema is read as that kind.
            if !KINDS.contains(&t.as_str()) {
                return t;
            }
        }
    }
    fn any_lit(r: &mut Rng) -> String {
        match r.below(3) {
            0 => r.pick(&["1", "true", "on", "@mention", "a b", "strings", "Any", "-", "x", "integer", "types", "other", "é", "0.5"]).to_string(),
            _ => mkdoc::text(r, 10, false),
        }
    }
    fn obj(&mut self, depth: usize, flat: &[usize], flattable: bool) -> Sch {
        let n = *self.r.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 6]);
        let mut fs: Vec<Field> = Vec::new();
        let mut used: Vec<String> = Vec::new();
        for _ in 0..n {
            // Names of flattened types must not meet: they carry their own prefix.
            let mut name = mk_name(self.r, &used);
            if flattable {
                name = format!("{name}_{}", flat.len());
            }
            if used.contains(&name) {
                continue;
            }
            used.push(name.clone());
            fs.push(Field { name, sch: self.sch(depth, true), flat: None });
        }
        if !flattable && !flat.is_empty() && self.r.pct(20) {
            let i = *self.r.pick(flat);
            fs.push(Field { name: format!("flat{i}"), sch: Sch::Any, flat: Some(i) });
        }
        let rest = if self.r.pct(25) && !flattable {
            let how = *self.r.pick(&["", "", "string"]);
            Some((how, Box::new(self.sch(depth, false))))
        } else {
            None
        };
        Sch::Obj(fs, rest)
    }
    pub fn sch(&mut self, depth: usize, field: bool) -> Sch {
        self.left -= 1;
        if field {
            match self.r.below(12) {
                0 | 1 => return Sch::Opt(Box::new(self.sch(depth, false))),
                2 => {
                    let s = self.scalar();
                    let v = Val::scalar("zero", Kind::Bare);
                    return Sch::Default(v, Box::new(s));
                }
                3 if self.r.pct(40) => {
                    let why = mkdoc::text(self.r, 10, false);
                    let f = self.r.pct(50);
                    return Sch::Deprecated(why, Box::new(self.sch(depth, f)));
                }
                _ => {}
            }
        }
        if depth == 0 || self.left <= 0 {
            return match self.r.below(12) {
                0 => Sch::Unit,
                1 => Sch::Any,
                2 => Sch::Lit(Self::lit(self.r)),
                3 => {
                    let n = self.r.range(1, 5);
                    let base = match self.r.below(3) {
                        0 => Sch::Int(None, Some(3)),
                        1 => Sch::Str(Some(1), None),
                        _ => Sch::Str(None, None),
                    };
                    Sch::OneOf(Box::new(base), (0..n).map(|i| if self.r.pct(30) { i.to_string() } else { Self::lit(self.r) }).collect())
                }
                _ => self.scalar(),
            };
        }
        match self.r.below(16) {
            0 | 1 | 2 => self.obj(depth - 1, &[], false),
            3 | 4 => Sch::Seq(Box::new(self.sch(depth - 1, false))),
            5 => {
                let n = self.r.range(0, 4);
                Sch::Tuple((0..n).map(|_| self.sch(depth - 1, false)).collect())
            }
            6 | 7 => {
                let k = match self.r.below(5) {
                    0 => Some(Sch::Str(None, None)),
                    1 => Some(Sch::Int(None, None)),
                    2 => Some(Sch::Bool),
                    _ => None,
                };
                Sch::Map(k.map(Box::new), Box::new(self.sch(depth - 1, false)))
            }
            8 => {
                let n = self.r.range(1, 4);
                Sch::Union((0..n).map(|_| self.sch(depth - 1, false)).collect())
            }
            9 | 10 => {
                let n = self.r.range(1, 5);
                let mut vs: Vec<(String, Option<Sch>)> = Vec::new();
                for _ in 0..n {
                    let name = self.r.pick(&["ok", "err", "pending", "eq", "gt", "A", "my-variant", "x_1", "string", "unit"]).to_string();
                    if !vs.iter().any(|(n, _)| *n == name) {
                        let s = if self.r.pct(35) { None } else { Some(self.sch(depth - 1, false)) };
                        vs.push((name, s));
                    }
                }
                Sch::Enum(vs)
            }
            11 | 12 if self.ntypes > 0 => Sch::Ref(self.r.below(self.ntypes)),
            13 => Sch::Opt(Box::new(self.sch(depth - 1, false))),
            _ => self.sch(0, false),
        }
    }
}
pub fn mk_env(r: &mut Rng) -> Env {
    let n = *r.pick(&[0usize, 0, 1, 2, 3, 4]);
    let mut names: Vec<String> = TYPES.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut names);
    names.truncate(n);
    let mut m = MkSch { r, ntypes: n, left: 40 };
    let mut types = Vec::new();
    let mut flat = Vec::new();
    for i in 0..n {
        m.left = 12;
        // Recursion always passes through an object field, a sequence or a map.
        let t = match m.r.below(5) {
            0 => {
                flat.push(i);
                m.obj(1, &vec![0; i], true)
            }
            1 => m.scalar(),
            2 => {
                let d = m.r.range(1, 3);
                Sch::Enum(vec![("leaf".into(), None), ("node".into(), Some(m.obj(d, &[], false)))])
            }
            _ => {
                let d = m.r.range(1, 3);
                m.obj(d, &[], false)
            }
        };
        types.push(t);
    }
    m.left = 30;
    let d = m.r.range(1, 5);
    let root = m.obj(d, &flat, false);
    Env { names, types, root }
}

// ---------------------------------------------------------------- the schema as a document

fn key(t: &str) -> Key {
    let kind = if bare_ok(t) && !t.contains('.') { Kind::Bare } else { Kind::Quoted };
    Key { tag: None, pay: Some(Scal { text: t.into(), kind }), sp: Sp(0, 0) }
}
fn ent(k: Key, v: Val) -> Ent {
    Ent { key: k, val: v, doc: None }
}
fn word(t: &str) -> Val {
    Val::scalar(t, if bare_ok(t) { Kind::Bare } else { Kind::Quoted })
}
fn tagged(t: &str, p: Pay) -> Val {
    Val::new(vec![t.into()], p)
}
fn limits<X: ToString>(t: &str, lo: (&str, &Option<X>), hi: (&str, &Option<X>)) -> Val {
    let mut es = Vec::new();
    for (n, x) in [lo, hi] {
        if let Some(x) = x {
            es.push(ent(key(n), word(&x.to_string())));
        }
    }
    tagged(t, if es.is_empty() { Pay::Unit } else { Pay::Obj(es) })
}
impl Env {
    pub fn to_val(&self, s: &Sch) -> Val {
        let many = |v: &[Sch]| Pay::Seq(v.iter().map(|s| self.to_val(s)).collect());
        match s {
            Sch::Str(a, b) => limits("string", ("minLen", a), ("maxLen", b)),
            Sch::Int(a, b) => limits("int", ("min", a), ("max", b)),
            Sch::Float(a, b) => limits("float", ("min", a), ("max", b)),
            Sch::Bool => tagged("bool", Pay::Unit),
            Sch::Unit => tagged("unit", Pay::Unit),
            Sch::Any => tagged("any", Pay::Unit),
            Sch::Seq(s) => tagged("seq", Pay::Seq(vec![self.to_val(s)])),
            Sch::Opt(s) => tagged("optional", Pay::Seq(vec![self.to_val(s)])),
            Sch::Tuple(v) => tagged("tuple", many(v)),
            Sch::Union(v) => tagged("union", many(v)),
            Sch::Map(k, v) => tagged("map", Pay::Seq(k.iter().map(|k| self.to_val(k)).chain([self.to_val(v)]).collect())),
            Sch::OneOf(b, v) => tagged("one-of", Pay::Seq(vec![self.to_val(b), Val::new(vec![], Pay::Seq(v.iter().map(|t| word(t)).collect()))])),
            Sch::Default(v, s) => tagged("default", Pay::Seq(vec![v.clone(), self.to_val(s)])),
            Sch::Deprecated(w, s) => tagged("deprecated", Pay::Seq(vec![Val::scalar(w.clone(), Kind::Quoted), self.to_val(s)])),
            // Recorded finding: a literal written as a plain scalar makes the file unreadable. This is
            // the form schema files themselves are written in.
            Sch::Lit(t) => Val::new(vec!["literal".into()], Pay::Scalar(Scal { text: t.clone(), kind: Kind::Quoted })),
            Sch::Ref(i) => tagged(&self.names[*i], Pay::Unit),
            Sch::Enum(vs) => tagged("enum", Pay::Obj(vs.iter().map(|(n, s)| ent(key(n), s.as_ref().map(|s| self.to_val(s)).unwrap_or(Val::unit()))).collect())),
            Sch::Obj(fs, rest) => {
                let mut es: Vec<Ent> = fs
                    .iter()
                    .map(|f| {
                        let v = match f.flat {
                            Some(i) => tagged("flatten", Pay::Seq(vec![tagged(&self.names[i], Pay::Unit)])),
                            None => self.to_val(&f.sch),
                        };
                        ent(key(&f.name), v)
                    })
                    .collect();
                if let Some((how, s)) = rest {
                    es.push(ent(Key { tag: if how.is_empty() { None } else { Some(how.to_string()) }, pay: None, sp: Sp(0, 0) }, self.to_val(s)));
                }
                tagged("object", Pay::Obj(es))
            }
        }
    }
    pub fn file(&self) -> Val {
        let mut es = vec![ent(Key { tag: None, pay: None, sp: Sp(0, 0) }, self.to_val(&self.root))];
        for (n, s) in self.names.iter().zip(&self.types) {
            es.push(ent(key(n), self.to_val(s)));
        }
        let meta = vec![ent(key("id"), word("test")), ent(key("version"), word("2026-01-16"))];
        Val::new(vec![], Pay::Obj(vec![ent(key("meta"), Val::new(vec![], Pay::Obj(meta))), ent(key("schema"), Val::new(vec![], Pay::Obj(es)))]))
    }
}

// ---------------------------------------------------------------- values for a schema

fn float_text(r: &mut Rng, f: f64) -> String {
    match r.below(4) {
        0 => format!("{f:e}"),
        1 => format!("{f:.3}"),
        _ => format!("{f}"),
    }
}
impl Env {
    pub fn value(&self, r: &mut Rng, s: &Sch, depth: usize) -> Val {
        let sc = |t: String| Val::scalar(t, Kind::Quoted);
        match s {
            Sch::Any => {
                let mut p = Profile::full();
                p.budget = 5;
                p.dotted = false;
                p.simple_keys = true;
                p.chains = false;
                Gen::new(r, p).val(2)
            }
            Sch::Str(lo, hi) => {
                if lo.is_none() && hi.is_none() {
                    return sc(mkdoc::text(r, 20, true));
                }
                let lo = lo.unwrap_or(0);
                let hi = hi.unwrap_or(lo + 6);
                let n = *r.pick(&[lo, hi, (lo + hi) / 2]);
                sc((0..n).map(|_| *r.pick(&['a', 'b', ' ', '0', 'z'])).collect())
            }
            Sch::Int(lo, hi) => {
                let l = lo.unwrap_or(hi.unwrap_or(0).saturating_sub(1000));
                let h = hi.unwrap_or(l.saturating_add(1000));
                let any = l.saturating_add((r.next() % 1001) as i128).min(h);
                sc(r.pick(&[l, h, any]).to_string())
            }
            Sch::Float(lo, hi) => {
                let l = lo.unwrap_or(hi.unwrap_or(0.0) - 10.0);
                let h = hi.unwrap_or(l + 10.0);
                let any = l + (h - l) * (r.below(1000) as f64) / 1000.0;
                let f = *r.pick(&[l, h, any]);
                sc(float_text(r, f))
            }
            Sch::Bool => sc(r.pick(&["true", "false"]).to_string()),
            Sch::Unit => Val::unit(),
            Sch::Lit(t) => sc(t.clone()),
            Sch::OneOf(b, vs) => {
                let good: Vec<_> = vs.iter().filter(|t| self.ok(&sc(t.to_string()), b) == T::Yes).collect();
                sc(if good.is_empty() { "none".into() } else { r.pick(&good).to_string() })
            }
            Sch::Default(_, s) | Sch::Deprecated(_, s) => self.value(r, s, depth),
            Sch::Opt(s) => {
                if r.pct(20) || depth == 0 {
                    Val::unit()
                } else {
                    self.value(r, s, depth)
                }
            }
            // A required recursive type has no finite value: what is written then does not conform.
            Sch::Ref(_) if depth == 0 => Val::unit(),
            Sch::Ref(i) => self.value(r, &self.types[*i], depth - 1),
            Sch::Union(v) => {
                let s = r.pick(v).clone();
                self.value(r, &s, depth)
            }
            Sch::Enum(vs) => {
                let i = if depth == 0 { vs.iter().position(|(_, s)| s.is_none()).unwrap_or(0) } else { r.below(vs.len()) };
                let (n, s) = &vs[i];
                let mut v = s.as_ref().map(|s| self.value(r, s, depth.saturating_sub(1))).unwrap_or(Val::unit());
                if !v.tags.is_empty() || r.pct(8) && matches!(v.pay, Pay::Scalar(_)) {
                    return v; // a chain cannot be read back; or a scalar standing for its variant
                }
                v.tags = vec![n.clone()];
                if let Pay::Scalar(s) = &mut v.pay {
                    s.kind = if n.ends_with('r') { Kind::Raw } else { Kind::Quoted };
                }
                v
            }
            Sch::Seq(s) => {
                let n = if depth == 0 { 0 } else { *r.pick(&[0usize, 1, 2, 3, 5]) };
                Val::new(vec![], Pay::Seq((0..n).map(|_| self.value(r, s, depth - 1)).collect()))
            }
            Sch::Tuple(v) => Val::new(vec![], Pay::Seq(v.iter().map(|s| self.value(r, s, depth.saturating_sub(1))).collect())),
            Sch::Map(k, s) => {
                let n = if depth == 0 { 0 } else { *r.pick(&[0usize, 1, 2, 3]) };
                let mut es: Vec<Ent> = Vec::new();
                for _ in 0..n {
                    let t = match k.as_deref() {
                        Some(k) => match self.value(r, k, 1).pay {
                            Pay::Scalar(s) => s.text,
                            _ => "k".into(),
                        },
                        None => mk_name(r, &[]),
                    };
                    if !es.iter().any(|e| e.key.pay.as_ref().unwrap().text == t) {
                        es.push(ent(key(&t), self.value(r, s, depth - 1)));
                    }
                }
                Val::new(vec![], Pay::Obj(es))
            }
            Sch::Obj(..) => {
                let (fields, rest) = self.fields(s);
                let mut es: Vec<Ent> = Vec::new();
                for f in &fields {
                    let can = self.absent_ok(&f.sch) == T::Yes;
                    if can && (r.pct(50) || depth == 0) || es.iter().any(|e| e.key.pay.as_ref().is_some_and(|s| s.text == f.name)) {
                        continue;
                    }
                    es.push(ent(key(&f.name), self.value(r, &f.sch, depth.saturating_sub(1))));
                }
                if let Some((how, s)) = rest
                    && depth > 0
                {
                    for _ in 0..r.below(3) {
                        let n = format!("extra{}", r.below(30));
                        if !es.iter().any(|e| e.key.pay.as_ref().is_some_and(|s| s.text == n)) {
                            es.push(ent(key(&n), self.value(r, &s, depth - 1)));
                        }
                    }
                    if how.is_empty() && r.pct(10) {
                        es.push(ent(Key { tag: None, pay: None, sp: Sp(0, 0) }, self.value(r, &s, depth - 1)));
                    }
                }
                Val::new(vec![], Pay::Obj(es))
            }
        }
    }
}
/// Change one place of a value; returns what was done.
pub fn mutate(v: &mut Val, r: &mut Rng) -> &'static str {
    // Walk to a random node.
    let mut cur = v;
    loop {
        let stop = r.pct(30);
        let go = match &cur.pay {
            Pay::Seq(x) => !x.is_empty(),
            Pay::Obj(x) => !x.is_empty(),
            _ => false,
        };
        if !go || stop {
            break;
        }
        cur = match &mut cur.pay {
            Pay::Seq(x) => {
                let i = r.below(x.len());
                &mut x[i]
            }
            Pay::Obj(x) => {
                let i = r.below(x.len());
                &mut x[i].val
            }
            _ => unreachable!(),
        };
    }
    let k = r.below(14);
    match &mut cur.pay {
        Pay::Obj(es) if k < 8 => match k {
            0..=2 if !es.is_empty() => {
                es.remove(r.below(es.len()));
                "drop"
            }
            3 if !es.is_empty() => {
                let i = r.below(es.len());
                if let Some(s) = &mut es[i].key.pay {
                    s.text.push('x');
                    let k = key(&s.text);
                    es[i].key = k;
                }
                "rename"
            }
            _ => {
                let n = if r.pct(50) { mk_name(r, &[]) } else { format!("zz{}", r.below(9)) };
                if !es.iter().any(|e| e.key.pay.as_ref().is_some_and(|s| s.text == n)) {
                    let at = r.below(es.len() + 1);
                    es.insert(at, ent(key(&n), odd(r)));
                }
                "add"
            }
        },
        Pay::Seq(x) if k < 8 => {
            if k < 4 && !x.is_empty() {
                x.remove(r.below(x.len()));
                "shorter"
            } else {
                let o = if x.is_empty() || r.pct(50) { odd(r) } else { x[0].clone() };
                let at = r.below(x.len() + 1);
                x.insert(at, o);
                "longer"
            }
        }
        Pay::Scalar(s) if k < 9 => {
            s.text = match k {
                0 => format!("{}x", s.text),
                1 => s.text.chars().rev().skip(1).collect(),
                2 => format!("-{}", s.text),
                3 => r.pick(&["NaN", "inf", "-inf", "Infinity", "+1", ".5", "1.", "1e", "01", "1_0", "0x1f", "1e5", "True", "TRUE", "yes", "", " 1", "1 ", "-", "1.0"]).to_string(),
                4 => match s.text.parse::<i128>() {
                    Ok(n) => n.wrapping_add(*r.pick(&[1, -1, 1000, -1000])).to_string(),
                    _ => format!("{}{}", s.text, s.text),
                },
                5 => s.text.repeat(3),
                6 => s.text.to_uppercase(),
                _ => mkdoc::text(r, 10, true),
            };
            "scalar"
        }
        _ if k == 12 || k == 13 => {
            if cur.tags.is_empty() || r.pct(50) {
                cur.tags = vec![r.pick(&["ok", "err", "pending", "leaf", "node", "nope", "eq"]).to_string()];
                if let Pay::Scalar(s) = &mut cur.pay {
                    s.kind = Kind::Raw;
                }
            } else {
                cur.tags.clear();
            }
            "tag"
        }
        _ => {
            let t = std::mem::take(&mut cur.tags);
            *cur = odd(r);
            if r.pct(50) && cur.tags.is_empty() {
                cur.tags = t;
            }
            "kind"
        }
    }
}
fn odd(r: &mut Rng) -> Val {
    match r.below(7) {
        0 => Val::unit(),
        1 => Val::new(vec![], Pay::Seq(vec![])),
        2 => Val::new(vec![], Pay::Obj(vec![])),
        3 => word("text"),
        4 => word("1"),
        5 => Val::new(vec![], Pay::Seq(vec![word("1"), word("b")])),
        _ => Val::new(vec![], Pay::Obj(vec![ent(key("a"), word("1"))])),
    }
}
/// Print a value as a document; None when the text does not denote it.
pub fn spell(c: &mut Case, v: &Val, attrs: bool) -> Option<(String, Vec<Ent>)> {
    let mut v = v.clone();
    if c.r.pct(30) {
        shuffle(&mut v, &mut c.r);
    }
    notations(&mut v, &mut c.r);
    if c.r.pct(25) {
        docs(&mut v, &mut c.r);
    }
    let mut p = Profile::full().vary(&mut c.r);
    p.attrs = attrs;
    let Pay::Obj(mut es) = v.pay else { panic!("root") };
    if attrs && c.r.pct(40) {
        es = dot(es, &mut c.r, 2);
    }
    let text = super::spell::implicit_units(&mkdoc::print(&mut c.r, &p, &es));
    match refp::read(&text) {
        refp::Verdict::Ok(d) if diff(&forget_kinds(&es), &forget_kinds(&d.ents)).is_none() => Some((text, d.ents)),
        _ => {
            c.count("not-spelled");
            None
        }
    }
}
