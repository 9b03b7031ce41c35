//! The value model shared by the generator, the reference reader and the adapters of the real code.
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Bare,
    Quoted,
    Raw,
    Heredoc,
}
/// A source range; never takes part in equality of values.
#[derive(Clone, Copy, Debug, Default)]
pub struct Sp(pub u32, pub u32);
impl PartialEq for Sp {
    fn eq(&self, _: &Sp) -> bool {
        true
    }
}
impl Eq for Sp {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Scal {
    pub text: String,
    pub kind: Kind,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pay {
    Unit,
    Scalar(Scal),
    Seq(Vec<Val>),
    Obj(Vec<Ent>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Val {
    /// Tag chain, outermost first.
    pub tags: Vec<String>,
    pub pay: Pay,
    /// Extent of the whole atom (tags included).
    pub sp: Sp,
    /// The value is not written at all (implicit unit), or is the implied object of a dotted key.
    pub implied: Imp,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Imp(pub bool);
impl PartialEq for Imp {
    fn eq(&self, _: &Imp) -> bool {
        true
    }
}
impl Eq for Imp {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Key {
    pub tag: Option<String>,
    pub pay: Option<Scal>,
    pub sp: Sp,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub key: Key,
    pub val: Val,
    pub doc: Option<String>,
}

impl Val {
    pub fn new(tags: Vec<String>, pay: Pay) -> Val {
        Val { tags, pay, sp: Sp(0, 0), implied: Imp(false) }
    }
    pub fn unit() -> Val {
        Val::new(vec![], Pay::Unit)
    }
    pub fn scalar(t: impl Into<String>, kind: Kind) -> Val {
        Val::new(vec![], Pay::Scalar(Scal { text: t.into(), kind }))
    }
    pub fn forget_kinds(&self) -> Val {
        let mut v = self.clone();
        v.each_mut(&mut |s| s.kind = Kind::Bare);
        v
    }
    pub fn each_mut(&mut self, f: &mut dyn FnMut(&mut Scal)) {
        match &mut self.pay {
            Pay::Unit => {}
            Pay::Scalar(s) => f(s),
            Pay::Seq(v) => v.iter_mut().for_each(|x| x.each_mut(f)),
            Pay::Obj(es) => {
                for e in es {
                    if let Some(s) = &mut e.key.pay {
                        f(s)
                    }
                    e.val.each_mut(f)
                }
            }
        }
    }
    pub fn depth(&self) -> usize {
        match &self.pay {
            Pay::Seq(v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            Pay::Obj(v) => 1 + v.iter().map(|e| e.val.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn count(&self) -> usize {
        1 + match &self.pay {
            Pay::Seq(v) => v.iter().map(|x| x.count()).sum(),
            Pay::Obj(v) => v.iter().map(|e| e.val.count()).sum(),
            _ => 0,
        }
    }
    /// Shape key (no texts): used to count distinct structures observed.
    pub fn shape(&self, out: &mut String) {
        for _ in &self.tags {
            out.push('@');
        }
        match &self.pay {
            Pay::Unit => out.push('u'),
            Pay::Scalar(s) => out.push(match s.kind {
                Kind::Bare => 'b',
                Kind::Quoted => 'q',
                Kind::Raw => 'r',
                Kind::Heredoc => 'h',
            }),
            Pay::Seq(v) => {
                out.push('(');
                v.iter().for_each(|x| x.shape(out));
                out.push(')')
            }
            Pay::Obj(es) => {
                out.push('{');
                for e in es {
                    if e.doc.is_some() {
                        out.push('d');
                    }
                    if e.key.tag.is_some() {
                        out.push('t');
                    }
                    match &e.key.pay {
                        None => out.push('U'),
                        Some(s) => out.push(match s.kind {
                            Kind::Bare => 'B',
                            Kind::Quoted => 'Q',
                            Kind::Raw => 'R',
                            Kind::Heredoc => 'H',
                        }),
                    }
                    e.val.shape(out)
                }
                out.push('}')
            }
        }
    }
}
pub fn forget_kinds(es: &[Ent]) -> Vec<Ent> {
    match Val::new(vec![], Pay::Obj(es.to_vec())).forget_kinds().pay {
        Pay::Obj(e) => e,
        _ => unreachable!(),
    }
}
/// What styx-tree can represent: of a tag chain only the outermost tag is kept (recorded finding).
pub fn collapse_chains(es: &[Ent]) -> Vec<Ent> {
    fn go(v: &mut Val) {
        v.tags.truncate(1);
        match &mut v.pay {
            Pay::Seq(x) => x.iter_mut().for_each(go),
            Pay::Obj(x) => x.iter_mut().for_each(|e| go(&mut e.val)),
            _ => {}
        }
    }
    let mut es = es.to_vec();
    es.iter_mut().for_each(|e| go(&mut e.val));
    es
}

/// First difference between two entry lists, as a path and description.
pub fn diff(a: &[Ent], b: &[Ent]) -> Option<String> {
    diff_ents(a, b, &mut String::from("$"))
}
fn q(s: &str) -> String {
    let mut o = String::new();
    let n = s.chars().count();
    for c in s.chars().take(80) {
        let _ = write!(o, "{}", c.escape_debug());
    }
    if n > 80 {
        let _ = write!(o, "...[{n} chars]");
    }
    format!("\"{o}\"")
}
fn diff_ents(a: &[Ent], b: &[Ent], p: &mut String) -> Option<String> {
    for i in 0..a.len().min(b.len()) {
        let (x, y) = (&a[i], &b[i]);
        if x.key != y.key {
            return Some(format!("{p}[entry {i}]: key {:?} vs {:?}", x.key, y.key));
        }
        if x.doc != y.doc {
            return Some(format!("{p}[entry {i}]: doc {:?} vs {:?}", x.doc, y.doc));
        }
        let l = p.len();
        let k = x.key.pay.as_ref().map(|s| s.text.chars().take(20).collect::<String>()).unwrap_or_default();
        let _ = write!(p, ".{}", k.escape_debug());
        if let Some(d) = diff_val(&x.val, &y.val, p) {
            return Some(d);
        }
        p.truncate(l);
    }
    if a.len() != b.len() {
        return Some(format!("{p}: {} entries vs {}", a.len(), b.len()));
    }
    None
}
pub fn diff_val(a: &Val, b: &Val, p: &mut String) -> Option<String> {
    if a.tags != b.tags {
        return Some(format!("{p}: tags {:?} vs {:?}", a.tags, b.tags));
    }
    match (&a.pay, &b.pay) {
        (Pay::Unit, Pay::Unit) => None,
        (Pay::Scalar(x), Pay::Scalar(y)) => {
            if x.text != y.text {
                Some(format!("{p}: text {} vs {}", q(&x.text), q(&y.text)))
            } else if x.kind != y.kind {
                Some(format!("{p}: kind {:?} vs {:?}", x.kind, y.kind))
            } else {
                None
            }
        }
        (Pay::Seq(x), Pay::Seq(y)) => {
            for i in 0..x.len().min(y.len()) {
                let l = p.len();
                let _ = write!(p, "[{i}]");
                if let Some(d) = diff_val(&x[i], &y[i], p) {
                    return Some(d);
                }
                p.truncate(l);
            }
            if x.len() != y.len() {
                return Some(format!("{p}: {} elements vs {}", x.len(), y.len()));
            }
            None
        }
        (Pay::Obj(x), Pay::Obj(y)) => diff_ents(x, y, p),
        _ => {
            let mut s = String::new();
            a.shape(&mut s);
            s.push_str(" vs ");
            b.shape(&mut s);
            Some(format!("{p}: payload {}", s.chars().take(200).collect::<String>()))
        }
    }
}
