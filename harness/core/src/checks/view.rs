//! C36: the typed view of the lossless tree against the reference reader.
//! C37: looking up and changing a tree by path against a model.
use super::parse::profile;
use crate::mkdoc::{Profile, document};
use crate::model::*;
use crate::mutate;
use crate::real;
use crate::refp::{self, Verdict};
use crate::rng::Rng;
use crate::run::*;
use styx_cst::{AstNode, Document, Entry, Heredoc, Key as AKey, Object, Scalar, ScalarKind, Sequence, Tag, Value, ValueKind};
use styx_cst::{SyntaxKind, SyntaxNode};

type R<T> = Result<T, String>;

fn scal(s: &Scalar) -> Scal {
    let kind = match s.kind() {
        ScalarKind::Bare => Kind::Bare,
        ScalarKind::Quoted => Kind::Quoted,
        ScalarKind::Raw => Kind::Raw,
    };
    Scal { text: s.text_content(), kind }
}
fn place(n: &SyntaxNode) -> Sp {
    let r = n.text_range();
    Sp(r.start().into(), r.end().into())
}
/// A heredoc's lines, without their indentation.
fn unindented(t: &str) -> String {
    t.split('\n').map(|l| l.trim_start_matches([' ', '\t'])).collect::<Vec<_>>().join("\n")
}
fn heredoc(h: &Heredoc) -> R<Scal> {
    let end = h.syntax().children_with_tokens().filter_map(|e| e.into_token()).find(|t| t.kind() == SyntaxKind::HEREDOC_END).map(|t| t.text().trim().to_string());
    if h.delimiter() != end {
        return Err(format!("delimiter: a heredoc closed by {end:?} has the delimiter {:?}", h.delimiter()));
    }
    Ok(Scal { text: unindented(&h.content()), kind: Kind::Heredoc })
}
fn value(v: &Value) -> R<Val> {
    let mut x = match v.kind() {
        ValueKind::Missing => attributes(v.syntax())?,
        ValueKind::Scalar(s) => atom(s.syntax())?,
        ValueKind::Object(o) => atom(o.syntax())?,
        ValueKind::Sequence(s) => atom(s.syntax())?,
        ValueKind::Unit(u) => atom(u.syntax())?,
        ValueKind::Tag(t) => atom(t.syntax())?,
        ValueKind::Heredoc(h) => atom(h.syntax())?,
    };
    x.implied = Imp(false);
    Ok(x)
}
fn attributes(n: &SyntaxNode) -> R<Val> {
    let Some(a) = n.children().find(|c| c.kind() == SyntaxKind::ATTRIBUTES) else { return Err(format!("a value without a kind: {n}")) };
    let mut es = vec![];
    for at in a.children() {
        let k = at.first_token().ok_or("an attribute without a name")?;
        let v = at.children().next().ok_or("an attribute without a value")?;
        let r = k.text_range();
        es.push(Ent { key: Key { tag: None, pay: Some(Scal { text: k.text().to_string(), kind: Kind::Bare }), sp: Sp(r.start().into(), r.end().into()) }, val: atom(&v)?, doc: None });
    }
    Ok(Val::new(vec![], Pay::Obj(es)))
}
fn atom(n: &SyntaxNode) -> R<Val> {
    let mut v = if let Some(s) = Scalar::cast(n.clone()) {
        if s.raw_text() != n.to_string() {
            return Err(format!("raw text {:?} of {n}", s.raw_text()));
        }
        Val::new(vec![], Pay::Scalar(scal(&s)))
    } else if let Some(h) = Heredoc::cast(n.clone()) {
        Val::new(vec![], Pay::Scalar(heredoc(&h)?))
    } else if let Some(o) = Object::cast(n.clone()) {
        let es: Vec<Entry> = o.entries().collect();
        for e in &es {
            if let Some(t) = e.key_text()
                && e.key().and_then(|k| k.syntax().first_child()).is_some_and(|k| k.kind() == SyntaxKind::SCALAR)
            {
                match o.get(&t) {
                    Some(f) if f.key_text().as_deref() == Some(&t) => {}
                    f => return Err(format!("get: an object with the key {t:?} gives {:?} for it", f.map(|f| f.syntax().to_string()))),
                }
            }
        }
        Val::new(vec![], Pay::Obj(entries(es.into_iter())?))
    } else if let Some(s) = Sequence::cast(n.clone()) {
        let x: Vec<_> = s.elements().collect();
        if s.len() != x.len() || s.is_empty() != x.is_empty() || s.entries().count() != x.len() {
            return Err(format!("length: {} elements, len {}, {} entries in {n}", x.len(), s.len(), s.entries().count()));
        }
        let items = x.iter().map(|x| if x.kind() == SyntaxKind::ATTRIBUTES { attributes(&x.parent().unwrap()) } else { atom(x) }).collect::<R<Vec<_>>>()?;
        Val::new(vec![], Pay::Seq(items))
    } else if let Some(t) = Tag::cast(n.clone()) {
        let name = t.name().ok_or_else(|| format!("a tag without a name: {n}"))?;
        let mut v = match t.payload() {
            None => Val::unit(),
            Some(p) => atom(&p)?,
        };
        v.tags.insert(0, name);
        v
    } else if n.kind() == SyntaxKind::UNIT {
        Val::unit()
    } else {
        return Err(format!("not a value: {:?} {n}", n.kind()));
    };
    v.sp = place(n);
    Ok(v)
}
fn key(k: &AKey) -> R<Key> {
    let n = k.syntax().children().next().ok_or_else(|| format!("an empty key {:?}", k.raw_text()))?;
    let v = atom(&n)?;
    let pay = match v.pay {
        Pay::Unit => None,
        Pay::Scalar(s) => Some(s),
        _ => return Err(format!("a key that is a block: {n}")),
    };
    if v.tags.is_empty()
        && let Some(s) = &pay
        && k.text_content() != s.text
    {
        return Err(format!("key text: {:?} for a key that says {:?}", k.text_content(), s.text));
    }
    if v.tags.len() > 1 {
        return Err("a chain of tags as a key".into());
    }
    Ok(Key { tag: v.tags.first().cloned(), pay, sp: place(&n) })
}
fn doc(e: &Entry) -> Option<String> {
    let mut ls: Vec<(u32, String)> = e
        .doc_comments()
        .map(|t| {
            let s = t.text().strip_prefix("///").unwrap_or(t.text());
            (t.text_range().start().into(), s.strip_prefix(' ').unwrap_or(s).trim_end_matches(['\r', '\n']).to_string())
        })
        .collect();
    ls.sort();
    if ls.is_empty() { None } else { Some(ls.into_iter().map(|x| x.1).collect::<Vec<_>>().join("\n")) }
}
fn entries(es: impl Iterator<Item = Entry>) -> R<Vec<Ent>> {
    let mut out = vec![];
    for e in es {
        // a separator on its own leaves an entry with nothing in it
        if e.syntax().first_token().is_none() {
            continue;
        }
        let Some(k) = e.key() else { return Err(format!("an entry without a key: {}", e.syntax())) };
        let d = doc(&e);
        let mut val = match e.value() {
            Some(v) => value(&v)?,
            None => Val::unit(),
        };
        let mut k = key(&k)?;
        // A dotted key is one key to the syntax tree.
        if k.tag.is_none()
            && let Some(s) = &k.pay
            && s.kind == Kind::Bare
            && s.text.contains('.')
        {
            let at = k.sp;
            let parts: Vec<String> = s.text.split('.').map(|x| x.to_string()).collect();
            for p in parts[1..].iter().rev() {
                val = Val::new(vec![], Pay::Obj(vec![Ent { key: Key { tag: None, pay: Some(Scal { text: p.clone(), kind: Kind::Bare }), sp: at }, val, doc: None }]));
            }
            k.pay = Some(Scal { text: parts[0].clone(), kind: Kind::Bare });
        }
        out.push(Ent { key: k, val, doc: d });
    }
    Ok(out)
}
fn view(src: &str) -> R<Vec<Ent>> {
    let p = styx_cst::parse(src);
    if let Some(e) = p.errors().first() {
        return Err(format!("refused: {e:?}"));
    }
    let d = Document::cast(p.syntax()).ok_or("the root is not a document")?;
    let es: Vec<Entry> = d.entries().collect();
    if let [e] = es.as_slice()
        && let Some(k) = e.key()
        && let Some(o) = k.syntax().children().find_map(Object::cast)
    {
        return entries(o.entries());
    }
    entries(es.into_iter())
}
/// What the reader says, as far as the syntax tree can say it.
fn plain(es: &[Ent]) -> Vec<Ent> {
    let mut es = es.to_vec();
    for e in &mut es {
        plain_val(&mut e.val);
    }
    es
}
fn plain_val(v: &mut Val) {
    match &mut v.pay {
        Pay::Scalar(s) if s.kind == Kind::Heredoc => s.text = unindented(&s.text),
        Pay::Seq(x) => x.iter_mut().for_each(plain_val),
        Pay::Obj(es) => es.iter_mut().for_each(|e| plain_val(&mut e.val)),
        _ => {}
    }
}
fn drop_docs(es: &mut [Ent]) {
    for e in es {
        e.doc = None;
        drop_docs_val(&mut e.val);
    }
}
fn drop_docs_val(v: &mut Val) {
    match &mut v.pay {
        Pay::Seq(x) => x.iter_mut().for_each(drop_docs_val),
        Pay::Obj(es) => drop_docs(es),
        _ => {}
    }
}
/// Places of untagged scalars, in order.
fn places(es: &[Ent], out: &mut Vec<(u32, u32)>) {
    fn of(v: &Val, out: &mut Vec<(u32, u32)>) {
        match &v.pay {
            Pay::Scalar(s) if v.tags.is_empty() && s.kind != Kind::Heredoc => out.push((v.sp.0, v.sp.1)),
            Pay::Seq(x) => x.iter().for_each(|x| of(x, out)),
            Pay::Obj(es) => places(es, out),
            _ => {}
        }
    }
    for e in es {
        of(&e.val, out);
    }
}
fn judge(c: &mut Case, src: &str) {
    let Verdict::Ok(d) = refp::read(src) else { return };
    c.count("valid");
    let got = match c.guard(|| view(src)) {
        Err(m) => return c.fail("panic", m, src),
        Ok(Err(m)) => return c.fail(format!("view:{}", m.split(':').next().unwrap_or("")), m, src),
        Ok(Ok(v)) => v,
    };
    let mut want = plain(&d.ents);
    let (mut got, mut w) = (got, want.clone());
    // what is a doc comment's entry is compared where only blank space is between them
    let line_comments = d.trace.iter().any(|t| matches!(t, refp::Tr::Com(_)));
    if line_comments {
        drop_docs(&mut got);
        drop_docs(&mut w);
        drop_docs(&mut want);
    } else if src.contains("///") {
        c.count("doc comments");
    }
    if let Some(m) = diff(&w, &got) {
        return c.fail("meaning", format!("the typed view differs from the reader: {m}"), src);
    }
    let (mut a, mut b) = (vec![], vec![]);
    places(&want, &mut a);
    places(&got, &mut b);
    if a != b {
        let i = (0..a.len()).find(|i| a.get(*i) != b.get(*i));
        c.fail("place", format!("scalar {i:?} is at {:?}, the typed view has it at {:?}", i.map(|i| a[i]), i.and_then(|i| b.get(i))), src);
    }
    c.add("scalars placed", a.len());
    match c.guard(|| styx_cst::validate(&styx_cst::parse(src).syntax())) {
        Err(m) => c.fail("validate:panic", m, src),
        Ok(ds) => {
            for x in ds {
                if x.message.contains("duplicate") {
                    c.fail("validate:duplicate", format!("{} in a valid document, at {:?}", x.message, x.range), src);
                }
            }
        }
    }
    let mut s = String::new();
    Val::new(vec![], Pay::Obj(want)).shape(&mut s);
    c.eval(if s.len() > 4 { Some(&s) } else { None });
    c.sample(src);
}
fn gen_view(c: &mut Case) {
    let p = profile(c);
    let (_, src) = document(&mut c.r, &p);
    judge(c, &src);
}
fn mut_view(c: &mut Case) {
    let mut p = profile(c);
    p.budget = p.budget.min(25);
    let (_, src) = document(&mut c.r, &p);
    let (_, other) = document(&mut c.r, &p);
    let m = mutate::mutate(&mut c.r, &src, &other);
    judge(c, &m);
}
fn soup_view(c: &mut Case) {
    let m = mutate::soup(&mut c.r);
    judge(c, &m);
}
/// A key written twice in one object, in two spellings.
fn twice(c: &mut Case) {
    let t = loop {
        let t = crate::mkdoc::text(&mut c.r, 20, false);
        if !t.contains(['\n', '\r']) && !t.is_empty() {
            break t;
        }
    };
    let spell = |r: &mut Rng| match r.below(3) {
        0 if crate::mkdoc::bare_ok(&t) && !t.contains('.') => t.clone(),
        1 => crate::mkdoc::raw(r, &t, false),
        _ => crate::mkdoc::quoted(r, &t),
    };
    let (a, b) = (spell(&mut c.r), spell(&mut c.r));
    let (pre, post) = *c.r.pick(&[("", ""), ("x {\n", "}\n"), ("x @t{\n", "}\n"), ("x ({\n", "})\n"), ("{\n", "}\n"), ("x {y {\n", "}}\n")]);
    let mid = *c.r.pick(&["", "other 1\n", "@ 2\n", "@t 3\n", "'q' 1\n", "q.r 1\n"]);
    let src = format!("{pre}{a} 1\n{mid}{b} 2\n{post}");
    let at = (pre.len() + a.len() + 3 + mid.len()) as u32;
    let Verdict::Err { kind: "duplicate", .. } = refp::read(&src) else { return c.count("not a repeat") };
    c.count("repeats");
    c.eval(Some(&src));
    match c.guard(|| styx_cst::validate(&styx_cst::parse(&src).syntax())) {
        Err(m) => c.fail("validate:panic", m, &src),
        Ok(ds) => {
            let dup: Vec<(u32, u32)> = ds.iter().filter(|d| d.message.contains("duplicate")).map(|d| (d.range.start().into(), d.range.end().into())).collect();
            if dup.last() != Some(&(at, at + b.len() as u32)) {
                c.fail("validate:missed", format!("the repeated key is at {at}, reported {dup:?}"), &src);
            }
        }
    }
}
/// Keys that look alike and differ.
fn apart(c: &mut Case) {
    let r = &mut c.r;
    let w = |r: &mut Rng| r.pick(&["a", "b", "key", "x1", "é", "r", "日本"]).to_string();
    let (x, y) = (w(r), w(r));
    let mut ks = vec![
        format!("{x}.{y}"),
        crate::mkdoc::quoted(r, &format!("{x}.{y}")),
        crate::mkdoc::quoted(r, &format!("r\"{x}\"")),
        crate::mkdoc::raw(r, &format!("r\"{x}\"y"), true),
        crate::mkdoc::quoted(r, &format!("@{y}")),
        format!("@{y}"),
        crate::mkdoc::raw(r, &format!("\\u{{61}}{x}"), true),
        crate::mkdoc::quoted(r, &format!("a{x}{x}")),
        crate::mkdoc::raw(r, &format!("{y}\\n"), true),
        "@".to_string(),
        "\"@ \"".to_string(),
    ];
    r.shuffle(&mut ks);
    ks.truncate(c.r.range(2, 6));
    let src: String = ks.iter().map(|k| format!("{k} 1\n")).collect();
    let src = if c.r.pct(30) { format!("o {{\n{src}}}\n") } else { src };
    c.count("keys alike");
    judge(c, &src);
}
pub fn c36() -> Spec {
    Spec {
        prop: "C36",
        rule: "an evaluation is one valid document (generated, mutated or soup) read through the typed view of its syntax tree, or one document with a repeated key; distinct by tree shape, non-trivial with more than one entry",
        streams: vec![
            Stream { name: "gen", f: gen_view, quick: 120_000, thorough: 3_000_000 },
            Stream { name: "mut", f: mut_view, quick: 160_000, thorough: 4_000_000 },
            Stream { name: "soup", f: soup_view, quick: 160_000, thorough: 4_000_000 },
            Stream { name: "twice", f: twice, quick: 60_000, thorough: 1_000_000 },
            Stream { name: "apart", f: apart, quick: 40_000, thorough: 600_000 },
        ],
        must: &["valid", "doc comments", "scalars placed", "repeats", "keys alike"],
    }
}
// ---- C37

/// A path and the value there, for everything that can be reached by one.
fn reach(v: &Val, path: &str, out: &mut Vec<(String, Val)>) {
    out.push((path.to_string(), v.clone()));
    match &v.pay {
        Pay::Seq(x) => {
            for (i, x) in x.iter().enumerate() {
                reach(x, &format!("{path}[{i}]"), out);
            }
        }
        Pay::Obj(es) => {
            for e in es {
                let (None, Some(k)) = (&e.key.tag, &e.key.pay) else { continue };
                if k.text.is_empty() || k.text.contains(['.', '[', ']']) {
                    continue;
                }
                reach(&e.val, &if path.is_empty() { k.text.clone() } else { format!("{path}.{}", k.text) }, out);
            }
        }
        _ => {}
    }
}
fn same(a: &Val, b: &Val) -> bool {
    let wrap = |v: &Val| vec![Ent { key: Key { tag: None, pay: None, sp: Sp(0, 0) }, val: v.clone(), doc: None }];
    diff(&wrap(a), &wrap(b)).is_none()
}
/// Everything a document holds is found by its path, and only that.
fn lookup(c: &mut Case) {
    let p = Profile::full().vary(&mut c.r);
    let (_, src) = document(&mut c.r, &p);
    let Verdict::Ok(d) = refp::read(&src) else { return };
    let Ok(tree) = styx_tree::parse(&src) else { return };
    let root = Val::new(vec![], Pay::Obj(collapse_chains(&d.ents)));
    let mut all = vec![];
    reach(&root, "", &mut all);
    // sibling dotted paths make several values with one path: the first is meant
    let mut tree2 = tree.clone();
    let mut seen = std::collections::HashSet::new();
    let mut used = vec![];
    for (path, want) in &all {
        if !seen.insert(path.clone()) {
            continue;
        }
        c.count("paths found");
        match c.guard(|| tree.get(path).map(real::from_value)) {
            Err(m) => return c.fail("get:panic", format!("{path:?}: {m}"), &src),
            Ok(None) => return c.fail("get:none", format!("nothing at {path:?}, which is {want:?}"), &src),
            Ok(Some(g)) if !same(&g, want) => return c.fail("get:other", format!("{path:?} is {want:?}, get gives {g:?}"), &src),
            _ => {}
        }
        match c.guard(|| tree2.get_mut(path).map(|v| real::from_value(v))) {
            Err(m) => return c.fail("get_mut:panic", format!("{path:?}: {m}"), &src),
            Ok(g) if !g.as_ref().is_some_and(|g| same(g, want)) => return c.fail("get_mut:other", format!("{path:?} is {want:?}, get_mut gives {g:?}"), &src),
            _ => {}
        }
        used.push(path.clone());
    }
    // paths that lead nowhere
    for _ in 0..12 {
        let mut q = c.r.pick(&used).clone();
        match c.r.below(6) {
            0 => q.push_str(".no such key"),
            1 => q.push_str(&format!("[{}]", c.r.pick(&["99999", "18446744073709551616", "-1", "", "x", "0x1"]))),
            2 => q.push('['),
            3 => q.push_str("é[]"),
            4 => q.insert(crate::mutate::boundary(&mut c.r, &q), *c.r.pick(&['[', ']', '.', 'é'])),
            _ => q.truncate(crate::mutate::boundary(&mut c.r, &q)),
        }
        let must_fail = !seen.contains(&q) && !q.contains(['.', '[', ']']);
        match c.guard(|| (tree.get(&q).map(real::from_value), tree2.get_mut(&q).map(|v| real::from_value(v)))) {
            Err(m) => return c.fail("get:panic", format!("{q:?}: {m}"), &src),
            Ok((a, b)) => {
                if a != b {
                    c.fail("get_mut:disagrees", format!("{q:?}: {a:?} and {b:?}"), &src);
                }
                if must_fail && a.is_some() && !has_key(&root, &q) {
                    c.fail("get:found", format!("{q:?} gives {a:?}"), &src);
                }
            }
        }
        c.count("odd paths");
    }
    // two dots have an empty key between them
    for (path, v) in &all {
        let Pay::Obj(es) = &v.pay else { continue };
        let Some(k) = es.iter().find_map(|e| e.key.pay.as_ref().filter(|s| e.key.tag.is_none() && !s.text.is_empty() && !s.text.contains(['.', '[', ']']))) else { continue };
        if has_key(v, "") || all.iter().filter(|(p, _)| p == path).count() > 1 {
            continue;
        }
        let q = format!("{path}{}{}", if path.is_empty() { "." } else { ".." }, k.text);
        match c.guard(|| (tree.get(&q).map(real::from_value), tree2.get_mut(&q).is_some())) {
            Err(m) => return c.fail("get:panic", format!("{q:?}: {m}"), &src),
            Ok((None, false)) => {}
            Ok((a, b)) => return c.fail("get:empty-key", format!("{q:?} gives {a:?} (get_mut: {b}) and there is no empty key"), &src),
        }
        c.count("empty keys");
    }
    // one value replaced: that path alone changes
    let q = c.r.pick(&used).clone();
    if !q.is_empty() {
        let new = styx_tree::Value::scalar("replaced \u{1F600}");
        *tree2.get_mut(&q).unwrap() = new;
        let g = tree2.get(&q).map(real::from_value);
        if g.as_ref().and_then(|g| if let Pay::Scalar(s) = &g.pay { Some(s.text.as_str()) } else { None }) != Some("replaced \u{1F600}") {
            c.fail("set", format!("{q:?} was replaced, get gives {g:?}"), &src);
        }
        let mut once = std::collections::HashSet::new();
        for (path, want) in &all {
            if !once.insert(path.as_str()) {
                continue;
            }
            let inside = path.starts_with(&q) || q.starts_with(path.as_str());
            if !inside && used.contains(path) && tree.get(path).is_some() {
                let a = tree2.get(path).map(real::from_value);
                if !a.as_ref().is_some_and(|a| same(a, want)) {
                    c.fail("set:elsewhere", format!("replacing {q:?} changed {path:?} from {want:?} to {a:?}"), &src);
                    break;
                }
            }
        }
        c.count("replaced");
    }
    c.eval(Some(&src));
}
fn has_key(v: &Val, k: &str) -> bool {
    matches!(&v.pay, Pay::Obj(es) if es.iter().any(|e| e.key.tag.is_none() && e.key.pay.as_ref().is_some_and(|s| s.text == k)))
}
/// Histories of changes to one object or sequence, against a list.
fn history(c: &mut Case) {
    use styx_tree as t;
    let mut log = String::new();
    let names: Vec<String> = ["a", "b", "", "a.b", "[0]", "é", "@", "a b", "true", "@a"].iter().map(|s| s.to_string()).collect();
    let obj = t::Value::object();
    let mut obj = match obj.payload {
        Some(t::Payload::Object(o)) => o,
        _ => return c.fail("object", "Value::object() is not an object", ""),
    };
    let start = c.r.below(4);
    let mut model: Vec<(Option<String>, Option<String>, String)> = vec![]; // tag, key, value
    for i in 0..start {
        // tagged keys of the same text are other keys
        let (tag, k) = (c.r.pct(60).then(|| "tag".to_string()), c.r.pick(&names).clone());
        if model.iter().any(|m| m.0 == tag && m.1.as_ref() == Some(&k)) {
            continue;
        }
        let mut key = t::Value::scalar(k.clone());
        if let Some(x) = &tag {
            key = key.with_tag(x.clone());
        }
        obj.entries.push(t::Entry { key, value: t::Value::scalar(format!("start {i}")), doc_comment: None });
        model.push((tag, Some(k), format!("start {i}")));
    }
    log.push_str(&format!("{model:?}\n"));
    let steps = c.r.range(1, 25);
    for i in 0..steps {
        let v = format!("v{i}");
        let k = c.r.pick(&names).clone();
        let at = |m: &Vec<(Option<String>, Option<String>, String)>, k: Option<&String>| m.iter().position(|x| x.0.is_none() && x.1.as_ref() == k);
        match c.r.below(4) {
            0 | 1 => {
                obj.insert(k.clone(), t::Value::scalar(v.clone()));
                match at(&model, Some(&k)) {
                    Some(j) => model[j].2 = v,
                    None => model.push((None, Some(k.clone()), v)),
                }
                log.push_str(&format!("insert {k:?} v{i}\n"));
            }
            2 => {
                obj.insert_unit(t::Value::scalar(v.clone()));
                match at(&model, None) {
                    Some(j) => model[j].2 = v,
                    None => model.push((None, None, v)),
                }
                log.push_str(&format!("insert @ v{i}\n"));
            }
            _ => {
                if let Some(x) = obj.get_mut(&k) {
                    *x = t::Value::scalar(v.clone());
                    log.push_str(&format!("set {k:?} v{i}\n"));
                    match at(&model, Some(&k)) {
                        Some(j) => model[j].2 = v,
                        None => return c.fail("object:get_mut", format!("{k:?} is not there"), &log),
                    }
                } else if let Some(x) = obj.get_unit_mut() {
                    *x = t::Value::scalar(v.clone());
                    log.push_str(&format!("set @ v{i}\n"));
                    match at(&model, None) {
                        Some(j) => model[j].2 = v,
                        None => return c.fail("object:get_unit_mut", "@ is not there", &log),
                    }
                }
            }
        }
        let now: Vec<_> = obj.iter().map(|(k, v)| (k.tag_name().map(|x| x.to_string()), k.scalar_text().map(|x| x.to_string()), v.as_str().unwrap_or("?").to_string())).collect();
        if now != model {
            return c.fail("object:entries", format!("the object is {now:?}, should be {model:?}"), &log);
        }
        for k in &names {
            let w = at(&model, Some(k)).map(|j| model[j].2.as_str());
            if obj.get(k).and_then(|v| v.as_str()) != w || obj.contains_key(k) != w.is_some() {
                return c.fail("object:get", format!("{k:?} is {w:?}, get says {:?}, contains_key {}", obj.get(k), obj.contains_key(k)), &log);
            }
        }
        let w = at(&model, None).map(|j| model[j].2.as_str());
        if obj.get_unit().and_then(|v| v.as_str()) != w || obj.contains_unit_key() != w.is_some() {
            return c.fail("object:unit", format!("@ is {w:?}, get_unit says {:?}", obj.get_unit()), &log);
        }
        if obj.len() != model.len() || obj.is_empty() != model.is_empty() {
            return c.fail("object:len", format!("{} entries, len {}", model.len(), obj.len()), &log);
        }
        c.count("changes");
    }
    c.eval(Some(&log));
}
/// Sibling dotted paths put together: the same paths and values as before.
fn joined(c: &mut Case) {
    let p = Profile::full().vary(&mut c.r);
    let (_, src) = document(&mut c.r, &p);
    let Verdict::Ok(d) = refp::read(&src) else { return };
    let Ok(tree) = styx_tree::parse(&src) else { return };
    let Some(o) = tree.as_object() else { return };
    let got = match c.guard(|| real::from_entries(&o.join_paths().entries)) {
        Err(m) => return c.fail("join:panic", m, &src),
        Ok(g) => g,
    };
    let mut want: Vec<Ent> = vec![];
    for e in collapse_chains(&d.ents) {
        let merge = want.last().is_some_and(|l| refp::key_id(&l.key) == refp::key_id(&e.key));
        if merge {
            if let (Pay::Obj(a), Pay::Obj(b)) = (&mut want.last_mut().unwrap().val.pay, e.val.pay) {
                a.extend(b);
                c.count("paths joined");
            }
        } else {
            want.push(e);
        }
    }
    let (mut g, mut w) = (got, want);
    drop_docs(&mut g);
    drop_docs(&mut w);
    if let Some(m) = diff(&w, &g) {
        c.fail("join", format!("joined: {m}"), &src);
    }
    c.eval(Some(&src));
}
pub fn c37() -> Spec {
    Spec {
        prop: "C37",
        rule: "an evaluation is one document all of whose values are looked up by path (and odd paths tried, one value replaced), or one history of changes to an object; distinct by text or history",
        streams: vec![
            Stream { name: "lookup", f: lookup, quick: 60_000, thorough: 2_000_000 },
            Stream { name: "history", f: history, quick: 60_000, thorough: 2_000_000 },
            Stream { name: "joined", f: joined, quick: 60_000, thorough: 2_000_000 },
        ],
        must: &["paths found", "odd paths", "empty keys", "replaced", "changes", "paths joined"],
    }
}
