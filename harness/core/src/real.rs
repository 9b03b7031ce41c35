//! Adapters: what the real code says about a text, in terms of the model.
use crate::model::*;
use styx_parse::{Event, EventKind, ParseErrorKind, Parser, ScalarKind, Span};

pub fn kind(k: ScalarKind) -> Kind {
    match k {
        ScalarKind::Bare => Kind::Bare,
        ScalarKind::Quoted => Kind::Quoted,
        ScalarKind::Raw => Kind::Raw,
        ScalarKind::Heredoc => Kind::Heredoc,
    }
}
pub fn unkind(k: Kind) -> ScalarKind {
    match k {
        Kind::Bare => ScalarKind::Bare,
        Kind::Quoted => ScalarKind::Quoted,
        Kind::Raw => ScalarKind::Raw,
        Kind::Heredoc => ScalarKind::Heredoc,
    }
}
fn sp(s: Span) -> Sp {
    Sp(s.start, s.end)
}
#[derive(Clone, Debug)]
pub struct PErr {
    pub kind: ParseErrorKind,
    pub sp: Sp,
}
#[derive(Debug, Clone)]
pub struct Parsed {
    pub ents: Vec<Ent>,
    pub errors: Vec<PErr>,
    pub comments: Vec<String>,
    pub events: usize,
}
pub fn events(src: &str) -> Vec<Event<'_>> {
    let limit = 64 + src.len() * 16;
    let mut p = Parser::new(src);
    let mut v = vec![];
    while let Some(e) = p.next_event() {
        v.push(e);
        if v.len() > limit {
            break;
        }
    }
    v
}
/// Build the model from events; Err describes a malformed stream.
pub fn from_events(evs: &[Event<'_>]) -> Result<Parsed, String> {
    enum F {
        Obj { ents: Vec<Ent>, doc: Option<String>, at: Span },
        Seq(Vec<Val>, Span),
        Tag(String, Span, Option<Val>),
        Entry { key: Option<Key>, val: Option<Val>, doc: Option<String> },
    }
    let mut st: Vec<F> = vec![];
    let mut root: Option<Vec<Ent>> = None;
    let mut errors = vec![];
    let mut comments = vec![];
    let mut predoc: Option<String> = None;
    fn put(st: &mut Vec<F>, v: Val) -> Result<(), String> {
        match st.last_mut() {
            Some(F::Seq(x, _)) => x.push(v),
            Some(F::Tag(_, _, slot)) => {
                if slot.is_some() {
                    return Err("two payloads in one tag".into());
                }
                *slot = Some(v)
            }
            Some(F::Entry { key, val, .. }) => {
                if key.is_none() {
                    return Err("value before key in entry".into());
                }
                if val.is_some() {
                    return Err("two values in one entry".into());
                }
                *val = Some(v)
            }
            Some(F::Obj { .. }) => return Err("value directly inside an object".into()),
            None => return Err("value outside the root object".into()),
        }
        Ok(())
    }
    for (i, e) in evs.iter().enumerate() {
        let s = e.span;
        let last = i + 1 == evs.len();
        match &e.kind {
            EventKind::DocumentStart => {
                if i != 0 {
                    return Err(format!("DocumentStart at event {i}"));
                }
            }
            EventKind::DocumentEnd => {
                // one trailing-content error may follow
                let rest_ok = evs[i + 1..].iter().all(|e| matches!(e.kind, EventKind::Error { .. }));
                if !last && !rest_ok {
                    return Err(format!("DocumentEnd at event {i} of {}", evs.len()));
                }
                if !st.is_empty() {
                    return Err("DocumentEnd inside an open structure".into());
                }
            }
            EventKind::ObjectStart => {
                if st.is_empty() && root.is_some() {
                    return Err("second root object".into());
                }
                if matches!(st.last(), Some(F::Obj { .. })) {
                    return Err("object directly inside an object".into());
                }
                let doc = if st.is_empty() { predoc.take() } else { None };
                st.push(F::Obj { ents: vec![], doc, at: s })
            }
            EventKind::ObjectEnd => match st.pop() {
                Some(F::Obj { ents, at, .. }) => {
                    if st.is_empty() {
                        root = Some(ents)
                    } else {
                        let mut v = Val::new(vec![], Pay::Obj(ents));
                        v.sp = Sp(at.start, s.end);
                        match put(&mut st, v) {
                        Err(m) if errors.is_empty() => return Err(m),
                        _ => {}
                    }
                    }
                }
                _ => return Err(format!("ObjectEnd at event {i} closes nothing")),
            },
            EventKind::SequenceStart => st.push(F::Seq(vec![], s)),
            EventKind::SequenceEnd => match st.pop() {
                Some(F::Seq(x, at)) => {
                    let mut v = Val::new(vec![], Pay::Seq(x));
                    v.sp = Sp(at.start, s.end);
                    match put(&mut st, v) {
                        Err(m) if errors.is_empty() => return Err(m),
                        _ => {}
                    }
                }
                _ => return Err(format!("SequenceEnd at event {i} closes nothing")),
            },
            EventKind::TagStart { name } => st.push(F::Tag(name.to_string(), s, None)),
            EventKind::TagEnd => match st.pop() {
                Some(F::Tag(n, at, v)) => {
                    let mut v = v.unwrap_or_else(Val::unit);
                    v.tags.insert(0, n);
                    v.sp = Sp(at.start, at.end.max(s.end));
                    match put(&mut st, v) {
                        Err(m) if errors.is_empty() => return Err(m),
                        _ => {}
                    }
                }
                _ => return Err(format!("TagEnd at event {i} closes nothing")),
            },
            EventKind::EntryStart => {
                let doc = match st.last_mut() {
                    Some(F::Obj { doc, .. }) => doc.take(),
                    _ => return Err(format!("EntryStart at event {i} outside an object")),
                };
                st.push(F::Entry { key: None, val: None, doc })
            }
            EventKind::EntryEnd => match st.pop() {
                Some(F::Entry { key, val, doc }) => {
                    let (key, val) = match (key, val) {
                        (Some(k), Some(v)) => (k, v),
                        (k, v) => {
                            if errors.is_empty() {
                                return Err(format!("entry with {} key and {} value, no error reported", k.is_some() as u8, v.is_some() as u8));
                            }
                            continue;
                        }
                    };
                    match st.last_mut() {
                        Some(F::Obj { ents, .. }) => ents.push(Ent { key, val, doc }),
                        _ => return Err("entry outside an object".into()),
                    }
                }
                _ => return Err(format!("EntryEnd at event {i} closes nothing")),
            },
            EventKind::Key { tag, payload, kind: k } => match st.last_mut() {
                Some(F::Entry { key, val, .. }) => {
                    if key.is_some() || val.is_some() {
                        return Err(format!("second key in an entry at event {i}"));
                    }
                    *key = Some(Key {
                        tag: tag.map(|t| t.to_string()),
                        pay: payload.as_ref().map(|p| Scal { text: p.to_string(), kind: kind(*k) }),
                        sp: sp(s),
                    })
                }
                _ => return Err(format!("key outside an entry at event {i}")),
            },
            EventKind::Scalar { value, kind: k } => {
                let mut v = Val::scalar(value.to_string(), kind(*k));
                v.sp = sp(s);
                match put(&mut st, v) {
                    Err(m) if errors.is_empty() => return Err(m),
                    _ => {}
                }
            }
            EventKind::Unit => {
                let mut v = Val::unit();
                v.sp = sp(s);
                match put(&mut st, v) {
                    Err(m) if errors.is_empty() => return Err(m),
                    _ => {}
                }
            }
            EventKind::Comment { text } => comments.push(text.to_string()),
            EventKind::DocComment { lines } => {
                let slot = match st.last_mut() {
                    Some(F::Obj { doc, .. }) => doc,
                    None if root.is_none() => &mut predoc,
                    _ => {
                        // inside an entry: trailing doc comment, attaches to the next entry
                        continue;
                    }
                };
                let l = lines.join("\n");
                match slot {
                    Some(x) => {
                        x.push('\n');
                        x.push_str(&l)
                    }
                    None => *slot = Some(l),
                }
            }
            EventKind::Error { kind } => errors.push(PErr { kind: kind.clone(), sp: sp(s) }),
        }
    }
    if evs.is_empty() || !matches!(evs[0].kind, EventKind::DocumentStart) {
        return Err("no DocumentStart".into());
    }
    if !evs.iter().any(|e| matches!(e.kind, EventKind::DocumentEnd)) {
        return Err("no DocumentEnd".into());
    }
    if !st.is_empty() {
        return Err("unclosed structure at the end of the stream".into());
    }
    Ok(Parsed { ents: root.unwrap_or_default(), errors, comments, events: evs.len() })
}

use styx_tree as t;
pub fn from_value(v: &t::Value) -> Val {
    let pay = match &v.payload {
        None => Pay::Unit,
        Some(t::Payload::Scalar(s)) => Pay::Scalar(Scal { text: s.text.clone(), kind: kind(s.kind) }),
        Some(t::Payload::Sequence(s)) => Pay::Seq(s.items.iter().map(from_value).collect()),
        Some(t::Payload::Object(o)) => Pay::Obj(from_entries(&o.entries)),
    };
    let mut r = Val::new(v.tag.iter().map(|t| t.name.clone()).collect(), pay);
    // a tagged value's own span covers its payload only; the tag's span covers the whole atom
    let mut s: Option<Sp> = v.span.map(sp);
    if let Some(x) = v.tag.as_ref().and_then(|t| t.span) {
        s = Some(match s {
            None => sp(x),
            Some(Sp(a, b)) => Sp(a.min(x.start), b.max(x.end)),
        });
    }
    r.sp = s.unwrap_or(Sp(u32::MAX, u32::MAX));
    r
}
pub fn from_entries(es: &[t::Entry]) -> Vec<Ent> {
    es.iter()
        .map(|e| {
            let k = from_value(&e.key);
            Ent {
                key: Key {
                    tag: k.tags.first().cloned(),
                    pay: match k.pay {
                        Pay::Scalar(s) => Some(s),
                        _ => None,
                    },
                    sp: k.sp,
                },
                val: from_value(&e.value),
                doc: e.doc_comment.clone(),
            }
        })
        .collect()
}
pub fn tree(src: &str) -> Result<Vec<Ent>, String> {
    match t::parse(src) {
        Err(e) => Err(e.to_string()),
        Ok(v) => match v.payload {
            Some(t::Payload::Object(o)) => Ok(from_entries(&o.entries)),
            x => Err(format!("root is not an object: {x:?}")),
        },
    }
}
pub fn to_value(v: &Val) -> t::Value {
    let payload = match &v.pay {
        Pay::Unit => None,
        Pay::Scalar(s) => Some(t::Payload::Scalar(t::Scalar { text: s.text.clone(), kind: unkind(s.kind), span: None })),
        Pay::Seq(x) => Some(t::Payload::Sequence(t::Sequence { items: x.iter().map(to_value).collect(), span: None })),
        Pay::Obj(es) => Some(t::Payload::Object(t::Object { entries: es.iter().map(to_entry).collect(), span: None })),
    };
    t::Value { tag: v.tags.first().map(|n| t::Tag { name: n.clone(), span: None }), payload, span: None }
}
pub fn to_entry(e: &Ent) -> t::Entry {
    let k = Val {
        tags: e.key.tag.iter().cloned().collect(),
        pay: match &e.key.pay {
            None => Pay::Unit,
            Some(s) => Pay::Scalar(s.clone()),
        },
        sp: Sp(0, 0),
        implied: Imp(false),
    };
    t::Entry { key: to_value(&k), value: to_value(&e.val), doc_comment: e.doc.clone() }
}
