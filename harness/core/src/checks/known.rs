//! Probes of recorded findings: fixed inputs on which the code is known to break a property.
//! What they report is matched with known-findings.txt by the driver, never here.
#[cfg(feature = "typed")]
use super::types::{Flat, Shape, Small};
use crate::model::*;
use crate::real;
use crate::run::Probe;
#[cfg(feature = "typed")]
use std::collections::HashMap;

fn want_tree(src: &str, want: &str) -> Result<(), String> {
    let (a, b) = (real::tree(src)?, real::tree(want)?);
    match diff(&forget_kinds(&b), &forget_kinds(&a)) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}
pub const PROBES: &[Probe] = &[
    Probe {
        prop: "C04",
        id: "quoted-path-segment",
        input: "\"a.b\".c value\n",
        f: |s| want_tree(s, "\"a.b\" {c value}"),
    },
    Probe { prop: "C04", id: "nested-dotted-key", input: "x {a.b 1}\n", f: |s| want_tree(s, "x {a {b 1}}") },
    Probe {
        prop: "C04",
        id: "tag-chain-in-tree",
        input: "x @outer/@item\"p\"\n",
        f: |s| match real::tree(s)? {
            t if format!("{t:?}").contains("item") => Ok(()),
            t => Err(format!("the inner tag is not in the tree: {t:?}")),
        },
    },
    Probe {
        prop: "C11",
        id: "extra-atom-dropped",
        input: "type @optional @string\n",
        f: |s| {
            let o = styx_format::format_source(s, Default::default());
            if o == s { Ok(()) } else { Err(format!("not left alone: {o:?}")) }
        },
    },
    Probe {
        prop: "C12",
        id: "tagged-scalar",
        input: "x @tag\"v\"\n",
        f: |s| {
            let v = styx_tree::parse(s).map_err(|e| e.to_string())?;
            want_tree(&styx_format::format_value_default(&v), s)
        },
    },
    #[cfg(feature = "typed")]
    Probe {
        prop: "C13",
        id: "none-as-unit",
        input: "opt @\n",
        f: |s| match facet_styx::from_str::<HashMap<String, Option<i32>>>(s) {
            Ok(m) if m.get("opt") == Some(&None) => Ok(()),
            Ok(m) => Err(format!("{m:?}")),
            Err(e) => Err(e.to_string()),
        },
    },
    #[cfg(feature = "typed")]
    Probe {
        prop: "C13",
        id: "newtype-list-variant",
        input: "x @one-list(1 2)\n",
        f: |s| match facet_styx::from_str::<HashMap<String, Shape>>(s) {
            Ok(m) if m.get("x") == Some(&Shape::OneList(vec![1, 2])) => Ok(()),
            Ok(m) => Err(format!("{m:?}")),
            Err(e) => Err(e.to_string()),
        },
    },
    #[cfg(feature = "typed")]
    Probe {
        prop: "C14",
        id: "flatten-number-like-string",
        input: "{id 0, x 0, y 3.14, tail foo}",
        f: |s| match serde_styx::from_str::<Flat>(s) {
            Ok(f) if f.inner.y == "3.14" => Ok(()),
            Ok(m) => Err(format!("{m:?}")),
            Err(e) => Err(e.to_string()),
        },
    },
    #[cfg(feature = "typed")]
    Probe { prop: "C15", id: "serde-dotted-path", input: "a.x 1\na.y z\n", f: |s| serde_map(s, "z") },
    #[cfg(feature = "typed")]
    Probe { prop: "C15", id: "serde-attributes", input: "a x>1 y>z\n", f: |s| serde_map(s, "z") },
    #[cfg(feature = "typed")]
    Probe { prop: "C15", id: "serde-schema-declaration", input: "@schema s.styx\na {x 1, y z}\n", f: |s| serde_map(s, "z") },
    #[cfg(feature = "typed")]
    Probe {
        prop: "C15",
        id: "serde-implied-unit",
        input: "a\nb 1\n",
        f: |s| match serde_styx::from_str::<HashMap<String, Option<String>>>(s) {
            Ok(m) if m.get("a") == Some(&None) && m.len() == 2 => Ok(()),
            Ok(m) => Err(format!("{m:?}")),
            Err(e) => Err(e.to_string()),
        },
    },
    #[cfg(feature = "typed")]
    Probe {
        prop: "C16",
        id: "pattern-ignored",
        input: "x bbb\n",
        f: |s| verdict("meta {id t, version \"1\"}\nschema {@ @object{x @string{pattern \"^a+$\"}}}", s, false),
    },
    #[cfg(feature = "typed")]
    Probe {
        prop: "C16",
        id: "literal-scalar",
        input: "x any\n",
        f: |s| {
            let schema = "meta {id t, version \"1\"}\nschema {@ @object{x any}}";
            verdict(schema, s, true)?;
            verdict(schema, "x {other value}\n", false)
        },
    },
    #[cfg(feature = "typed")]
    Probe {
        prop: "C17",
        id: "tag-chain",
        input: "x @Wrap/@two(1 a)\n",
        f: |s| {
            let sf = facet_styx::schema_file_from_type::<Wrapped>();
            let v = styx_tree::parse(s).map_err(|e| e.to_string())?;
            match facet_styx::validate(&v, &sf).errors.first() {
                None => Ok(()),
                Some(e) => Err(format!("{} at {}", e.message, e.path)),
            }
        },
    },
];
#[cfg(feature = "typed")]
#[derive(facet::Facet)]
pub struct Wrapped {
    pub x: super::types::Nest,
}
#[cfg(feature = "typed")]
fn verdict(schema: &str, doc: &str, want: bool) -> Result<(), String> {
    let sf: facet_styx::SchemaFile = facet_styx::from_str(schema).map_err(|e| e.to_string())?;
    let v = styx_tree::parse(doc).map_err(|e| e.to_string())?;
    let r = facet_styx::validate(&v, &sf);
    if r.is_valid() == want { Ok(()) } else { Err(format!("accepted: {}", !want)) }
}
#[cfg(feature = "typed")]
fn serde_map(s: &str, y: &str) -> Result<(), String> {
    match serde_styx::from_str::<HashMap<String, Small>>(s) {
        Ok(m) if m.get("a").is_some_and(|v| v.x == 1 && v.y == y) => Ok(()),
        Ok(m) => Err(format!("{m:?}")),
        Err(e) => Err(e.to_string()),
    }
}
