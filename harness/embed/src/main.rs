//! A program with embedded schemas that reads its own file (C23).
styx_embed::embed_inline!(
    r#"meta { id vembed-one, version 1.0.0 }
schema { @ @object{ host @string, port @int } }
"#
);
const ONE: &str = r#"meta { id vembed-one, version 1.0.0 }
schema { @ @object{ host @string, port @int } }
"#;
styx_embed::embed_inline!("meta {\n\tid \"vembed two é\"\n}\nschema { @ @object{ \"a\\\\b\" @string } }\n");
const TWO: &str = "meta {\n\tid \"vembed two é\"\n}\nschema { @ @object{ \"a\\\\b\" @string } }\n";
styx_embed::embed_inline!(
    r##"meta { id vembed_three }
/// doc "#" here
schema { @ @object{ t @enum{ a @, b @ } } }"##
);
const THREE: &str = r##"meta { id vembed_three }
/// doc "#" here
schema { @ @object{ t @enum{ a @, b @ } } }"##;
styx_embed::embed_inline!(
    "meta { id vembed\u{2d}four, \x76ersion \'1\' }\n\
    schema { @ @string }\u{a}// \u{1F_600}"
);
const FOUR: &str = "meta { id vembed\u{2d}four, \x76ersion \'1\' }\n\
    schema { @ @string }\u{a}// \u{1F_600}";
styx_embed::embed_inline!(
    "meta {
  id vembed-five
}
schema { @ @string }
"
);
const FIVE: &str = "meta {
  id vembed-five
}
schema { @ @string }
";
// ids that look alike once they are made into symbols
styx_embed::embed_schema!("meta { id like-this }");
styx_embed::embed_inline!("meta { id like_this }");
styx_embed::embed_schemas!("meta { id 9like.this }");
styx_embed::embed_file!("a.styx");
styx_embed::embed_files!("b.styx", "c.styx",);
styx_embed::embed_outdir_file!("gen.styx");

fn main() {
    let mut want: Vec<&str> = vec![
        ONE, TWO, THREE, FOUR, FIVE,
        "meta { id like-this }", "meta { id like_this }", "meta { id 9like.this }",
        include_str!("../a.styx"), include_str!("../b.styx"), include_str!("../c.styx"),
        include_str!(concat!(env!("OUT_DIR"), "/gen.styx")),
    ];
    want.sort();
    let got = styx_embed::extract_schemas_from_file(&std::env::current_exe().unwrap()).map(|mut v| {
        v.sort();
        v
    });
    let got = match got {
        Ok(v) => serde_json::json!(v),
        Err(e) => serde_json::json!({ "error": e.to_string() }),
    };
    println!("{}", serde_json::json!({ "want": want, "got": got }));
}
