fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut s = String::from("meta { id from-outdir }\nschema { @ @object{\n");
    for i in 0..800 {
        s.push_str(&format!("  /// field {i} \u{e9}\n  f{i} @seq(@enum{{ a @, b{i} @string }})\n"));
    }
    s.push_str("} }\n");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("gen.styx"), s).unwrap();
}
