#[cfg(feature = "typed")]
pub mod embed;
pub mod export;
pub mod fmt;
pub mod front;
pub mod known;
pub mod parse;
#[cfg(feature = "typed")]
pub mod read;
#[cfg(feature = "typed")]
pub mod report;
pub mod schema;
#[cfg(feature = "typed")]
pub mod schemacheck;
pub mod spell;
#[cfg(feature = "typed")]
pub mod schemagen;
#[cfg(feature = "typed")]
pub mod typed;
#[cfg(feature = "typed")]
pub mod types;
pub mod view;
#[cfg(feature = "wasm")]
pub mod wasm;
pub mod write;
use crate::run::Spec;

pub fn spec(p: &str) -> Option<Spec> {
    Some(match p {
        "C01" => front::c01(),
        "C02" => front::c02(),
        "C03" => front::c03(),
        "C04" => parse::c04(),
        "C05" => front::c05(),
        "C06" => front::c06(),
        "C07" => front::c07(),
        "C08" => front::c08(),
        "C09" => fmt::c09(),
        "C10" => fmt::c10(),
        "C11" => fmt::c11(),
        "C12" => write::c12(),
        "C36" => view::c36(),
        "C37" => view::c37(),
        #[cfg(feature = "wasm")]
        "C39" => wasm::c39(),
        #[cfg(feature = "typed")]
        "C38" => report::c38(),
        #[cfg(feature = "typed")]
        "C13" => typed::c13(),
        #[cfg(feature = "typed")]
        "C14" => typed::c14(),
        #[cfg(feature = "typed")]
        "C15" => read::c15(),
        #[cfg(feature = "typed")]
        "C16" => schemacheck::c16(),
        #[cfg(feature = "typed")]
        "C17" => schemagen::c17(),
        #[cfg(feature = "typed")]
        "C18" => schemacheck::c18(),
        #[cfg(feature = "typed")]
        "C23" => embed::c23(),
        _ => return None,
    })
}
pub fn judge_text(mode: &str, text: &str) {
    match mode {
        "ref" => println!("{:#?}", crate::refp::read(text)),
        "events" => {
            for e in crate::real::events(text) {
                println!("{:?}", e);
            }
        }
        "tree" => println!("{:#?}", crate::real::tree(text)),
        _ => panic!("mode"),
    }
}
