//! `styx lsp`, with a transport that works (see ../../vendor/README).
fn main() {
    let rt = tokio::runtime::Runtime::new().unwrap();
    if let Err(e) = rt.block_on(async { styx_lsp::run().await.map_err(|e| e.to_string()) }) {
        eprintln!("{e}");
        std::process::exit(1);
    }
}
