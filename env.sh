export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/target CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
