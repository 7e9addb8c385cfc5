export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/mc RUSTC_WRAPPER=/verif/bin/rustc-mc MC_SHADOW=1 MC_STATE=/verif/target/mc/state
