# Toolchain and settings of every build here.
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR RUST_LOG RUST_BACKTRACE CHANOMARC CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
