# The monitors, the library and the standard library with ThreadSanitizer.
tsan_build() {
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread --cfg vmon_tsan" cargo build --offline -Zbuild-std \
        --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml --target-dir target/tsan --bin vmon
}
