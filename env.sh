# Toolchain settings shared by all commands (sourced).
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.90.0 RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export PATH="$HOME/.cargo/bin:$PATH"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS 2>/dev/null || true
