# Sourced by the check scripts: offline cargo with the toolchain the repository builds with here.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
