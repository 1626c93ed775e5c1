# Build environment of the checks.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg rerecast_sim"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL || true
unset http_proxy https_proxy all_proxy no_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY NO_PROXY
