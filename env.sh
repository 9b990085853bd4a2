# Toolchain used to build the harness: the one /repo itself is built with.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0 RUSTC=/opt/vp/bin/rustc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset rewrite rewrite_test_data CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR=${FALLSIM_TARGET:-/verif/target}
export RUSTFLAGS="-Cpasses=sancov -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
FALLSIM=$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/fallsim
