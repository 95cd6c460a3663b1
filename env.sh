export HOME="${HOME:-/root}"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
# As /opt/vp/build.sh, so that the third-party dependencies built for /repo can be reused.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR="$PWD/target"
export RUST_BACKTRACE=0 VH_VERIF="$PWD"
unset RUST_LIB_BACKTRACE RUSTFLAGS CARGO_ENCODED_RUSTFLAGS

# Copies the third-party build products of /repo/target; everything of brack itself is rebuilt.
seed_target() {
    [ -d "$CARGO_TARGET_DIR/debug/.fingerprint" ] && return 0
    [ -d /repo/target/debug/.fingerprint ] || return 0
    local d=$CARGO_TARGET_DIR/debug
    mkdir -p "$d" && cp -a /repo/target/debug/deps /repo/target/debug/build "$d/" &&
        cp -a /repo/target/debug/.fingerprint "$d/fp" &&
        find "$d/fp" -maxdepth 1 -name '*brack*' -exec rm -r {} + &&
        find "$d/deps" -maxdepth 1 -name '*brack*' -delete && mv "$d/fp" "$d/.fingerprint"
}
build_light() { (cd harness && cargo build --offline --profile light -p vh-light); }
build_heavy() { seed_target && (cd harness && cargo build --offline -p vh-heavy -p brack --bins); }
