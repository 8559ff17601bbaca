# toolchain settings of the repository's own build, plus the hook flag and a private target directory
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg zok_verif"
export CARGO_TARGET_DIR="$here/target"
# cargo goes by mtimes: have rustc look at the crate under test again whenever its content differs from the last build's
stamp="$CARGO_TARGET_DIR/repo.sha256"
now="$(cd /repo && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)"
if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/zero-over-k-*
fi
