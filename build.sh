#!/bin/bash
# Builds the checker (and the real tomlkit against /repo's working tree). Offline. Output in /verif/target (git-ignored).
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="--cap-lints allow" CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${MC_TARGET:-/verif/target}"
here="$(cd "$(dirname "$0")" && pwd)"
# Cargo compares time stamps; compare contents as well, so that a change whose file times are old is seen too.
repo="$(sed -n 's/^tomllib = { path = "\(.*\)" }/\1/p' "$here/harness/Cargo.toml")"
sum="$(cd "$repo" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)"
if [ "$(cat "$CARGO_TARGET_DIR/sources.sum" 2>/dev/null)" != "$sum" ]; then
  if [ -d "$CARGO_TARGET_DIR/release" ]; then for p in tomllib kit; do cargo clean --release --offline --locked -p $p --manifest-path "$here/kit/Cargo.toml" 2>/dev/null; done; fi
  mkdir -p "$CARGO_TARGET_DIR"; echo "$sum" >"$CARGO_TARGET_DIR/sources.sum"
fi
run() { cargo build --release --offline --locked --manifest-path "$here/$1/Cargo.toml" 2>"$CARGO_TARGET_DIR/$1.log" || { echo "build of $1 failed:"; grep -E "^error" -A12 "$CARGO_TARGET_DIR/$1.log" | head -60; exit 3; }; }
mkdir -p "$CARGO_TARGET_DIR"
for c in "${@:-harness}"; do run "$c"; done
