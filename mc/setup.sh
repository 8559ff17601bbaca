#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cargo build --offline --release --manifest-path "$here/Cargo.toml" 2>&1 | tail -n 3
rc="${PIPESTATUS[0]}"
[ "$rc" = 0 ] && echo "$now" >"$stamp"
exit "$rc"
