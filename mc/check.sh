#!/bin/bash
# check.sh <property> [section[:index]]   (VERIF_TIER=quick|thorough)
# Builds the harness against /repo's current working tree and explores the property.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
log="$(mktemp /tmp/zokmc-build.XXXXXX)"
if ! cargo build --offline --release --manifest-path "$here/Cargo.toml" >"$log" 2>&1; then
  tail -n 60 "$log"; rm -f "$log"
  echo "the harness does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
echo "$now" >"$stamp"
verif="$(dirname "$here")"
# an execution of the code under test that exhausts memory or the stack ends the process
ulimit -v $((28 * 1024 * 1024)) 2>/dev/null
ZOKMC_VERIF="$verif" "$CARGO_TARGET_DIR/release/zokmc" "$@"
rc=$?
case $rc in
  132|134|136|137|139)
    mkdir -p "$verif/replays" "$verif/evidence"
    sect="$(cat "$CARGO_TARGET_DIR/exploring" 2>/dev/null)"
    f="$verif/replays/$1-died.txt"
    printf 'property: %s\nsection: %s\nsignature: died\nobserved: the process was ended with status %s while exploring\nreplay: %s/mc/check.sh %s %s\n' \
      "$1" "$sect" "$rc" "$verif" "$1" "$sect" >"$f"
    printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "model_checking", "wall_s": %s, "violations": 1, "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 0, "exhaustive": false, "samples": ["%s: the process ended with status %s"]}}\n' \
      "$1" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" "$SECONDS" "$sect" "$rc" >"$verif/evidence/$1.json"
    echo "VIOLATION property=$1 replay=$f"
    exit 1 ;;
esac
exit $rc
