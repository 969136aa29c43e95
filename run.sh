#!/usr/bin/env bash
# run.sh <PROPERTY> [--thorough|--replay FILE|--only SECTION]
# Rebuilds the check's binary from /repo's working tree and runs it.
# exit 0: held; exit 1 + VIOLATION line: broken; exit 2/3: the check itself could not answer.
set -u
cd "$(dirname "$0")"
ROOT="$(pwd)"
PROP="$1"; shift
. "$ROOT/env.sh"
BIN="$(awk -v p="$PROP" '$1==p{print $2}' "$ROOT/checks.map")"
if [ -z "$BIN" ]; then echo "unknown property $PROP" >&2; exit 2; fi
LOG="$ROOT/target/build-$BIN.log"
mkdir -p "$ROOT/target" "$ROOT/evidence" "$ROOT/replays"
if ! cargo build --offline --manifest-path "$ROOT/harness/Cargo.toml" -p "$BIN" >"$LOG" 2>&1; then
  echo "[$PROP] build of check binary $BIN failed:"; grep -A12 "^error" "$LOG" | head -80; exit 2
fi
ulimit -S -v 25165824 2>/dev/null
ulimit -c 0 2>/dev/null
"$CARGO_TARGET_DIR/debug/$BIN" "$PROP" "$@"
rc=$?
case $rc in
  0|1|2|3) exit $rc;;
  132|134|135|136|139)
    # the process was brought down by a fault signal while executing the monitored code
    R="$ROOT/replays/$PROP-crash.json"
    echo "{\"property\":\"$PROP\",\"verif_seed\":${VERIF_SEED:-1},\"signature\":\"process:signal\",\"message\":\"check process ended with status $rc while executing the code under test\",\"how\":\"VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} bash /verif/run.sh $PROP\"}" > "$R"
    echo "[$PROP] process ended with fault status $rc"
    echo "VIOLATION property=$PROP replay=$R"
    exit 1;;
  *) echo "[$PROP] unexpected status $rc"; exit 2;;
esac
