#!/bin/bash
# usage: run.sh <property> <quick|thorough> | run.sh replay <file>
# Rebuilds the harness against /repo's working tree and runs one property's monitors.
cd "$(dirname "$0")" || exit 2
V=$PWD
. "$V/harness/env.sh"
MODE=${1:?}
RACE=
if [ "$MODE" = X03 ] || { [ "$MODE" = replay ] && grep -q '"Property": "X03"' "$2"; }; then RACE=-race; fi
BIN=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
cd "$V/harness" || exit 2
if ! go build -modfile="$V/harness/go.mod" $RACE -o "$BIN/h" ./cmd; then echo "harness build failed" >&2; exit 2; fi
export HARNESS_REPO=/repo
export GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=10 log_path=$BIN/race"
if [ "$MODE" = replay ]; then "$BIN/h" -replay "$2"; exit $?; fi
"$BIN/h" -prop "$MODE" -tier "${2:-quick}" -seed "${VERIF_SEED:-1}" -evidence "$V/evidence" -replaydir "$V/replays" -known "$V/KNOWN_FINDINGS.txt" "${@:3}"
exit $?
