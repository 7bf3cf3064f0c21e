#!/bin/bash
# check.sh ID quick|thorough, check.sh replay FILE: builds the explorer against /repo's working tree and runs one check.
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF_DIR/env.sh"
cd "$VERIF_DIR/mc" || exit 2
bin=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
fail() {
  cat "$bin/err" >&2
  echo "build failed" >&2
  exit 2
}
if [ "$1" = R06 ] || { [ "$1" = replay ] && grep -q '"property": "R06"' "$2"; }; then
  # copies of the repository's packages under a scheduler; copies with conflict detection
  go build -o "$bin/instr" ./instr 2>"$bin/err" || fail
  mkdir "$bin/points" "$bin/race"
  "$bin/instr" /repo "$VERIF_DIR/mc/vsched" "$bin/points" -points 2>"$bin/err" || fail
  "$bin/instr" /repo "$VERIF_DIR/mc/vsched" "$bin/race" 2>"$bin/err" || fail
  if ! go build -overlay "$bin/points/overlay.json" -tags sched -o "$bin/mc" . 2>"$bin/err"; then
    # code the instrumentation does not cope with: whole calls are the steps then
    cat "$bin/err" >&2
    echo "R06: statements are not instrumented" >&2
    go build -overlay "$bin/race/overlay.json" -tags sched -o "$bin/mc" . 2>"$bin/err" || fail
  fi
  CGO_ENABLED=1 go build -race -overlay "$bin/race/overlay.json" -tags sched -o "$bin/mc-race" . 2>"$bin/err" || fail
  export MC_RACE_BIN="$bin/mc-race"
else
  go build -o "$bin/mc" . 2>"$bin/err" || fail
fi
"$bin/mc" "$@"
