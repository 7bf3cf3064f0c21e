#!/bin/bash
# Warms the build cache; every check rebuilds what it needs.
cd "$(dirname "$0")" && . ./env.sh && cd mc && go build -o /dev/null . || exit 1
# what R06 needs; it builds it again
d=$(mktemp -d) && mkdir "$d/p" "$d/r" && go run ./instr /repo "$PWD/vsched" "$d/p" -points && go run ./instr /repo "$PWD/vsched" "$d/r" &&
  go build -overlay "$d/p/overlay.json" -tags sched -o /dev/null . && CGO_ENABLED=1 go build -race -overlay "$d/r/overlay.json" -tags sched -o /dev/null .
rm -rf "$d"
exit 0
