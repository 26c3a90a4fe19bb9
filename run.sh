#!/bin/bash
# run.sh <property> [quick|thorough]: builds the analyser and applies it to
# the current source of /repo. Exit 0 held, 1 violated, 2 could not analyse.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
export HOME="${HOME:-/root}"
mkdir -p "$root/bin"
(
  flock 9
  cd "$root/checker" && go build -o "$root/bin/tw" .
) 9>"$root/bin/.lock" || { echo "cannot build the analyser"; exit 2; }
[ "$1" = setup ] && exit 0
TW_ROOT="$root" TW_REPO="${TW_REPO:-/repo}" exec "$root/bin/tw" check "$1" "${2:-${VERIF_TIER:-quick}}"
