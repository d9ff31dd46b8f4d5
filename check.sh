#!/bin/bash
# check.sh ID            decide property ID on /repo's working tree (VERIF_TIER=quick|thorough)
# check.sh replay FILE   re-run one reported violation
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GOWORK=off
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$HERE
D=$(mktemp -d /tmp/gtmc.XXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
export TMPDIR=$D
cd "$HERE/harness" || exit 3

build() { # build ID -> $D/mc
  case "$1" in
  M04)
    go run ./gen rand "$D" && go build -tags dropout -overlay "$D/overlay.json" -o "$D/mc" . ;;
  Y03)
    go run ./gen sched /repo "$D" && go build -race -tags sched -overlay "$D/overlay.json" -o "$D/mc" . ;;
  *)
    go build -o "$D/mc" . ;;
  esac
}

if [ "$1" = setup ]; then
  go vet . >/dev/null 2>&1
  for i in N01 M04 Y03; do build $i || exit 1; done
  exit 0
fi
if [ "$1" = replay ]; then
  FILE=$(realpath "$2")
  ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$FILE") || exit 3
  build "$ID" || exit 3
  "$D/mc" replay "$FILE"
  exit $?
fi
build "$1" || { echo "check.sh: the harness does not build" >&2; exit 3; }
"$D/mc" run "$1"
exit $?
