#!/bin/bash
# run.sh ID [quick|thorough] [extra harness flags]   decide one property on /repo's current working tree
# run.sh --setup                                     build everything once (warms the Go build cache)
# run.sh --replay FILE                               re-execute a recorded violation with its event log
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 GONOSUMDB=* GOFLAGS=-mod=mod
B=$(mktemp -d /tmp/verif-build.XXXXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
die() { echo "CHECK ERROR: $*"; exit 2; }

build() { # $1 = instrumentation level
  rm -rf "$B/out"
  "$B/instrument" -repo "$REPO" -out "$B/out" -modfile "$B/repo.mod" -level "$1" >"$B/log" 2>&1 || return 1
  (cd "$B/out" && go mod edit -replace "vshim=$V/shim") >>"$B/log" 2>&1 || return 1
  rm -rf "$B/h"; mkdir "$B/h"; cp "$V"/harness/*.go "$B/h/" || return 1
  cat >"$B/h/go.mod" <<M
module vharness

go 1.21

require (
	github.com/scouter-contrib/scouter-agent-golang v0.0.0
	vshim v0.0.0
)

replace github.com/scouter-contrib/scouter-agent-golang => $B/out

replace vshim => $V/shim
M
  # a tree whose exported helpers changed still gets the checks that do not call them
  local i bad
  for i in 1 2 3 4 5 6 7 8; do
    (cd "$B/h" && go build -trimpath -gcflags=vharness=-e -o "$B/harness" .) >"$B/log1" 2>&1 && return 0
    cat "$B/log1" >>"$B/log"
    bad=$(sed -n 's,^\./\(c[0-9][0-9][a-z_0-9]*\.go\):.*,\1,p' "$B/log1" | sort -u)
    [ -n "$bad" ] || return 1
    for f in $bad; do rm -f "$B/h/$f"; done
    echo "note: without $(echo $bad)"
  done
  return 1
}

cp "$REPO/go.mod" "$B/repo.mod" && cp "$REPO/go.sum" "$B/repo.sum" || die "no go.mod in $REPO"
(cd "$V/tools" && go build -trimpath -o "$B/instrument" ./instrument) || die "instrumenter does not build"
if ! build 2; then
  cp "$B/log" "$B/log2"
  echo "note: level 2 instrumentation failed, retrying with level 1"; head -5 "$B/log2"
  build 1 || { cat "$B/log2" "$B/log"; die "the tree does not build under instrumentation"; }
fi
[ "$1" = --setup ] && { echo "built"; exit 0; }
if [ "$1" = --replay ]; then
  id=$(sed -n 's/.*"Property": "\(.*\)",/\1/p' "$2" | head -1)
  f=$(realpath "$2"); cd "$B" && "$B/harness" -prop "$id" -replay "$f"; exit $?
fi
ID=$1 TIER=${2:-quick}
shift; shift
E=${VERIF_EVIDENCE:-$V/evidence}
mkdir -p "$E/replay"
cd "$B"
"$B/harness" -prop "$ID" -tier "$TIER" -evidence "$E/$ID.json" -replaydir "$E/replay" "$@"
rc=$?
if [ $rc -eq 0 ]; then
  grep "^known: property=$ID " "$V/known-findings.txt" 2>/dev/null | sed 's/^known: /KNOWN-FINDING: /'
fi
exit $rc
