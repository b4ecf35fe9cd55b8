#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker from /repo's working tree and decides property ID.
# exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; exit 2: the check itself failed.
set -u
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export HOME=${HOME:-/root}
unset RAPID_SEED RAPID_CHECKS 2>/dev/null
for v in $(env | grep -o '^RAPID_[A-Z_]*'); do unset "$v"; done
ID=${1:?usage: check.sh ID [tier]}
[ $# -ge 2 ] && export VERIF_TIER=$2
mkdir -p "$VERIF_DIR/.build" "$VERIF_DIR/evidence" || exit 2
BIN="$VERIF_DIR/.build/pbt-$ID.$$"
race=""
[ "$ID" = C23 ] && race="-race"
trap 'rm -f "$BIN"' EXIT
if ! (cd "$VERIF_DIR/pbt" && go build $race -o "$BIN" .) ; then
  echo "CHECK-ERROR: build failed" >&2
  exit 2
fi
if [ "${VERIF_TIER:-quick}" = thorough ]; then # The coverage-guided search of the thorough tier.
  trap 'rm -f "$BIN" "$BIN.fuzz"' EXIT
  if ! (cd "$VERIF_DIR/pbt" && go test -c -fuzz=FuzzFacet -o "$BIN.fuzz" ./fuzz >/dev/null) ; then
    echo "CHECK-ERROR: build of the fuzzer failed" >&2
    exit 2
  fi
  export PBT_FUZZBIN="$BIN.fuzz"
fi
cd "$VERIF_DIR" || exit 2
"$BIN" run "$ID"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
