#!/bin/bash
# check.sh PROPERTY TIER: build the symbolic executor if needed and run one check.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export PATH=/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
if [ ! -x bin/gosym ] || [ -n "$(find engine -newer bin/gosym -print -quit)" ]; then
  mkdir -p bin
  (cd engine && go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym) || exit 2
fi
[ "$1" = setup ] && exit 0
exec bin/gosym -property "$1" -tier "$VERIF_TIER" -repo "${REPO:-/repo}" -verif "$V"
