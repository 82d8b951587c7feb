#!/bin/bash
# build_driver.sh OUT [extra go build flags]: compiles the driver from /repo's current working tree (VERIF_REPO: another tree, for trials).
set -e
OUT=$1; shift
H=$(cd "$(dirname "$0")/../harness/driver" && pwd); R=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
OV=$(mktemp)
{ echo '{"Replace":{'; first=1
  for f in $H/*.go; do [ $first = 1 ] || echo ','; first=0; printf '"%s/cmd/verifdriver/%s":"%s"' "$R" "$(basename $f)" "$f"; done
  echo '}}'; } > $OV
cd $R
case "$*" in *-race*) export CGO_ENABLED=1;; esac
go build -overlay $OV "$@" -o $OUT ./cmd/verifdriver
rm -f $OV
