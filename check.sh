#!/bin/bash
# check.sh ID: builds the harness and the programs of /repo's current tree and runs one check.
set -u
ID=${1:?usage: check.sh ID}
VERIF=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HX_VERIF=$VERIF
REPO=${HX_REPO:-/repo} # another tree only while developing
B=$(mktemp -d "${TMPDIR:-/tmp}/hxbuild.XXXXXX") || exit 2
trap 'chmod -R u+w "$B" 2>/dev/null; rm -rf "$B"' EXIT
{
  echo '{"Replace": {'
  sep=''
  for f in "$VERIF"/harness/*; do
    printf '%s"%s/zz_verif_hx/%s": "%s"' "$sep" "$REPO" "$(basename "$f")" "$f"
    sep=$',\n'
  done
  echo '}}'
} > "$B/overlay.json"
RACE=
case $ID in C08|C16|C20|C21|C25) RACE=-race ;; esac
cd "$REPO" || exit 2
go build $RACE -overlay "$B/overlay.json" -o "$B/hx" ./zz_verif_hx || { echo "build failed"; exit 2; }
case $ID in
  C28|C29) go build -o "$B/receiver" ./cli/receiver && go build -o "$B/packet-gen" ./cli/packet-gen || { echo "build failed"; exit 2; } ;;
esac
cd "$VERIF" || exit 2
export HX_BIN=$B
"$B/hx" check "$ID"
