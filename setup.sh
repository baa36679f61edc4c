#!/bin/bash
# setup.sh: checks the toolchain and warms the build cache (plain and race builds of everything the checks use).
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
go version || exit 1
B=$(mktemp -d "${TMPDIR:-/tmp}/hxbuild.XXXXXX") || exit 1
trap 'rm -rf "$B"' EXIT
{
  echo '{"Replace": {'
  sep=''
  for f in "$VERIF"/harness/*; do
    printf '%s"/repo/zz_verif_hx/%s": "%s"' "$sep" "$(basename "$f")" "$f"
    sep=$',\n'
  done
  echo '}}'
} > "$B/overlay.json"
cd /repo || exit 1
go build -overlay "$B/overlay.json" -o "$B/hx" ./zz_verif_hx || exit 1
go build -race -overlay "$B/overlay.json" -o "$B/hxr" ./zz_verif_hx || exit 1
go build -o "$B/receiver" ./cli/receiver && go build -o "$B/packet-gen" ./cli/packet-gen || exit 1
echo ready
