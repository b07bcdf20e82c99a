#!/bin/bash
# run.sh ID: builds what the check of property ID needs from /repo's working tree and runs it.
id="$1"
root="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export VERIF_ROOT="$root" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
work="$(mktemp -d /tmp/verif-run.XXXXXX)" || exit 2
trap '/bin/rm -rf "$work"' EXIT
export TMPDIR="$work"
race=""
case "$id" in
  C01|C02) cmd=fescan;;
  C03) cmd=fescan; race="-race";;
  C04|C05|C26) cmd=feparse;;
  *) cmd=be;;
esac
cd "$root/harness" || exit 2
go build $race -o "$work/check" "./cmd/$cmd" || exit 2
"$work/check" "$id"
