#!/bin/bash
# Checks that the toolchain can build the harness offline. Every check builds what it needs by itself.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
cd "$(dirname "$0")/harness" || exit 2
go version && go vet ./internal/... >/dev/null 2>&1
work="$(mktemp -d /tmp/verif-setup.XXXXXX)" || exit 2
go build -o "$work/" ./cmd/... ; rc=$?
/bin/rm -rf "$work"
exit $rc
