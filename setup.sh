#!/bin/bash
# Warms the Go build cache; the checks build what they need themselves.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=/root GOMODCACHE=/root/go/pkg/mod
d=$(mktemp -d) || exit 1
cp -a harness "$d/harness"
(cd "$d/harness" && go build -o "$d/vh" . && go build -race -o "$d/vhr" .)
rc=$?
rm -rf "$d"
exit $rc
