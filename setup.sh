#!/bin/bash
# Builds the harness once (also warms the build cache, plain and -race).
set -e
cd "$(dirname "$(readlink -f "$0")")"
. ./env.sh
export GOFLAGS=-mod=readonly
cd harness
t=$(mktemp -d)
go vet ./enc ./sz >/dev/null 2>&1 || true
go test -c -vet=off -o "$t/a" ./checks
go test -c -vet=off -race -o "$t/b" ./checks
rm -f "$t/a" "$t/b"
rmdir "$t"
