#!/bin/bash
# Builds the analyser from the committed, vendored sources (offline).
set -e
cd "$(dirname "$0")/fincheck"
export PATH="$PATH:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/fincheck.new .
mv ../bin/fincheck.new ../bin/fincheck
