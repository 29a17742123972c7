#!/bin/bash
# Builds the symbolic executor into /verif/bin (ignored by git).
cd "$(dirname "$0")/engine" || exit 1
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off HOME=/root
if [ -x ../bin/symgo ] && [ -z "$(find . -newer ../bin/symgo -name '*.go')" ]; then exit 0; fi
mkdir -p ../bin
for go in /usr/local/go/bin/go /opt/veriftools/go*/bin/go go; do
  case "$("$go" version 2>/dev/null)" in *go1.2[67]*) "$go" build -o ../bin/symgo . && exit 0;; esac
done
go build -o ../bin/symgo .
