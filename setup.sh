#!/bin/bash
# Warms the Go build cache with the harness packages; the checks rebuild from /repo's working tree themselves.
cd "$(dirname "$0")/harness" || exit 1
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOSUMDB=off
for p in mathp tfhep prm mkp xp hist npar prec; do
  go test -c -vet=off -o /dev/null ./$p || exit 1
  go test -c -vet=off -tags=purego -o /dev/null ./$p || exit 1
done
for p in hist tfhep mkp xp; do
  go test -c -vet=off -race -tags=purego -o /dev/null ./$p || exit 1
done
