#!/bin/bash
# Builds the harness against /repo's current working tree: build.sh OUT
out=$(realpath -m "${1:?}")
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
cd "$here" || exit 2
mkdir -p driveref
for f in drive/*.go; do
  sed -e 's|"github.com/go-latex/latex/verifharness/cs"|CSIMPORT|' \
      -e 's|"github.com/go-latex/latex/\(verifharness/\)\?|"github.com/go-latex/latex/verifharness/ref/|' \
      -e 's|"github.com/go-latex/latex"|"github.com/go-latex/latex/verifharness/ref"|' \
      -e 's#verifharness/ref/internal/#verifharness/ref/ix/#' \
      -e 's|CSIMPORT|"github.com/go-latex/latex/verifharness/cs"|' \
      -e 's|^package drive$|package driveref|' -e 's|!noscan|!noscanref|; s|build noscan|build noscanref|' $f > driveref/$(basename $f)
done
cat > driveref/overlay.json <<J
{"Replace": {"/repo/verif_export.go": "$here/overlay/latex_export.go"}}
J
tags=
if ! go build -overlay driveref/overlay.json -o "$out" . 2> driveref/build.log; then
  # without the scanner, should its internals have changed
  tags=noscan
  go build -tags "$tags" -o "$out" . 2>> driveref/build.log || { cat driveref/build.log >&2; exit 2; }
fi
exit 0
