#!/bin/bash
# Makes /verif/harness/ref from the tree at $1 (default /repo): the reference
# is the pinned source the verifier accepted, under another import path.
# Run by hand, when /repo gets a fix commit; the result is committed.
set -e
src=${1:-/repo}; dst=/verif/harness/ref
rm -rf /verif/harness/ref
mkdir -p $dst
cd "$src"
for d in . ast token tex mtex mtex/symbols font font/ttf font/lm font/liberation drawtex drawtex/drawimg drawtex/drawpdf internal/tex2unicode; do
  mkdir -p $dst/${d/internal/ix}
  for f in $d/*.go; do
    case $f in *_test.go|*gen-*.go) continue;; esac
    sed -e 's|"github.com/go-latex/latex/|"github.com/go-latex/latex/verifharness/ref/|' \
        -e 's#verifharness/ref/internal/#verifharness/ref/ix/#' -e 's|"github.com/go-latex/latex"|"github.com/go-latex/latex/verifharness/ref"|' \
        -e 's|^\(package [a-z0-9]*\) // import.*|\1|' $f > $dst/${f/internal/ix}
  done
done
cp /verif/harness/overlay/latex_export.go $dst/verif_export.go
cp /verif/harness/refextra/macros_export.go $dst/verif_macros.go
