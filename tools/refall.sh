#!/bin/bash
# Development aid: refall.sh KIND...: rewrite a copy of /repo with each transformation and run every check on it.
cd /verif
for k in "$@"; do
  d=/tmp/ref_$k; rm -rf "$d"; git clone -q /repo "$d"
  GO111MODULE=off GOTOOLCHAIN=local go run tools/refgen/main.go "$d" $k
  ( cd "$d" && GOPROXY=off GOFLAGS=-mod=mod go test -vet=off -count=1 . 2>&1 | tail -3 )
  mkdir -p /tmp/refv/evidence; [ -d /tmp/refv/lincheck/spec ] && [ ! -L /tmp/refv/lincheck ] || { rm -f /tmp/refv/lincheck; cp -r lincheck /tmp/refv/lincheck; }; ln -sfn /verif/known_findings.txt /tmp/refv/known_findings.txt
  for p in ${PROPS:-C01 C02 C03 C04 C07 C08 C09 C10 C11 C12 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25}; do
    timeout 900 ${LC:-/tmp/lc} -prop $p -tier quick -repo "$d" -verif /tmp/refv > /tmp/refv/$k.$p.txt 2>&1; rc=$?
    echo "$k $p rc=$rc $(tail -1 /tmp/refv/$k.$p.txt | cut -c1-160)"
  done
done
