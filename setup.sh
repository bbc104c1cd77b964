#!/bin/bash
# Builds the analyzer from the committed sources (sourced by check.sh, which needs its variables).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
stale=1
if [ -x "$here/bin/analyzer" ]; then
  stale=0
  for f in "$here"/analyzer/*; do
    if [ "$f" -nt "$here/bin/analyzer" ]; then stale=1; fi
  done
fi
if [ $stale = 1 ]; then
  mkdir -p "$here/bin"
  (cd "$here/analyzer" && go build -o "$here/bin/analyzer.tmp.$$" . && mv "$here/bin/analyzer.tmp.$$" "$here/bin/analyzer")
fi
