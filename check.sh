#!/bin/bash
# check.sh <property> [quick|thorough]: builds the analyser if needed and decides one property on /repo's working tree
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
bin="$root/checker/metischeck"
if [ ! -x "$bin" ] || [ -n "$(find "$root/checker" -name '*.go' -newer "$bin" -print -quit)" ]; then
  (cd "$root/checker" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "the analyser does not build"; exit 2; }
fi
METIS_VERIF_ROOT="$root" exec "$bin" "$@"
