#!/bin/bash
# builds the analyser
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$root/checker" && GOFLAGS=-mod=mod GOPROXY=off go build -o metischeck .
