#!/bin/bash
# usage: run.sh REPO [-run regexp]: runs every demonstration against REPO, one process each
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd); repo=${1:-/repo}; pat=${2:-TestF_}
export GODEBUG=randautoseed=0
tmp=$(mktemp -d); trap '/bin/rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/server/zz_h_test.go":"%s/harness_test.go","%s/server/zz_f_test.go":"%s/findings_test.go"}}' $repo $here $repo $here > $tmp/ov.json
cd $repo/server && go test -c -vet=off -overlay $tmp/ov.json -o $tmp/t.bin . || exit 2
for t in $($tmp/t.bin -test.list "$pat"); do
  if timeout 60 $tmp/t.bin -test.run "^$t\$" > $tmp/out 2>&1; then echo "ok   $t"; else echo "FAIL $t: $(grep -m1 -E 'panic:|_test.go:[0-9]+:|fatal' $tmp/out | cut -c1-140)"; fi
done
