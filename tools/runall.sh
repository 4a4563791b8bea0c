#!/bin/sh
# runs the given checks in parallel (development aid) and prints the violations in short form
cd /verif/checker
for id in "$@"; do METIS_VERIF_ROOT=${VR:-/verif} timeout 900 ./metischeck $id > /tmp/o.$id 2>&1 & done; wait
for id in "$@"; do echo "== $id $(tail -1 /tmp/o.$id)"; grep -E "^(C[0-9]+\.|undecided|panic)" /tmp/o.$id | grep -v obligations$ | cut -c1-${W:-260} | sort | uniq -c | sort -rn | head -${N:-15}; done
