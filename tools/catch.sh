#!/bin/bash
# catch.sh [-a] SEED…: runs the check of each seeded bug's property (-a: every check) on a patched scratch copy
. /opt/vp/env.sh
all=; [ "$1" = -a ] && { all=1; shift; }
V=/verif; [ $# = 0 ] && set -- $(ls $V/seeded)
(cd $V/checker && GOFLAGS=-mod=mod go build -o metischeck .) || exit 2
one() {
  s=$1; d=/tmp/cs/$s; /bin/rm -rf "$d" "/tmp/cs/vr-$s"; mkdir -p /tmp/cs/vr-$s/evidence; cp $V/known_findings.txt /tmp/cs/vr-$s/
  cp -a /repo "$d"; git -C "$d" apply $V/seeded/$s/patch.diff || { echo "$s PATCH FAILS"; return; }
  prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
  [ -n "$all" ] && what=all || what=$prop
  METIS_REPO=$d METIS_VERIF_ROOT=/tmp/cs/vr-$s timeout 900 $V/checker/metischeck $what > /tmp/cs/$s.out 2>&1
  rc=$?
  v=$(grep -o 'VIOLATION property=[A-Z0-9]*' /tmp/cs/$s.out | sed 's/.*=//' | sort | uniq -c | awk '{printf "%s(%s) ",$2,$1}')
  u=$(grep -c UNDECIDED /tmp/cs/$s.out)
  case " $v" in *" $prop("*) r=CAUGHT;; *) r=MISSED;; esac
  echo "$r $s rc=$rc: $v undecided=$u"
  /bin/rm -rf "$d" "/tmp/cs/vr-$s"
}
export -f one; export V all
mkdir -p /tmp/cs
printf '%s\n' "$@" | xargs -P ${J:-6} -I{} bash -c 'one {}'
