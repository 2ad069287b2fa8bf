#!/bin/bash
# run.sh SEED PROP...  runs checks against a copy of /repo with the seed's patch
id=$1; shift
v=$(cd "$(dirname "$0")/../.." && pwd)
w=$(mktemp -d /tmp/sr.XXXXXX)
cp -a /repo $w/repo
git -C $w/repo apply $v/seeded/$id/patch.diff || exit 9
for p in "$@"; do
  mkdir -p $w/out $w/ev
  o=$(cd $v && VERIF_REPO=$w/repo VERIF_BUILD=$w/build VERIF_OUT=$w/out ./check $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$o" | grep -m1 'violation\|^C..: \|warning\|build')"
done
rm -rf "$w"
