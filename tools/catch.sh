#!/bin/bash
# catch.sh [ID...]: runs the checks against planted bugs: the one of the bug's property, or all with ALL=1
cd /verif
R=/tmp/catch/repo
mkdir -p /tmp/catch; [ -d $R ] || cp -a /repo $R
git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
for d in ${@:-$(ls seeded)}; do
  git -C $R apply "/verif/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  list=$p; [ -n "$ALL" ] && list="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24"
  out="$d ($p):"
  for c in $list; do
    KIT_REPO=$R KIT_BUILD=/tmp/catch/build KIT_OUT=/tmp/catch/out KIT_EVIDENCE=/tmp/catch/ev bash check.sh $c quick > /tmp/catch.log 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$c" /tmp/catch.log; then out="$out $c"; elif [ $rc != 0 ]; then out="$out $c:rc=$rc"; else [ -z "$ALL" ] && out="$out MISSED"; fi
  done
  git -C $R checkout -q -- .
  echo "$out"
done
