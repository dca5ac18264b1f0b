#!/bin/bash
# verify_seeded.sh [ID...]: every planted bug still applies, passes the tests and fails its demonstration; the unchanged tree passes it
cd /verif
R=/tmp/vseed/repo
mkdir -p /tmp/vseed; [ -d $R ] || cp -a /repo $R
git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
for d in ${@:-$(ls seeded)}; do
  s=""
  (cd $R && bash /verif/seeded/$d/demo.sh > /dev/null 2>&1) || s="$s demo-fails-unchanged"
  git -C $R apply "/verif/seeded/$d/patch.diff" || s="$s no-apply"
  grep '^+++' seeded/$d/patch.diff | grep -qv '\.go$' && s="$s not-go"
  (cd $R && go test ./... > /dev/null 2>&1) || s="$s tests-fail"
  (cd $R && bash /verif/seeded/$d/demo.sh > /dev/null 2>&1) && s="$s demo-passes"
  git -C $R checkout -q -- .
  [ -n "$s" ] && echo "$d:$s"
done
