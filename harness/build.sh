#!/bin/bash
# build.sh BINARY...: builds the checkers from /repo's working tree and the harness, by an overlay.
# A binary may be followed by -ID, the property it is built for.
set -e
. /opt/vp/env.sh
R=${KIT_REPO:-/repo} # a copy, for the tools that plant bugs
H=$(cd "$(dirname "$0")" && pwd)
OUT=${KIT_BUILD:-$(dirname "$H")/.build}
mkdir -p "$OUT"
overlay() { # overlay FILE [MORE.json]
python3 - "$H" "$2" "$R" > "$1" <<'P'
import json,os,sys
h=sys.argv[1]
r={}
if sys.argv[2]: r=json.load(open(sys.argv[2]))
for d in sorted(os.listdir(h)):
    p=os.path.join(h,d)
    if os.path.isdir(p):
        for f in sorted(os.listdir(p)):
            if f.endswith('.go'): r[sys.argv[3]+"/internal/zzverif/%s/%s"%(d,f)]=os.path.join(p,f)
print(json.dumps({"Replace":r}))
P
}
for a in "$@"; do
  b=${a%%-*}
  more="" race=""
  if [ $b = conc ]; then
    # the synchronization and the maps of the repository are put under the explorer's control
    [ $a = conc-C08 ] || race=-race
    mkdir -p "$OUT/instr"
    (cd "$H/../tools/instr" && go build -o "$OUT/instr/instr" .)
    "$OUT/instr/instr" "$R" "$OUT/instr" github.com/tylantz/go-tailwind-merge > "$OUT/instr.json"
    more=$OUT/instr.json
  fi
  overlay "$OUT/overlay-$a.json" "$more"
  if ! (cd "$R" && GOFLAGS=-mod=readonly go build $race -overlay "$OUT/overlay-$a.json" -o "$OUT/$a" "./internal/zzverif/$b"); then
    [ -n "$more" ] || exit 1
    echo "the rewritten repository does not build; trying it as it is" >&2
    overlay "$OUT/overlay-$a.json" ""
    (cd "$R" && GOFLAGS=-mod=readonly go build $race -overlay "$OUT/overlay-$a.json" -o "$OUT/$a" "./internal/zzverif/$b")
  fi
done
