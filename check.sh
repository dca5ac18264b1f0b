#!/bin/bash
# check.sh ID TIER: builds the checker that decides the property from /repo's working tree and runs it.
cd "$(dirname "$0")"
id=$1 tier=${2:-quick}
case $id in
C08|C11|C12|C23) bin=conc ;;
C18|C19|C20) bin=sel ;;
*) bin=mc ;;
esac
[ $bin = conc ] && bin=conc-$id
harness/build.sh $bin >&2 || { echo "build failed" >&2; exit 2; }
out=${KIT_BUILD:-$PWD/.build}
exec "$out/$bin" "$id" "$tier"
