#!/bin/bash
# usage: tlc.sh MODULE CFG [TLC options]; runs TLC with the exact-rational override
here=$(cd "$(dirname "$0")" && pwd)
J=/opt/veriftools/tla
[ -f "$here/build/RatOverrides.class" ] || { mkdir -p "$here/build"; javac -cp $J/tla2tools.jar -d "$here/build" "$here"/java/*.java || exit 3; }
meta=$(mktemp -d)
trap 'rm -rf "$meta"' EXIT
cd "$here/spec" || exit 3
mod=$1; cfg=$2; shift 2
java ${TLC_JAVA:--Xmx6g -Xss128m} -Djava.io.tmpdir="$meta" -XX:+UseParallelGC -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides \
  -cp "$here/build:$J/tla2tools.jar:$J/CommunityModules-deps.jar" tlc2.TLC -metadir "$meta" -config "$cfg" "$@" "$mod"
