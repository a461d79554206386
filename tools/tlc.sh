#!/bin/bash
# usage: tools/tlc.sh CONFIG MODULE [extra TLC args]   (run from anywhere; for interactive use)
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here/spec" || exit 2
meta=$(mktemp -d)
java -XX:+UseParallelGC -Xmx8g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:"$here/build" \
  tlc2.TLC -metadir "$meta" -workers 8 -config "$1" "${@:3}" "$2"
rc=$?
rm -rf "$meta"
exit $rc
