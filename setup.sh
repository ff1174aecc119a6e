#!/bin/bash
# compiles the exact-rational override of TLC and checks it
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d build java/*.java || exit 1
./tlc.sh RatCheck.tla RatCheck.cfg -workers 4 > build/ratcheck.log 2>&1 || { tail -20 build/ratcheck.log; exit 1; }
echo ready
