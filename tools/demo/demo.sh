#!/bin/bash
# builds demo.c against the freshly built library, runs it with a private broker, cleans up
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); B=$R/_build
export LD_LIBRARY_PATH=$B/src/rbus:$B/src/core:$B/src/rtmessage RT_LOG_LEVEL=error
cleanup() { kill -9 $RP 2>/dev/null; wait $RP 2>/dev/null; rm -f /tmp/rtrouted /tmp/rtrouted.pid; rm -r "$T"; }
trap cleanup EXIT
gcc -g -o $T/demo $D/demo.c -I$R/include -I$R/src/rtmessage -I$R/src/core $DEMO_INC -L$B/src/rbus -L$B/src/core -L$B/src/rtmessage -lrbus -lrbuscore -lrtMessage -lpthread || exit 3
rm -f /tmp/rtrouted /tmp/rtrouted.pid
$B/src/rtmessage/rtrouted -f -l ERROR >$T/r.log 2>&1 & RP=$!
for i in $(seq 50); do [ -S /tmp/rtrouted ] && break; sleep 0.1; done
cd $T && timeout 200 $T/demo; rc=$?
echo "demo: exit $rc"; exit $rc
