#!/bin/bash
# runs the quick checks of all properties one after another
cd "$(dirname "$0")/.."
for i in $(seq -w 1 27); do python3 check.py C$i > /tmp/all.C$i.log 2>&1; r=$?; [ $r = 0 ] || echo "C$i rc $r"; done; echo all done
