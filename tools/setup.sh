#!/bin/sh
# Nothing is prebuilt: every check compiles what it needs from /repo's current tree. Only confirms that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence out
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
g++ --version >/dev/null
python3 -c 'import json, subprocess'
