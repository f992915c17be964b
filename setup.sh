#!/bin/sh
# Nothing is kept between runs: every check builds its harness itself. This only verifies that the toolchain is complete.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
g++ --version >/dev/null
python3 -c 'import json, random'
test -f /opt/veriftools/tla/tla2tools.jar
chmod +x build.sh
exit 0
