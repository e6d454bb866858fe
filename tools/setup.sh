#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo. This only verifies the tools.
set -e
cd "$(dirname "$0")/.."
java -version 2>&1 | head -1
/opt/veriftools/go1.27.3/bin/go version
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
echo "setup ok"
