#!/bin/sh
# Offline preparation: only verifies that the tools the checks use are there.
set -e
cd "$(dirname "$0")"
command -v java >/dev/null
command -v g++ >/dev/null
command -v bison >/dev/null
test -r /opt/veriftools/tla/tla2tools.jar
mkdir -p .cache evidence
echo "setup done"
