#!/bin/sh
# Everything is built by the checks themselves, from /repo's working tree; make sure the tools are there.
set -e
cd "$(dirname "$0")"
command -v cargo >/dev/null
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import json'
mkdir -p evidence
cd harness && cargo metadata --offline --format-version 1 >/dev/null
