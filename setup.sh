#!/bin/sh
# Nothing to build: the checks run the sources in place. Verifies that the tools they need are there.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
/opt/venv/bin/python -B -c 'import numpy'
mkdir -p evidence
