#!/bin/bash
# Everything the checks need is compiled by the checks themselves; this only verifies the tools are there.
set -e
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import torch, numpy"
d=$(mktemp -d)
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" "$(dirname "$0")/java/FP.java"
rm -rf "$d"
