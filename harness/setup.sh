#!/bin/bash
# Offline sanity check of what the checks need: python, the package, TLC, and
# that every specification parses.
set -e
cd "$(dirname "$0")/../spec"
export MPLBACKEND=Agg
(cd /tmp && /opt/venv/bin/python -W ignore -B -c 'import numpy, scipy, xmps; print(numpy.__version__, scipy.__version__, xmps.__file__)')
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in *.tla; do
  java -cp $CP tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f "/tmp/sany.$$"; exit 1; }
done
rm -f "/tmp/sany.$$"
echo "specifications parse: $(ls *.tla | wc -l)"
