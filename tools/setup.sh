#!/bin/bash
# Nothing to build: parse the specification once so that a broken file is noticed early.
cd "$(dirname "$(readlink -f "$0")")/../spec" || exit 1
mkdir -p ../evidence
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in *.tla; do
  java -cp "$CP" tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
/opt/venv/bin/python -B -c "import numpy, scipy, h5py, pyssht, pys2let, healpy, matplotlib"
