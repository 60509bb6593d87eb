#!/bin/bash
# Builds the framework from the committed files: the TLA+ letter charts, and a check that every module parses.
here="$(cd "$(dirname "$0")" && pwd)"; cd "$here" || exit 2
mkdir -p build evidence
python3 - <<'P' || exit 1
import sys
sys.path.insert(0, 'harness')
import tlc
print(tlc.charts_path())
P
cd spec
for f in *.tla; do
  CHARTS=../build/charts.json tla-sany "$f" > ../build/sany.log 2>&1 || { tail -20 ../build/sany.log; echo "cannot parse $f"; exit 1; }
done
echo "setup done"
