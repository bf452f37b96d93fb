#!/bin/bash
# Nothing is kept between runs: verify that the tools are there and that the specification parses.
set -eu
cd "$(dirname "$0")/../spec"
for m in Trace; do
  tla-sany $m.tla > /dev/null
done
python3 -c 'import json; json.load(open("../MANIFEST.json"))'
