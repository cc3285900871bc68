#!/bin/bash
# builds the MIR exporter and warms the target directory of the first export
cd "$(dirname "$0")/.." || exit 3
OUT="$PWD/.build/out.setup"
bin/export.sh "$OUT" root || exit 1
rm -r "$OUT"
