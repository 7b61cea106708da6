#!/bin/bash
# append the table of planted changes to DESIGN.md (everything after the marker is regenerated)
cd "$(dirname "$0")/.."
sed -i '/^<!-- table -->$/,$d' DESIGN.md
{ echo '<!-- table -->'; python3 tools/seedtable.py; } >> DESIGN.md
