#!/bin/bash
# Dev tool: run the checks of all planted bugs (or those named), 2 at a time.
cd "$(dirname "$0")/.."
ids=${@:-$(ls seeded)}
echo $ids | tr ' ' '\n' | LINES_MAX=${LINES_MAX:-4} xargs -P 2 -I{} bash -c 'o=$(tools/trybug.sh {} 2>&1); echo "$o"'
