#!/bin/bash
# run every registered check in parallel and print its summary
cd "$(dirname "$0")/.."
ids=${*:-$(python3 -c "import sys;sys.path.insert(0,'.');from rules import registry;print(' '.join(sorted(registry.RULES)))")}
printf '%s\n' $ids | xargs -P 6 -I{} sh -c 'o=$(timeout 900 python3 check.py {} 2>&1 | cut -c1-300); printf "%s\n" "$o"'
