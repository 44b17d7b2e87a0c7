#!/bin/bash
# Executes the first N runs (default 12) of every property twice, with different numbers of jobs and
# hash seeds, and compares the digests of the complete event logs.
cd "$(dirname "$0")/.." || exit 2
N=${1:-12}; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; BAD=0
for P in $(/opt/venv/bin/python -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do
  PYTHONHASHSEED=1 ./check.sh $P quick --no-evidence --runs $N --jobs 8 --digests $T/a >/dev/null 2>&1
  PYTHONHASHSEED=77 ./check.sh $P quick --no-evidence --runs $N --jobs 3 --digests $T/b >/dev/null 2>&1
  if cmp -s <(sort $T/a) <(sort $T/b) && [ -s $T/a ]; then echo "$P $(wc -l < $T/a) runs identical"; else echo "$P DIFFERS"; BAD=1; fi
done
exit $BAD
