#!/bin/bash
# Determinism: every check's runs must have the same digests whatever the number of workers and the hash seed.
# usage: tools/selftest.sh [RUNS] [CHECK...]
cd "$(dirname "$0")/.." || exit 2
n=${1:-40}; shift
ids=${*:-$(/opt/venv/bin/python -c "from dst.budget import BUDGET; print(*sorted(BUDGET))")}
t=$(mktemp -d /tmp/selftest.XXXXXX); bad=0
for p in $ids; do
  VERIF_HASHSEED=0 /opt/venv/bin/python check.py $p --runs $n --workers 8 --no-evidence --digests "$t/a" >/dev/null 2>&1
  VERIF_HASHSEED=77 /opt/venv/bin/python check.py $p --runs $n --workers 3 --no-evidence --digests "$t/b" >/dev/null 2>&1
  if cmp -s <(sort "$t/a") <(sort "$t/b"); then echo "$p same"; else echo "$p DIFFERENT"; diff <(sort "$t/a") <(sort "$t/b") | head -4; bad=1; fi
done
rm -f "$t/a" "$t/b"; rmdir "$t"; exit $bad
