#!/bin/bash
# run the repository's stable tests on the working tree; prints what is missing
# (VERIF_REPO=copy: on a copy of /repo, with scratch folders of its own)
R=${VERIF_REPO:-/repo}
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
for f in build test; do sed "s#/repo#$R#g; s#/opt/simim_work#$([ "$R" = /repo ] && echo /opt/simim_work || echo "$T/work")#g" /opt/vp/$f.sh >"$T/$f.sh"; done
[ "$R" = /repo ] || export PYTHONPATH=$R
bash "$T/build.sh" >"$T/build.log" 2>&1 || { echo BUILD FAILED; tail "$T/build.log"; exit 1; }
bash "$T/test.sh" "$T/t.json" >"$T/test.log" 2>&1
python3 - "$T/t.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print('missing:',sorted(b-o)); sys.exit(bool(b-o))
P
