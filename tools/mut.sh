#!/bin/bash
# mut.sh CHECK FILE SED...: run a check against /repo with a sed edit applied, then undo it
c=$1; f=$2; shift 2
for e in "$@"; do sed -i "$e" /repo/simim/$f; done
git -C /repo diff --stat | tail -1
VERIF_SHRINK_S=${SHRINK:-5} timeout 800 /opt/venv/bin/python /verif/check.py $c --no-evidence 2>&1 | cut -c1-260 | tail -4
git -C /repo checkout -q -- .
rm -f /verif/replays/*
