#!/bin/bash
# try.sh SEED CHECK...: apply the planted bug, run the checks, undo
S=$1; shift
git -C /repo apply /verif/seeded/$S/patch.diff || exit 2
for c in "$@"; do echo "$S $c: $(cd /verif && python3 vf.py $c 2>&1 | tail -1 | cut -c1-160)"; done
git -C /repo checkout -- .
