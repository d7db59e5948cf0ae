#!/bin/bash
# seed.sh PATCH PROP...: runs quick checks with a planted bug applied to /repo
P=$(realpath "$1"); shift
cd /verif
git -C /repo apply "$P" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for q in "$@"; do python3-vt checks/run.py $q quick | grep -E "VIOLATION|KNOWN|UNDEC|INCOM|fails|quick:|error" | cut -c1-230; echo "exit ${PIPESTATUS[0]}"; done
