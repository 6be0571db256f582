#!/bin/bash
# runbug.sh ID [PROP]: run the check of a planted bug's property against a scratch copy with the bug applied
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
T=/tmp/bug_$1; mkdir -p $T; git -C /repo archive HEAD | tar -x -C $T; (cd $T && git init -q . 2>/dev/null; git apply $D/patch.diff) || exit 9
FVX_REPO=$T timeout 900 python3 $V/check.py $P > /tmp/bug_$1.log 2>&1; rc=$?; echo "$1 $P rc=$rc $(grep -c . /tmp/bug_$1.log) $(grep -E 'violated|VIOLATION|NO-VERDICT' /tmp/bug_$1.log | head -2 | cut -c1-200 | tr '\n' ' ') $(grep wall= /tmp/bug_$1.log | tail -1 | grep -o 'wall=.*')"
find $T -mindepth 1 -delete; rmdir $T
