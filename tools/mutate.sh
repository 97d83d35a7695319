#!/bin/bash
# mutate.sh [-R commit | patch] PROP... : runs checks against a scratch copy of /repo with a change applied (never /repo itself)
# The build cache is seeded from /verif/build's sibling in /tmp so that only changed files are rebuilt.
P=$1; [ "$1" = "-R" ] || P=$(realpath -e "$1") || exit 9
D=${MUT_DIR:-/tmp/mut/w$$}; mkdir -p "$D"
if [ -z "$MUT_KEEP" ]; then trap '/bin/rm -rf "$D"' EXIT; fi
git -C /repo archive HEAD | (mkdir -p "$D/repo" && tar -x -C "$D/repo")
cd "$D/repo" && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm base
if [ "$1" = "-R" ]; then git -C /repo show "$2" | git apply -R - || exit 9; shift 2; else git apply "$P" || exit 9; shift; fi
rc=0
for p in "$@"; do
  VP_REPO="$D/repo" VP_BUILD="$D/build" VP_OUT="$D" python3 /verif/tools/run.py "$p" > "$D/$p.log" 2>&1; r=$?
  echo "$p exit=$r $(grep -m1 VIOLATION "$D/$p.log")"; sed -n '/^case:/,/VIOLATION/p' "$D/$p.log" | head -${MUT_LINES:-14} | cut -c1-300; [ $r = 1 ] || tail -3 "$D/$p.log"
done
