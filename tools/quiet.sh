#!/bin/bash
# usage: [CHECKS="S01 T05 ..."] [RDBSIM_RUNS=n] tools/quiet.sh DIFF...
# Applies each behaviour-preserving change in turn to a scratch copy of /repo and runs the checks
# (all of them by default) from a scratch copy of the simulator built against it.
# Prints one line per change and check: QUIET or NOISY, and what the check reported.
diffs=$(realpath "$@") || exit 2
cd "$(dirname "$0")/.." || exit 2
out=$(mktemp -d /tmp/quiet.XXXXXX) || exit 2
trap 'rm -rf -- "$out"' EXIT
mkdir "$out/repo" "$out/verif" "$out/verif/sim"
git -C /repo archive HEAD | tar -x -C "$out/repo"
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock "$out/repo/"
cp -a check KNOWN_FINDINGS.txt "$out/verif/"
(cd sim && tar -c --exclude=./target .) | tar -x -C "$out/verif/sim"
find "$out/verif/sim" -name Cargo.toml -exec sed -i "s#\"/repo\([\"/]\)#\"$out/repo\1#" {} +
CHECKS=${CHECKS:-$(python3 -c 'import json; print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}
git -C "$out/repo" init -q 2>/dev/null && git -C "$out/repo" add -A && git -C "$out/repo" -c user.name=x -c user.email=x@x commit -qm base
for d in $diffs; do
  b=$(basename "$d" .diff)
  git -C "$out/repo" apply "$d" || { echo "$b: patch does not apply"; continue; }
  for p in $CHECKS; do
    "$out/verif/check" "$p" quick > "$out/log" 2>&1
    rc=$?
    [ $rc = 0 ] && r=QUIET || r="NOISY(rc=$rc)"
    echo "$r $b $p $(grep -m1 "^$p: " "$out/log" | cut -c1-300)$([ $rc = 0 ] || tail -3 "$out/log" | tr '\n' ' ' | cut -c1-400)"
  done
  git -C "$out/repo" checkout -q -- .
done
