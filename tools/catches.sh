#!/bin/bash
# usage: [CHECKS="S01 T05 ..."] tools/catches.sh [BUG...]
# Applies each planted bug in turn to a scratch copy of /repo and runs the check of its property
# (or the given checks) from a scratch copy of the simulator built against it.
# Prints one line per bug and check: CAUGHT or MISSED, and what the check reported.
cd "$(dirname "$0")/.." || exit 2
out=$(mktemp -d /tmp/catches.XXXXXX) || exit 2
trap 'rm -rf -- "$out"' EXIT
mkdir "$out/repo" "$out/verif" "$out/verif/sim"
git -C /repo archive HEAD | tar -x -C "$out/repo"
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock "$out/repo/"
cp -a check KNOWN_FINDINGS.txt "$out/verif/"
(cd sim && tar -c --exclude=./target .) | tar -x -C "$out/verif/sim"
find "$out/verif/sim" -name Cargo.toml -exec sed -i "s#\"/repo\([\"/]\)#\"$out/repo\1#" {} +
[ $# -gt 0 ] || set -- $(ls seeded)
git -C "$out/repo" init -q 2>/dev/null && git -C "$out/repo" add -A && git -C "$out/repo" -c user.name=x -c user.email=x@x commit -qm base
for b; do
  ps=${CHECKS:-$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$b/meta.json")}
  git -C "$out/repo" apply "$PWD/seeded/$b/patch.diff" || { echo "$b: patch does not apply"; continue; }
  for p in $ps; do
    t0=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} "$out/verif/check" "$p" quick > "$out/log" 2>&1
    rc=$?
    t1=$(date +%s)
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$out/log"; then r=CAUGHT; else r="MISSED(rc=$rc)"; fi
    echo "$r $b $p $((t1-t0))s $(grep -m1 "^$p: " "$out/log" | cut -c1-240)$([ $rc = 1 ] || tail -3 "$out/log" | tr '\n' ' ' | cut -c1-300)"
  done
  git -C "$out/repo" checkout -q -- .
done
