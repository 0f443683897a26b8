#!/bin/bash
# tools/seed.sh ID...: confirm planted bugs in a scratch copy: applies, builds, stable tests pass, demo 0 without / nonzero with; then run the property's check on it
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seedwork; mkdir -p $S
[ -d $S/repo ] || cp -a /repo $S/repo
for id in "$@"; do
  d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd $S/repo && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
  r0=?; r1=?; t=?
  if [ -z "$SKIPDEMO" ]; then
    cargo test --workspace --no-run --offline -q >/dev/null 2>&1; bash $d/demo.sh >$S/d0.log 2>&1; r0=$?
    git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
    cargo test --workspace --no-run --offline -q >/dev/null 2>$S/b.log || { echo "$id: does not build"; git checkout -q -- .; continue; }
    rm -rf $S/repo/tests/*/out $S/repo/tests/data/*/out
    t=$(cargo test --workspace --no-fail-fast --offline 2>/dev/null | grep -E '^test .*(ok|FAILED)$' | awk '{print $NF}' | sort | uniq -c | tr '\n' ' ')
    bash $d/demo.sh >$S/d1.log 2>&1; r1=$?
  else git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  fi
  out=$(VERIF_REPO=$S/repo VERIF_CACHE=$V/.cache2 VERIF_EVIDENCE=$S/ev $V/check $prop 2>&1); c=$?
  echo "$id $prop demo:$r0/$r1 tests: $t check:$c $(echo "$out" | grep -c "^VIOLATION property=$prop ")"
  [ -n "$VERBOSE" ] && echo "$out" | cut -c1-220 | head -6
  git checkout -q -- .
done
