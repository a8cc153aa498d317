#!/bin/bash
# usage: verify.sh ID...   checks planted bugs in a scratch copy /tmp/sb of /repo (cp -a /repo /tmp/sb)
for id in "$@"; do
  d=/verif/seeded/$id
  cd /tmp/sb || exit 1
  git checkout -q -- . 
  out=""
  ok=1
  bash "$d/demo.sh" >/tmp/sb.demo0 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/sb.demo0; ok=0; }
  git apply --check "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  # removed lines must come from the original repository
  git apply "$d/patch.diff"
  base=$(git diff -U0 | awk '/^--- /{f=substr($2,3)} /^@@/{split($2,a,","); s=-a[1]; n=(a[2]==""?1:a[2]); print f, s, n}' | while read f s n; do
    [ "$n" = 0 ] || git blame -s -L "$s,+$n" HEAD -- "$f"; done | grep -c '^^dc03614')
  [ "$base" -gt 0 ] || { echo "$id: no original line changed"; ok=0; }
  if ! cargo test --workspace --no-fail-fast --offline >/tmp/sb.test 2>&1; then echo "$id: tests fail"; grep -E "^error|FAILED|[1-9] failed" /tmp/sb.test | head; ok=0; fi
  if bash "$d/demo.sh" >/tmp/sb.demo1 2>&1; then echo "$id: demo passes with the patch"; ok=0; fi
  git checkout -q -- .
  echo "$id ok=$ok base=$base :: $(grep -E 'panicked|^error' -A1 /tmp/sb.demo1 | head -2 | tr '\n' ' ' | cut -c1-200)"
done
