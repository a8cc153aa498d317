#!/bin/bash
# usage: catch.sh ID...   applies each planted bug to a copy of /repo laid over /repo, runs the check of its property
# from a copy of /verif laid over /verif (both in a mount namespace of their own: the real ones are not touched)
if [ -z "${CATCH_INNER:-}" ]; then
  box=$(mktemp -d /tmp/catchXXXXXX)
  cp -a /repo "$box/repo" && rsync -a --exclude work --exclude .git /verif/ "$box/verif/" 2>/dev/null || cp -a /verif "$box/verif"
  CATCH_INNER=1 CATCH_BOX=$box unshare -Urm bash -c 'mount --bind "$CATCH_BOX/repo" /repo && mount --bind "$CATCH_BOX/verif" /verif && cd /verif && exec bash /verif/tools/seed/catch.sh "$@"' catch "$@"
  rm -rf "$box"
  exit
fi
for id in "$@"; do
  d=/verif/seeded/$id
  p=${PROP:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply "$d/patch.diff" || continue
  s=$SECONDS
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 /verif/check.sh "$p" >/tmp/catch.$id.log 2>&1
  rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s :: $(grep -h VIOLATION -A2 /tmp/catch.$id.log | head -3 | tr '\n' ' ' | cut -c1-300)"
done
