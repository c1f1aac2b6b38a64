#!/bin/bash
# tools/caught.sh [-j N] ID...: runs each planted change's own check on a patched scratch copy of /repo (development aid; the registered checks run on /repo)
J=4; [ "$1" = -j ] && { J=$2; shift 2; }
one() {
  id=$1; W=$(mktemp -d /tmp/caught.XXXXXX); mkdir "$W/repo" "$W/verif"; cp -a /repo/core /repo/.git "$W/repo/" ; cp -a ${VD:-/verif}/check.py ${VD:-/verif}/vx ${VD:-/verif}/contracts ${VD:-/verif}/verus ${VD:-/verif}/harness ${VD:-/verif}/known_findings.txt "$W/verif/"
  cd "$W/repo" && git checkout -q -- core && git apply "/verif/seeded/$id/patch.diff" || echo "$id does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  VX_REPO="$W/repo" timeout 900 python3 "$W/verif/check.py" $p > "$W/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -E '^VIOLATION' "$W/out" | sed 's/replay=.*json/replay=.../') | $(grep -E 'failed:|real code:|not proved' "$W/out" | cut -c1-150 | head -3 | tr '\n' ';')"
  rm -rf "$W"
}
export -f one
printf '%s\n' "$@" | xargs -P "$J" -I{} bash -c 'one {}'
