#!/bin/bash
# tools/seedtest.sh ID...: confirms planted changes in a scratch copy of /repo: applies, builds, stable tests pass, demo 0 without and nonzero with
W=$(mktemp -d /tmp/seedtest.XXXXXX); cp -a /repo "$W/repo"; trap 'rm -rf "$W"' EXIT
cd "$W/repo" || exit 2; git checkout -q -- .
for id in "$@"; do
  S=/verif/seeded/$id; cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
  timeout 300 bash "$W/demo/demo.sh" > "$W/o1" 2>&1; a=$?
  git apply "$S/patch.diff" || { echo "$id: does not apply"; continue; }
  timeout 300 bash "$W/demo/demo.sh" > "$W/o2" 2>&1; b=$?
  # build and tests: a copy of the build with this tree's paths
  t=skipped
  sed "s#/repo#$W/repo#g" /opt/vp/test.sh > "$W/test.sh"; sed "s#/repo#$W/repo#g" /opt/vp/build.sh | sed "s#/opt/vp/cmake#$W/cmake#" > "$W/build.sh"
  sed -i "s#/opt/vp/build.sh#$W/build.sh#" "$W/test.sh"
  rm -rf "$W/cmake"; cp -a /opt/vp/cmake "$W/cmake"; grep -rl '/repo' "$W/cmake" | xargs -r sed -i "s#/repo#$W/repo#g"; rm -rf "$W/repo/_build"
  bash "$W/test.sh" "$W/out.json" > "$W/o3" 2>&1
  t=$(python3 - "$W/out.json" <<'PY'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1])); p={x if isinstance(x,str) else x['name'] for x in o['passed']}
print('tests ok' if b<=p else 'tests FAIL %s'%sorted(b-p))
PY
)
  ok=BAD; [ $a -eq 0 ] && [ $b -ne 0 ] && [ "$t" = "tests ok" ] && ok=good
  echo "$ok $id: demo clean=$a patched=$b ($(grep -h -m1 -E 'FAILED|ERROR|Assert|terminate' "$W/o2" | cut -c1-90)) $t"
  [ $a -ne 0 ] && tail -5 "$W/o1"
  git checkout -q -- .; rm -rf "$W/demo"
done
