#!/bin/bash
# tools/seedcheck.sh ID... : confirm planted changes in a scratch copy (demo clean=0, demo patched!=0, stable tests pass)
# NOTEST=1 skips the test suite
for id in "$@"; do
  S=/verif/seeded/$id; W=/tmp/seed_$id; rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; R=$W/repo
  git -C "$R" checkout -q -- . 
  sed "s#/repo#$R#g" /opt/vp/build.sh > "$W/build.sh"; sed "s#/repo#$R#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/test.sh > "$W/test.sh"
  rm -rf "$R"/build/vp-stamps.x
  mkdir "$W/demo"; cp -r "$S"/. "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
  (cd "$R" && timeout 300 bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1); c=$?
  git -C "$R" apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  bash "$W/build.sh" > "$W/build.log" 2>&1; b=$?
  (cd "$R" && timeout 300 bash "$W/demo/demo.sh" > "$W/bug.log" 2>&1); d=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash "$W/test.sh" "$W/out.json" > "$W/test.log" 2>&1
    t=$(python3 - "$W/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def ids(x,k):
    v=x.get(k) if isinstance(x,dict) else None
    return set(v or [])
want=set(b['stable'])
got=ids(o,'passed')
m=sorted(want-got)
print('%d/%d stable pass %s'%(len(want)-len(m),len(want),m[:4]))
PY
)
  fi
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  k=$(cd /verif && VERIF_SHOW=0 timeout 900 python3-vt check.py $prop --repo "$R" 2>&1 | grep -c '^VIOLATION')
  echo "$id: build=$b clean=$c(want 0) bug=$d(want !=0) tests: $t ; caught by $prop: $k"
  tail -2 "$W/bug.log" | cut -c1-200
  [ -z "$KEEP" ] && rm -rf "$W"
done
