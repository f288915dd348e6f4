#!/bin/bash
# seed.sh ID... : validates seeded bugs in a scratch copy of /repo and runs the check of their property against it
cd "$(dirname "$0")/.."
for id in "$@"; do
  S=seeded/$id
  W=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$W/repo"
  git -C "$W/repo" checkout -q -- . 
  PP=$W/repo/pkm/src:$W/repo/pkm-cli/src:$W/repo/repositories/conda-pkm-repo/src:$W/repo/repositories/download-torch-pkm-repo/src
  mkdir "$W/demo"; cp -r $S/. "$W/demo"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
  (cd "$W/repo" && PYTHONPATH=$PP PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$W/demo/demo.sh") >"$W/d0" 2>&1; a=$?
  if ! git -C "$W/repo" apply "$PWD/$S/patch.diff"; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$W"; continue; fi
  (cd "$W/repo" && PYTHONPATH=$PP PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$W/demo/demo.sh") >"$W/d1" 2>&1; b=$?
  sed -e "s#/repo#$W/repo#g" -e "s#^unset PYTHONPATH.*#export PYTHONPATH=$PP#" /opt/vp/test.sh > "$W/test.sh"
  sed -i "s#/opt/vp/results.py#/opt/vp/results.py#" "$W/test.sh"
  bash "$W/test.sh" "$W/out.json" > "$W/t" 2>&1
  t=$(/opt/venv/bin/python - "$W/out.json" <<'PY'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
try: o=json.load(open(sys.argv[1]))
except Exception as e: print('no result',e); sys.exit()
def walk(x):
    if isinstance(x,dict):
        for k,v in x.items():
            if k=='passed' and isinstance(v,list): yield from v
            elif v=='passed' or v=='pass': yield k
            else: yield from walk(v)
    elif isinstance(x,list):
        for v in x: yield from walk(v)
m=b-set(walk(o)); print('tests-ok' if not m else f'tests-FAIL {sorted(m)}')
PY
)
  p=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
  if [ -z "$NOCHECK" ]; then
    SX_REPO=$W/repo timeout 900 python3-vt check.py $p --tier quick > "$W/c" 2>&1; c=$?
    v=$(grep -c "^VIOLATION property=$p" "$W/c")
  fi
  echo "$id [$p]: demo clean=$a bugged=$b $t check exit=$c violations=$v"
  if [ "$a" != 0 ]; then tail -5 "$W/d0"; fi
  if [ "$b" = 0 ]; then tail -5 "$W/d1"; fi
  if [ "$c" != 1 ] && [ -z "$NOCHECK" ]; then tail -5 "$W/c"; fi
  if [ -n "$V" ]; then tail -5 "$W/c"; tail -3 "$W/d1"; fi
  rm -rf "$W"
done
