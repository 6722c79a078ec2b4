#!/bin/bash
# seedtest.sh ID...: apply each planted bug to a copy of /repo mounted over it in a private namespace, run its demo,
# the stable tests and its property's check
if [ -z "$SEEDTEST_IN" ]; then
  rc=$(mktemp -d /tmp/seedtest.XXXXXX)
  trap 'umount "$rc" 2>/dev/null; rm -rf "$rc"' EXIT
  cp -a /repo/. "$rc"
  SEEDTEST_IN=1 unshare -m bash -c 'mount --bind "$0" /repo && exec "$@"' "$rc" bash "$0" "$@"
  exit
fi
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && git checkout -q -- . 
  bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch fails"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo "$id: build fails"
  bash $d/demo.sh >/tmp/demo1.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/test.log 2>&1
  f=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def st(x):
    return set(x.get('stable') or x.get('passed') or x.get('pass') or [])
base=st(b); got=st(r)
print(len(base-got), sorted(base-got)[:3])
P
)
  c=$(timeout 700 /verif/bin/check ${PROP:-$prop} 2>&1 | grep -v "^  " | tail -3 | cut -c1-250)
  git checkout -q -- .
  echo "$id [$prop]: demo clean=$a patched=$b; missing stable tests: $f"
  echo "$c" | sed 's/^/    /'
done
