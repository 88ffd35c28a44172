#!/bin/bash
# mkbug.sh ID: confirms the planted bug in /verif/seeded/ID (patch.diff, main.go,
# meta.json): the demonstration passes on the clean tree; with the patch the tree
# builds, the stable tests of the touched packages pass and the demonstration
# fails. With CHECK=1 it also runs the property's quick check on it.
id=$1
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh.tmpl $d/demo.sh; chmod +x $d/demo.sh
cd /repo
bash $d/demo.sh >/tmp/seed/demo.out 2>&1 || { echo "demo fails on the clean tree"; tail -5 /tmp/seed/demo.out; exit 1; }
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if bash $d/demo.sh >/tmp/seed/demo.out 2>&1; then echo "demo passes with the patch"; exit 1; fi
echo "demo with patch: $(tail -1 /tmp/seed/demo.out)"
( . /opt/vp/env.sh; go build $PKGS ) || { echo "does not build"; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/seed/test.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed/test.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
    raise SystemExit(str(list(x.keys())))
miss=names(b)-names(r)
print("stable tests failing with the patch:", sorted(miss)[:5] if miss else "none")
PY
fi
if [ -n "$CHECK" ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ( cd /verif; time ./check.sh $p quick ) 2>&1 | grep -v '^   ' | cut -c1-300 | tail -7
fi
