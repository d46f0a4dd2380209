#!/bin/bash
# bug.sh <id> [property ...]: applies seeded/<id>/patch.diff to /repo, builds, runs the stable tests, the demo and the named
# checks (default: the one of meta.json), then undoes it and runs the demo on the clean tree.
id=$1; shift; D=/verif/seeded/$id
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 9
[ -n "$(git status --porcelain)" ] && { echo "repo dirty"; exit 9; }
T=$(mktemp -d); cp "$D"/* $T/; rm -f $T/patch.diff $T/meta.json
bash $T/demo.sh >/tmp/bug.$id.clean 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || exit 9
trap 'git -C /repo checkout -- . ; rm -rf '$T EXIT
bash /opt/vp/build.sh >/tmp/b.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','pass'):
            if k in x: return x[k]
    return x
p=set(names(b)) if not isinstance(names(b),dict) else {k for k,v in names(b).items()}
q=set(o.get('passed',o)) 
print("tests: missing", sorted(p-q)[:6], "of", len(p))
P
bash $T/demo.sh >/tmp/bug.$id.bug 2>&1; echo "demo with bug: $?"; tail -2 /tmp/bug.$id.bug
for p in $props; do (cd /verif; export VERIF_SEED=1 VERIF_TIER=quick; s=$(date +%s); python3 check.py $p 2>&1 | cut -c1-260 | tail -4; echo "  [$p $(( $(date +%s)-s )) s]"); done
