#!/bin/bash
# tools/tryseed.sh ID...: demo on the unchanged tree, then with the patch: build, tests, demo, check; undone afterwards.
V=$(cd "$(dirname "$0")/.." && pwd); cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash "$d/demo.sh" > /tmp/v.log 2>&1; a=$?; [ $a = 0 ] || tail -5 /tmp/v.log
  git apply "$d/patch.diff" || continue
  bash /opt/vp/build.sh > /tmp/v.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/v.json > /dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/v.json'))
def names(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return set()
print(sorted(names(b)-names(r))[:5])
P
)
  bash "$d/demo.sh" > /tmp/v.log 2>&1; c=$?
  VERIF_SEED=1 "$V/bin/check" $p quick > /tmp/v.check 2>&1; k=$?
  git checkout -q -- .
  echo "$id $p: demo clean=$a build=$b missing tests=$t demo patched=$c check=$k $(grep -E '^(VIOLATION|BOUNDED)' /tmp/v.check | cut -c1-140) | $(grep -E ': (verified|failed|unreachable|undecided)' /tmp/v.check | cut -c1-80 | tr '\n' ' ')"
  python3 - "$V" "$id" "$k" /tmp/v.check <<'P'
import sys,re,os
v,i,k,f=sys.argv[1:]
t=open(f).read()
st=re.findall(r": (verified|failed|unreachable|undecided)",t)
st.sort(key=["failed","unreachable","undecided","verified"].index)
w=("missed" if k=="0" else "no answer" if k!="1" else {"failed":"failed obligation","verified":"concrete run only"}.get(st[0] if st else "","concrete run (text outside the verifier)")+(", no failing input" if "no-failing-input" in t else ", failing input" if st and st[0]=="failed" else ""))
p=v+"/tools/seedlog.txt"
d=dict(l.rstrip("\n").split("\t",1) for l in open(p)) if os.path.exists(p) else {}
d[i]=w
open(p,"w").write("".join(a+"\t"+b+"\n" for a,b in sorted(d.items())))
P
  [ -n "$VERBOSE" ] && { tail -3 /tmp/v.log; grep -E -A3 'FAIL case' /tmp/v.check | cut -c1-400; }
done
exit 0
