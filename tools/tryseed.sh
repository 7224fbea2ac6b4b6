#!/bin/bash
# tryseed.sh ID...: validates planted changes in a scratch copy of /repo (bind-mounted over /repo in a mount
# namespace of its own), then runs the property's check on the changed tree. Prints one line per change.
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  ID=$1; S=$V/seeded/$ID; W=/tmp/seed.$ID; rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
  P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
  unshare -Urm bash -c "
    mount --bind $W/repo /repo; cd /repo
    git status --short | grep -v '^??' && echo dirty
    if [ -z '$NOBUILD' ]; then
    bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo '$ID: base does not build'; exit; }
    bash $W/demo/demo.sh >$W/d0.log 2>&1 || { echo '$ID: demo fails on the unchanged tree'; tail -5 $W/d0.log; exit; }
    fi
    git apply $S/patch.diff || { echo '$ID: patch does not apply'; exit; }
    if [ -z '$NOBUILD' ]; then
    bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo '$ID: does not build'; grep -m3 error $W/b1.log; exit; }
    bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
    python3 -c \"
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$W/t.json'))
s=b.get('stable') or b.get('stable_passing') or b
p=t.get('passed') or t.get('pass') or t
m=[x for x in s if x not in p]
print('$ID: stable tests broken',m) if m else None\"
    bash $W/demo/demo.sh >$W/d1.log 2>&1 && echo '$ID: demo passes with the change'
    fi
    cd $V; s=\$(date +%s); VF_BUILD=$W/vf python3 check.py $P --tier quick >$W/c.log 2>&1; r=\$?
    if [ \$r = 1 ] && grep -q \"^VIOLATION property=$P \" $W/c.log; then echo \"$ID: caught by $P (\$((\$(date +%s)-s)) s)\"; else echo \"$ID: MISSED by $P rc=\$r (\$((\$(date +%s)-s)) s)\"; fi
    grep -m3 -E '^(VIOLATION|PROBLEM)' $W/c.log | cut -c1-200"
  cp "$W/c.log" /tmp/w/seed.$ID.log 2>/dev/null; [ -n "$KEEP" ] || rm -rf "$W"
}
for i in "$@"; do one "$i"; done
