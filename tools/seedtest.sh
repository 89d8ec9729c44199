#!/bin/bash
# seedtest.sh <bug> [check...]: builds, tests, demonstrates and checks one planted bug in private copies of
# /repo and /verif (bind-mounted in a user namespace of its own), printing one line per step.
bug="$1"; shift
V="$(cd "$(dirname "$0")/.." && pwd)"
w=$(mktemp -d /tmp/seed-XXXXXX)
trap 'python3 -c "import shutil,sys; shutil.rmtree(sys.argv[1], ignore_errors=True)" "$w"' EXIT
cp -a /repo "$w/repo"; cp -a /opt/vp "$w/vp"
mkdir "$w/verif" "$w/demo"; cp -a "$V"/{check.sh,mk.py,harness,shim,known_findings.txt,properties.jsonl} "$w/verif/"
mkdir -p "$w/verif/build" "$w/verif/evidence"
[ -d "$V/build/target" ] && cp -a "$V/build/." "$w/verif/build/"
cp -a "$V/seeded/$bug/." "$w/demo/"; cp "$w/demo/patch.diff" "$w/p.diff"
prop=$(python3 -c "import json;print(json.load(open('$w/demo/meta.json'))['property'])")
rm -f "$w"/demo/*.diff "$w"/demo/meta.json
checks="${*:-$prop}"
unshare -Urm bash -c '
mount --bind '$w'/repo /repo; mount --bind '$w'/verif /verif; mount --bind '$w'/vp /opt/vp
cd /repo
if [ -z "$SKIP_DEMO" ]; then
bash '$w'/demo/demo.sh >'$w'/d0.log 2>&1; echo "demo clean: $? (want 0)"; tail -3 '$w'/d0.log
git -C /repo apply '$w'/p.diff || exit 1
bash /opt/vp/build.sh >'$w'/b.log 2>&1; echo "build: $? (want 0)"; [ $? = 0 ] || tail -5 '$w'/b.log
bash /opt/vp/test.sh '$w'/t.json >/dev/null 2>&1; python3 - <<E
import json
t=json.load(open("'$w'/t.json")); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
p=set(t.get("passed",[])) if isinstance(t.get("passed"),list) else {k for k,v in t.items() if v in ("passed","pass","ok",True)}
print("tests missing:", [x for x in b if x not in p])
E
bash '$w'/demo/demo.sh >'$w'/d1.log 2>&1; echo "demo patched: $? (want nonzero)"; tail -3 '$w'/d1.log
else git -C /repo apply '$w'/p.diff || exit 1; fi
for c in '"$checks"'; do
 s=$SECONDS; VERIF_SEED=1 timeout 900 bash /verif/check.sh $c --tier quick >'$w'/c.log 2>&1; rc=$?
 echo "check $c: exit $rc ($((SECONDS-s))s)"; grep -m3 VIOLATION '$w'/c.log || tail -3 '$w'/c.log
done
' 2>&1 | sed "s/^/[$bug] /"
