#!/bin/bash
# tools/trybug.sh ID [PROPERTY...]: applies seeded/ID/patch.diff to a scratch copy of /repo,
# builds, runs the stable tests and the demonstration with and without it, then the checks.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
S=/tmp/sb_$ID
rm -rf "/tmp/sb_$ID"; mkdir -p "$S"
cp -a /repo "$S/repo"
cp -a "$V/seeded/$ID" "$S/demo"
sed "s#/repo#$S/repo#g" /opt/vp/build.sh > "$S/build.sh"
cd "$S/repo" || exit 3
git checkout -q -- . 
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1
bash "$S/demo/demo.sh" > "$S/demo0.log" 2>&1; echo "demo without: $? (want 0)"
git apply "$V/seeded/$ID/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 3; }
bash "$S/build.sh" > "$S/build.log" 2>&1 || { echo "BUILD FAILED"; tail -5 "$S/build.log"; exit 3; }
/opt/venv/bin/python - "$S" <<'PY'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json"))
ids = b.get("stable_pass") or b.get("stable") or b.get("passed") or b
print("\n".join(ids if isinstance(ids, list) else list(ids)), file=open(sys.argv[1] + "/ids", "w"))
PY
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:benchmark --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$S/junit.xml" tests > "$S/test.log" 2>&1
/opt/venv/bin/python - "$S" <<'PY'
import sys, xml.etree.ElementTree as E
S = sys.argv[1]
ok = set()
for t in E.parse(S + "/junit.xml").iter("testcase"):
    if not list(t):
        ok.add(t.get("name"))
want = [l.strip() for l in open(S + "/ids") if l.strip()]
miss = [w for w in want if w.split("::")[-1].split("#")[-1] not in ok and w not in ok]
print("stable tests: %d of %d pass (%d pass in all)" % (len(want) - len(miss), len(want), len(ok)), miss[:4])
PY
bash "$S/demo/demo.sh" > "$S/demo1.log" 2>&1; echo "demo with: $? (want nonzero)"; tail -2 "$S/demo1.log"
P=${*:-$(/opt/venv/bin/python -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}
cd "$V"
for p in $P; do
  VB_REPO="$S/repo" ./run.sh "$p" --tier quick > "$S/check_$p.log" 2>&1; echo "check $p: exit $?"; grep -m3 -A1 "^  \|VIOLATION" "$S/check_$p.log" | head -4
done
rm -rf "/tmp/sb_$ID/repo"
