#!/bin/bash
# tools/seedtest.sh ID : applies seeded/ID/patch.diff in a scratch copy of /repo, builds, runs
# the tests, runs the demonstration with and without it, and every check against the copy.
id="$1"; here=/verif/seeded/$id
. /opt/vp/env.sh
scratch=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$scratch/r"
cd "$scratch/r" && git checkout -q -- . 
bash "$here/demo.sh" >"$scratch/clean.log" 2>&1; c=$?
git apply "$here/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
go build ./... >"$scratch/build.log" 2>&1 || { echo "$id: BUILD FAIL"; head -5 "$scratch/build.log"; }
bash "$here/demo.sh" >"$scratch/pat.log" 2>&1; d=$?
t=skipped
if [ -z "$NOTEST" ]; then
  sed -e "s#cd /repo#cd $scratch/r#; s#LOGS=/opt/vp/logs#LOGS=$scratch/logs#" /opt/vp/test.sh > "$scratch/test.sh"
  bash "$scratch/test.sh" "$scratch/o.json" >/dev/null 2>&1
  t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$scratch/o.json'))['passed'])
print('ok' if b<=o else 'BROKEN '+' '.join(sorted(b-o)[:3]))")
fi
prop=$(python3 -c "import json;print(json.load(open('$here/meta.json'))['property'])")
mkdir -p "$scratch/v"; cp /verif/known_findings.txt "$scratch/v/"
hit=""
for p in ${ONLY:+$prop} $([ -n "$ONLY" ] || python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))"); do
  if VERIF_DIR="$scratch/v" /verif/bin/jxlsa $p "$scratch/r" >"$scratch/$p.log" 2>&1; then :; else hit="$hit $p"; fi
done
echo "$id: prop=$prop demo clean=$c patched=$d tests=[${t:-ok}] caught by:[$hit ]"
if [ $c -ne 0 ]; then tail -5 "$scratch/clean.log"; fi
if [ $d -eq 0 ]; then tail -5 "$scratch/pat.log"; fi
if [ -n "$VERBOSE" ]; then tail -5 "$scratch/pat.log"; for h in $hit; do grep -A1 "^  " "$scratch/$h.log" | head -4; done; fi
case "$scratch" in /tmp/seed.*) rm -rf "$scratch";; esac
