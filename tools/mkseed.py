# mkseed.py ID PROPERTY PKGDIR "needs" "breaks"  : patch from `git diff` in /tmp/work, demo from /tmp/demo_test.go
import sys, os, subprocess, shutil, json
id, prop, pkg, needs, breaks = sys.argv[1:6]
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/work", "diff"], capture_output=True, text=True, check=True).stdout
assert diff.strip(), "empty diff"
open(d + "/patch.diff", "w").write(diff)
shutil.copy("/tmp/demo_test.go", d + "/demo_test.go")
open(d + "/demo.sh", "w").write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
tmp="$(mktemp -d)"
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test %s -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 250s -run '^TestSeededDemo$' ./%s
rc=$?
case "$tmp" in /tmp/*) rm -r "$tmp";; esac
exit $rc
''' % (pkg, "-race" if os.environ.get("RACE") else "", pkg))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", "/tmp/work", "checkout", "-q", "--", "."], check=True)
