import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
import props
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in props.PROPS]
assert len(set(ids)) == len(ids)
checks, na = [], []
for i in ids:
    if i in props.CLAIMS:
        t, n = props.CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": "static analysis: " + t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE[i]})
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
           "notes": "All checks run one analyser (/verif/sa, Go, vendored golang.org/x/tools) over /repo's current source; no hooks in /repo are needed."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
import jsonschema
S = lambda n: json.load(open("/root/.vp/" + n))
for p in props.PROPS: jsonschema.validate(p, S("PROPERTIES.schema.json")); assert len(p["title"]) <= 80
jsonschema.validate(json.load(open(os.path.join(root, "MANIFEST.json"))), S("MANIFEST.schema.json"))
print(len(checks), "claimed", len(na), "n/a")
