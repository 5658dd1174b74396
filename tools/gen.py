#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. CLAIMED lists the ids with a check."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E3, E31 = "openapi3/entities.go", "openapi31/entities.go"
R3, R31 = "openapi3/reflect.go", "openapi31/reflect.go"
H3, H31 = "openapi3/helper.go", "openapi31/helper.go"
J3, J31 = "openapi3/jsonschema.go", "openapi31/jsonschema.go"
W3, W31 = "openapi3/walk_schema.go", "openapi31/walk_schema.go"
Y3, Y31 = "openapi3/yaml.go", "openapi31/yaml.go"
OP, IJ, IO = "operation.go", "internal/json_schema.go", "internal/operation_context.go"

P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
      technique=technique, note=note))

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

claimed = set(open(os.path.join(ROOT, "tools", "claimed.txt")).read().split())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="none", enable="no hooks in /repo: the checks use its exported API; map iteration order (P14) is controlled by a go build -overlay of the standard library made in /verif/out", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="model_checking", level_note=p["note"])
          for p in P if p["id"] in claimed],
  not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "the check is under construction")) for p in P if p["id"] not in claimed])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
