#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with its check."""
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
checks=json.load(open(os.path.join(root,"tools","checks.json")))
na=checks.pop("not_applicable",{})
m={"version":1,"setup_cmd":"bash ./setup.sh",
 "hooks":{"guard":"cfg(wastrumentation_verif)","enable":"rustflags = --cfg wastrumentation_verif in harness/h_core/.cargo/config.toml; only C09 uses it (the untyped nested form is private), all else observes public interfaces and produced artefacts","source_commits":["cc79502"]},
 "checks":[],"not_applicable":[],"notes":"See DESIGN.md. check.sh <ID> <tier>; VERIF_SEED seeds every random choice."}
for p in props:
    i=p["id"]
    if i in checks:
        c=checks[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash ./check.sh {i} quick","thorough_cmd":f"bash ./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":c["technique"],"level":c.get("level","exploration"),"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,"not built yet")})
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
