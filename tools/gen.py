#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props_*.py."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here); sys.dont_write_bytecode = True
props, na = [], []
for f in sorted(glob.glob(os.path.join(here, "props_*.py"))):
    m = importlib.import_module(os.path.basename(f)[:-3]); props += m.PROPS; na += getattr(m, "NA", [])
props.sort(key=lambda p: p["id"])
out = os.path.dirname(here)
with open(os.path.join(out, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if "state" in p: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if "observe" in p: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        for x in a["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
nids = {n["property"] for n in na}
man = {"version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use public items and the brack binary", "source_commits": []},
 "checks": [{"property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": p.get("level", "exploration"),
   "level_note": p.get("note", "Searched over generated cases with a fixed seed, not proved; trusts the generators and the oracle in /verif/harness to represent the language as the property states it.")} for p in props if p["id"] not in nids],
 "not_applicable": na}
json.dump(man, open(os.path.join(out, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); open(os.path.join(out, "MANIFEST.json"), "a").write("\n")
