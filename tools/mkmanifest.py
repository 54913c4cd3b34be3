"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
mods = {f[:3].upper(): f for f in os.listdir(os.path.join(V, "checks")) if re.match(r"c\d\d_.*\.py$", f)}
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in mods:
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check %s" % i, thorough_cmd="VERIF_TIER=thorough ./check %s" % i,
            technique=n.get("technique", "property-based testing (Hypothesis) against a reference model"),
            level="exploration", level_note=n.get("note", "Holds on every generated case; no claim beyond them."), evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none (no hooks are needed)", enable="not applicable", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
