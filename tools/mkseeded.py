"""Development aid: rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json (all confirmed with tools/plant.py)."""
import json, os
p = "/verif/DESIGN.md"; s = open(p).read(); h = "## Planted bugs (`seeded/`) and what catches them\n"
i = s.index(h) + len(h)
out = "\nEach was confirmed in a scratch copy (applies, builds, passes the stable tests, its demonstration fails with it and passes without it) and is\nreported at quick tier with VERIF_SEED=1 by the check of its own property.\n\n| planted bug | check | needs |\n|---|---|---|\n"
for d in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % d)); out += "| %s | %s | %s |\n" % (d, m["property"], m["needs"])
open(p, "w").write(s[:i] + out)
