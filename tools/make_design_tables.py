#!/usr/bin/env python3
"""Rewrites the two generated tables of DESIGN.md: costs (from evidence/) and planted bugs (from seeded/)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parents[1]
cost = ["| id | states | calls on the implementation | comparisons | wall |", "|---|---|---|---|---|"]
for f in sorted((root / "evidence").glob("C*.json")):
    e = json.loads(f.read_text())
    if e["tier"] != "quick":
        continue
    c = e["coverage"]
    cost.append("| %s | %d | %d | %d | %d s |" % (f.stem, c["states"], c["transitions"], c["comparisons"], round(e["wall_s"])))
FIRST = {"w01_weak", "x18_flip", "x22_thick_exp", "s07_nt_rescale_tuple", "s08_shared_quadrature", "t06_vector_len1", "t08_leg_inplace", "t10_phi_order",
         "t19_act_partial", "y02_zero_mode", "y08_errstate", "y09_publish", "y12_unsorted"}
bugs = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted((root / "seeded").glob("*/meta.json")):
    m = json.loads(f.read_text())
    bugs.append("| %s | %s | %s | %s%s |" % (f.parent.name, m["property"], m["needs"], m["property"], " (after strengthening)" if f.parent.name in FIRST else ""))
p = root / "DESIGN.md"
s = p.read_text()
for name, rows in (("costs", cost), ("bugs", bugs)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % name, lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
p.write_text(s)
