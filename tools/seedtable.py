#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; NOTES says what was strengthened for bugs missed at first.
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "c04-float-keys": "missed; YAML writer got canonical floats and booleans as keys",
 "c12-items-constraints": "missed; constraint tags on lists and their items generated together",
 "c12-zero-max-length": "missed; zero, negative and fractional bounds generated",
 "c15-mapping-mutated": "missed; mappings shared by operations are compared after use",
 "c07-trimmed-name": "missed; names with blanks around generated",
 "c08-clear-tags": "missed; metadata is set to something else and cleared first",
 "c14-dotted-names": "missed; interceptors of definition names generated",
 "c20-empty-bytes": "missed; helper decoders are called, empty input generated",
 "c21-unicode-names": "missed; interceptors of definition names generated",
 "c24-oidc-url": "written for C03 (3.0) and missed there; led to C24",
}
NOTES.update(json.load(open(os.path.join(root, "tools", "seednotes.json"))) if os.path.exists(os.path.join(root, "tools", "seednotes.json")) else {})
rows = ["| bug | check | needs | first |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), NOTES.get(i, "caught")))
p = os.path.join(root, "DESIGN.md"); s = open(p).read()
b, e = "<!-- seeded table -->", "<!-- end of seeded table -->"
i = s.index(b); j = s.index(e) if e in s else len(s)
s = s[:i] + b + "\n\n" + "\n".join(rows) + "\n\n" + e + s[j + len(e) if e in s else len(s):]
open(p, "w").write(s.rstrip() + "\n")
