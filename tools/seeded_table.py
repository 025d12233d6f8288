"""Writes tools/design_seeded.md from the planted bugs (not used by any check)."""
import glob, json, os

here = os.path.dirname(os.path.abspath(__file__))
rows = []
for d in sorted(glob.glob(os.path.join(here, "..", "seeded", "S*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    files = sorted({l[6:].strip() for l in open(os.path.join(d, "patch.diff")) if l.startswith("+++ b/")})
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d), m["property"], ", ".join(f.split("/")[-1] for f in files), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
open(os.path.join(here, "design_seeded.md"), "w").write("""## Planted bugs

Each was written from the text of the property and the code, confirmed with its
demonstration (passes on the tree, fails with the patch, the 21 tests pass), and
is caught by the quick check of its property.

| bug | property | file | what it breaks | what it needs |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n")
