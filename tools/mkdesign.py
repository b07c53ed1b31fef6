"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
print("| planted bug | breaks | needs |\n|---|---|---|")
for m in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    print("| %s | %s | %s |" % (m.split("/")[-2], d["property"], d["needs"]))
