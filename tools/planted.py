"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | caught by | needs |\n|---|---|---|")
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], " ".join(m["needs"].split()).replace("|", "/")))
