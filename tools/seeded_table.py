"""Prints the table of planted bugs for DESIGN.md."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| change | caught by | needs |\n|---|---|---|")
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    print("| %s | %s | %s |" % (d.split("/")[-2], m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
