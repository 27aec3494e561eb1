"""prints the table of DESIGN.md section 6 from seeded/*/meta.json"""
import json, glob, os
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*"))):
    m = json.load(open(d + "/meta.json"))
    print("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
