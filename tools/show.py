"""Development tool: prints the violation files of a property with choices decoded as far as recorded."""
import glob
import json
import sys
for f in sorted(glob.glob("/verif/evidence/%s-violation-*.json" % sys.argv[1])):
    d = json.load(open(f))
    print(f, d["harness"], "|", d["label"], "|", d["inputs"], "|", d["observations"], "|", d.get("detail"))
