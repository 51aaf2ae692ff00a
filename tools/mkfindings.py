#!/usr/bin/env python3
"""Write /verif/known_findings.json from the fix commits in /repo's history and the table of properties below.

Run by hand after adding a fix commit; the checks only read the result."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = json.load(open(os.path.join(HERE, "tools", "fix_properties.json")))
FINDINGS = []   # genuine defects that are recorded, not repaired: {"property", "sub", "key", "case", "what"}

log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    what = s[4:].strip()
    props = TABLE.get(what)
    if props is None:
        sys.exit("no property for %s %s" % (h, what))
    for p in props:
        fixed.append("fixed: property=%s %s %s" % (p, h, what))
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
    f.write("\n")
print(len(fixed))
