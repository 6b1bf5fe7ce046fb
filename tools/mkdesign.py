#!/usr/bin/env python3
"""Regenerates the generated parts of DESIGN.md (seeds, findings, unbuilt properties) between markers."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()


def put(tag, text):
    global s
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + text + "\n" + b, s, flags=re.S)


rows = ["| seed | property | caught by | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "\\|")))
put("seeds", "\n".join(rows))
k = json.load(open(R + "/known-findings.json"))
rows = ["Repaired (%d):\n" % len(k["fixed"])]
by = {}
for x in k["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", x)
    by.setdefault(m.group(1), []).append("%s (`%s`)" % (m.group(3), m.group(2)))
for q in sorted(by):
    rows.append("* **%s** %s" % (q, "; ".join(by[q])))
rows.append("\nRecorded, not repaired (%d):\n" % len(k.get("findings", [])))
for x in k.get("findings", []):
    rows.append("* **%s** %s" % (x["property"], x["what"]))
put("findings", "\n".join(rows))
ps = [json.loads(l) for l in open(R + "/properties.jsonl")]
mf = json.load(open(R + "/MANIFEST.json"))
rows = ["* **%s** %s" % (x["id"] if "id" in x else x["property"], x["reason"]) for x in mf["not_applicable"]]
put("na", "\n".join(rows))
open(p, "w").write(s)
