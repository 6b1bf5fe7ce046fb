#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE "needs" "what" < edits ('old\\n====\\nnew[\\n@@@@\\n...]'): write seeded/ID/{patch.diff,meta.json}"""
import sys, os, subprocess, json
sid, prop, file, needs, what = sys.argv[1:6]
D = "/verif/seeded/" + sid
os.makedirs(D, exist_ok=True)
os.makedirs("/tmp/mks", exist_ok=True)
subprocess.run("rm -rf /tmp/mks/a /tmp/mks/b", shell=True)
txt = orig = open("/repo/" + file).read()
for ed in sys.stdin.read().strip("\n").split("\n@@@@\n"):
    old, new = ed.split("\n====\n") if "\n====\n" in ed else (ed.replace("\n====", ""), "")
    assert txt.count(old) == 1, (txt.count(old), old)
    txt = txt.replace(old, new)
for k, t in (("a", orig), ("b", txt)):
    os.makedirs("/tmp/mks/%s/%s" % (k, os.path.dirname(file)))
    open("/tmp/mks/%s/%s" % (k, file), "w").write(t)
p = subprocess.run(["diff", "-u", "a/" + file, "b/" + file], cwd="/tmp/mks", capture_output=True, text=True).stdout
open(D + "/patch.diff", "w").write(p)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(D + "/meta.json", "w"), indent=1)
print(subprocess.run(["git", "-C", "/repo", "apply", "--check", D + "/patch.diff"], capture_output=True, text=True).stderr or "applies", sid)
