#!/usr/bin/env python3
"""mut.py CHECK[,CHECK] FILE <<< 'old\\n====\\nnew' : run checks against a scratch copy of /repo with one replacement (dev aid)."""
import sys, os, subprocess, shutil
chk, file = sys.argv[1].split(","), sys.argv[2]
edits = [e.strip("\n").split("\n====\n") for e in sys.stdin.read().split("@@@@")]
D = "/tmp/mutrepo"
if not os.path.isdir(D):
    os.makedirs(D)
subprocess.run(["rsync", "-a", "--delete", "--exclude=obj", "--exclude=bin", "--exclude=.git", os.environ.get("MUTBASE", "/repo") + "/", D + "/"], check=True) if shutil.which("rsync") else \
    subprocess.run("rm -rf /tmp/mutrepo && mkdir /tmp/mutrepo && cd %s && tar cf - --exclude=./obj --exclude=./bin --exclude=./.git . | tar xf - -C /tmp/mutrepo" % os.environ.get("MUTBASE", "/repo"), shell=True, check=True)
p = os.path.join(D, file)
s = open(p).read()
for old, new in edits:
    if s.count(old) < 1:
        sys.exit("pattern not found")
    s = s.replace(old, new, 1)
open(p, "w").write(s)
for c in chk:
    r = subprocess.run(["python3", "/verif/analyzer/check.py", c], env=dict(os.environ, ISTATD_REPO=D), capture_output=True, text=True)
    print(c, "exit", r.returncode)
    print("\n".join(l for l in r.stdout.splitlines() if "rule:" not in l)[:1800])
    print(r.stderr[-1500:])
