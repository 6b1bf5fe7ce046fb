#!/usr/bin/env python3
"""dump.py FUNC [-t] : blocks of the inlined view of a function, with the facts before each call (-t)."""
import sys; sys.path.insert(0, '/verif/analyzer'); sys.setrecursionlimit(20000)
from ista.model import Program, short
from ista.facts import facts
P = Program("core")
for f in P.funcs.values():
    if f.f == sys.argv[1] or f.f.endswith("::" + sys.argv[1]):
        v = P.view(f)
        print("==", v.f, v.loc(), "entry", v.entry, "exit", v.exit)
        F = facts(P, v)
        for b in sorted(v.blocks, reverse=True):
            blk = v.blocks[b]
            print("B%d -> %s%s" % (b, blk["to"], "  nr" if blk.get("nr") else ""))
            if "-t" in sys.argv and F.inb.get(b) is not None:
                for a in list(F.inb[b])[:3]:
                    print("      |", sorted(map(str, a)))
            for e in blk["s"]:
                if isinstance(e, dict):
                    print("   ", e); continue
                n = v.nodes[e]
                if n["k"] in ("call", "ctor", "asg", "decl", "ret", "throw", "new", "delete", "un", "iret"):
                    print("   %5d %s %s%s   T=%s" % (e, n["k"], P.render(v, e)[:110], " y%s" % n["y"] if n.get("y") is not None else "", str(F.term(e))[:150]))
            if blk.get("tc") is not None:
                print("      ? %s  T=%s" % (P.render(v, blk["tc"])[:120], str(F.term(blk["tc"]))[:200]))
