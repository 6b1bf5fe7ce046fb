"""obs.py ID : list the obligations of a property on the current tree"""
import sys, importlib
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/analyzer")
sys.setrecursionlimit(20000)
from ista.model import Program
from ista.report import Report
mod = importlib.import_module("rules." + sys.argv[1])
R = Report(sys.argv[1])
ob = R.ob
def show(rule, where, what, ok, **k):
    print("ok " if ok else "BAD", rule, where, what, "|", k.get("detail"), "" if ok else k.get("msg"))
    return ob(rule, where, what, ok, **k)
R.ob = show
mod.run(Program(getattr(mod, "SCOPE", "core")), R)
