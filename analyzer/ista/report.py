"""Obligations, violations and their stable fingerprints."""
from collections import Counter, OrderedDict
from .build import AnalysisBroken


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = OrderedDict()      # rule -> text
        self.obs = []                   # (rule, where, what, ok)
        self.viol = OrderedDict()       # fingerprint -> dict
        self.mins = {}
        self.notes = []

    def rule(self, name, text, need=1):
        """Declare a rule; need = least number of instances below which the rule is not looking at the code any more."""
        self.rules[name] = text
        self.mins[name] = need

    def ob(self, rule, where, what, ok=True, func="", detail="", msg="", path=()):
        if rule not in self.rules:
            raise AssertionError("undeclared rule " + rule)
        self.obs.append((rule, where, what, bool(ok)))
        if not ok:
            fp = "%s|%s|%s" % (rule, func, detail or what)
            if fp not in self.viol:
                self.viol[fp] = dict(fingerprint=fp, rule=rule, where=where, function=func, what=what,
                                     message=msg or what, path=list(path))
            else:
                self.viol[fp].setdefault("also", []).append(where)

    def note(self, s):
        self.notes.append(s)

    def finish(self):
        c = Counter(o[0] for o in self.obs)
        if self.viol:
            return
        for r, n in self.mins.items():
            if c[r] < n:
                raise AnalysisBroken("rule %s matched %d instances, expected at least %d: anchors are gone" % (r, c[r], n))
