"""What a rule file gets: the program, the analysis entry points and the verdict sink."""
import random
from .program import Program, AnalysisError
from .interp import analyse
from .term import *
from . import term as tm


class Ctx:
    def __init__(self, repo, tier='quick', overlay=None):
        self.repo, self.tier, self.overlay = repo, tier, overlay
        self._prog = None
        self.oks, self.undec, self.findings = [], [], []
        self.means = {}
        self.mins = {}
        self.times = {}
        self.analysed = set()
        self.nevents = 0
        self.current = None
        self._fk = set()

    @property
    def prog(self):
        if self._prog is None:
            self._prog = Program(self.repo, overlay=self.overlay)
        return self._prog

    def progs(self):
        return [self.prog]

    # verdicts
    def rule(self, name, means, atleast=0):
        self.means[name] = means
        if atleast:
            self.mins[name] = atleast
        return name

    def ok(self, rule, inst, detail=None):
        self.oks.append((rule, str(inst), detail if detail is None or isinstance(detail, str) else show(detail, 5)))

    def bad(self, rule, construct, loc, msg):
        construct = str(construct).replace(' ', '_')
        k = (rule, construct)
        if k in self._fk:
            return
        self._fk.add(k)
        self.findings.append(dict(rule=rule, construct=construct, loc=str(loc), msg=msg))

    def und(self, rule, inst, why):
        self.undec.append((rule, str(inst), why))

    def verdict(self, v, rule, construct, loc, msg):
        """v True ok / False bad / None undecided"""
        v = None if v is None else bool(v)
        if v is True:
            self.ok(rule, construct)
        elif v is False:
            self.bad(rule, construct, loc, msg)
        else:
            self.und(rule, construct, msg)

    def rulenames(self):
        return sorted(set([o[0] for o in self.oks] + [u[0] for u in self.undec] + [f['rule'] for f in self.findings] + list(self.means)))

    def shortfalls(self):
        out = []
        for r, n in self.mins.items():
            c = sum(1 for o in self.oks if o[0] == r) + sum(1 for f in self.findings if f['rule'] == r) + sum(1 for u in self.undec if u[0] == r)
            if c < n:
                out.append('rule %s matched %d instances, expected at least %d' % (r, c, n))
        return out

    # analysis
    def func(self, q):
        return self.prog.func(q)

    def analyse(self, q, *a, **k):
        it = analyse(self.prog, q, *a, **k)
        self.analysed.add(q if isinstance(q, str) else q.qual)
        self.nevents += len(it.events)
        return it


def need(c, msg):
    if not c:
        raise AnalysisError(msg)
    return c
