"""Symbolic path exploration by re-execution: every Python-level branch on a symbolic
boolean (and every case split inside an operation) is a decision; run_all enumerates
all feasible decision sequences."""
import time
from . import terms as tm
from .terms import TRUE, FALSE


class Unsupported(Exception):
    """construct outside the verifier's reach"""


class PathEnd(Exception):
    """infeasible / deliberately ended path"""


class SymRaise(Exception):
    """the code under verification raised"""

    def __init__(self, exc):
        self.exc = exc


class Path:
    def __init__(self, trace):
        self.trace = list(trace)
        self.pos = 0
        self.pc = []  # boolean terms
        self.pending = []
        self.obligations = []  # (hyps-at-point, goal, label)
        self.fresh = 0
        self.notes = []
        self.univ = None  # number of facts known before the first case split (they hold for every element)

    def universal(self):
        return self.pc if self.univ is None else self.pc[: self.univ]

    def assume(self, c):
        if c is TRUE:
            return
        self.pc.append(c)

    def feasible(self, extra=()):
        from .prove import z3check

        cs = [c for c in self.pc + list(extra) if not _heavy(c)]
        if any(c is FALSE for c in cs):
            return False
        r, _ = z3check(cs, None, 1500)
        return r != "unsat"

    def choose(self, n, conds=None, label="choice", check=True):
        """n-way case split.  conds[i]: facts assumed in case i"""
        if self.pos < len(self.trace):
            k = self.trace[self.pos]
            self.pos += 1
        else:
            # determine first feasible alternative; push the rest
            alts = []
            for i in range(n):
                if conds is None:
                    alts.append(i)
                else:
                    ci = conds[i]
                    if ci is FALSE:
                        continue
                    if ci is TRUE or not check or self.feasible([ci]):
                        alts.append(i)
            if not alts:
                raise PathEnd()
            k = alts[0]
            for a in reversed(alts[1:]):
                self.pending.append(self.trace[: self.pos] + [a])
            self.trace.append(k)
            self.pos += 1
        if conds is not None:
            if self.univ is None:
                self.univ = len(self.pc)
            self.assume(conds[k])
        return k

    def oblige(self, goal, label):
        self.obligations.append((list(self.pc), goal, label))

    def freshname(self, base):
        self.fresh += 1
        return f"{base}!{self.fresh}"


def _heavy(c):
    n = 0
    for x in tm.postorder([c]):
        n += 1
        if n > 3000:
            return True
    return False


_cur = [None]


def cur():
    return _cur[0]


def decide(cond):
    """python bool of a symbolic boolean"""
    if cond is TRUE:
        return True
    if cond is FALSE:
        return False
    p = cur()
    if p is None:
        raise Unsupported("symbolic branch outside exploration")
    d = tm.isdef(cond)
    if d is not TRUE:
        # a branch on a NaN / infinite value is outside the model: require it is not one
        p.oblige(d, "branch condition is a finite number")
        p.assume(d)
    return p.choose(2, [cond, tm.not_(cond)]) == 0


def run_all(fn, maxpaths=4000, deadline=None):
    """run fn() on every path; yields (Path, result or exception)"""
    work = [[]]
    out = []
    n = 0
    while work:
        tr = work.pop()
        p = Path(tr)
        _cur[0] = p
        try:
            try:
                r = fn()
            except PathEnd:
                r = PathEnd()
        finally:
            _cur[0] = None
        work.extend(p.pending)
        n += 1
        if n > maxpaths:
            raise Unsupported(f"more than {maxpaths} paths")
        if deadline and time.time() > deadline:
            raise Unsupported("path exploration out of time")
        if not isinstance(r, PathEnd):
            out.append((p, r))
    return out
