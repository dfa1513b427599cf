"""Discharging verification conditions.

prove(hyps, goal) -> Result(status in {'proved','refuted','unknown'}, how, model)

Pipeline: case split on conditions inside ite-terms (infeasible cases pruned by z3),
trigonometric rewriting, exact polynomial / rational normal form, then z3 (nlsat) and
cvc5 on the remaining polynomial arithmetic with sound axioms for the atoms.
"""
import math
import os
import threading
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import const, ZERO, ONE, TRUE, FALSE
from .poly import Ctx, Poly, TooBig, ONEP, pconst, is_calg, cinverse, cvalue

STATS = {"poly": 0, "z3": 0, "cvc5": 0, "split": 0, "const": 0, "solver_s": 0.0, "pruned": 0}
TIMEOUT = [20000]
DEADLINE = [None]
PRUNE = [500]
DEBUG = bool(os.environ.get("VC_DEBUG"))


class OutOfTime(Exception):
    pass


def _tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise OutOfTime()


class Result:
    def __init__(self, status, how="", model=None, leaf=None):
        self.status, self.how, self.model, self.leaf = status, how, model, leaf

    def __repr__(self):
        return f"<{self.status} {self.how}>"


# ------------------------------------------------------------------ trig rewriting
def _lin_angle(ctx, t):
    """poly of angle t as list of (coef, monomial) ; None when not polynomial"""
    n, d = ctx.rat(t)
    if not d.is_const():
        return None
    return [(c / d.cval(), m) for m, c in n.d.items()]


_EX = {}


def exact_sincos(q):
    """sin, cos of q*pi for rational q, or None"""
    q = Fraction(q) % 2
    tab = {
        Fraction(0): (ZERO, ONE),
        Fraction(1, 6): (const(Fraction(1, 2)), tm.div(tm.sqrt(const(3)), const(2))),
        Fraction(1, 4): (tm.div(tm.sqrt(const(2)), const(2)), tm.div(tm.sqrt(const(2)), const(2))),
        Fraction(1, 3): (tm.div(tm.sqrt(const(3)), const(2)), const(Fraction(1, 2))),
        Fraction(1, 2): (ONE, ZERO),
        Fraction(1, 12): (
            tm.div(tm.sub(tm.sqrt(const(6)), tm.sqrt(const(2))), const(4)),
            tm.div(tm.add(tm.sqrt(const(6)), tm.sqrt(const(2))), const(4)),
        ),
        Fraction(5, 12): (
            tm.div(tm.add(tm.sqrt(const(6)), tm.sqrt(const(2))), const(4)),
            tm.div(tm.sub(tm.sqrt(const(6)), tm.sqrt(const(2))), const(4)),
        ),
    }
    s = 1
    if q >= 1:
        q -= 1
        s = -1
    # now 0<=q<1
    if q > Fraction(1, 2):
        r = tab.get(1 - q)
        if r is None:
            return None
        si, co = r[0], tm.neg(r[1])
    else:
        r = tab.get(q)
        if r is None:
            return None
        si, co = r
    if s < 0:
        si, co = tm.neg(si), tm.neg(co)
    return si, co


class Trig:
    """rewrites sin/cos/tan of linear combinations into algebraic terms over base atoms"""

    def __init__(self):
        self.den = {}  # canonical angle monomial term -> common denominator
        self.facts = {}
        self.changed = False

    def base(self, ctx, m, q):
        """sin, cos of q * (monomial m)"""
        mt = ctx.toterm(Poly({m: Fraction(1)}), ONEP)
        D = self.den.get(mt.id, 1)
        if abs(q.numerator) > 1000 and q.denominator > 1000:
            # a decimal factor: an angle of its own
            a = tm.mul(const(abs(q)), mt)
            s, c = tm.mk("sin", a), tm.mk("cos", a)
            return (s if q > 0 else tm.neg(s)), c
        if (q * D).denominator != 1:
            import math

            D2 = D * q.denominator // math.gcd(D, q.denominator)
            self.den[mt.id] = D2
            self.changed = True
            D = D2
        n = int(q * D)
        s, c = self.unit(mt, D)
        return multiple(s, c, n)

    def unit(self, mt, D):
        """sin, cos of mt / D"""
        if mt.op in ("acos", "asin", "atan", "atan2") and D <= 2:
            s, c = self.inv_sc(mt)
            if D == 1:
                return s, c
            if mt.op == "acos":
                u = mt.args[0]
                return (
                    tm.sqrt(tm.mul(const(Fraction(1, 2)), tm.sub(ONE, u))),
                    tm.sqrt(tm.mul(const(Fraction(1, 2)), tm.add(ONE, u))),
                )
            ch = tm.sqrt(tm.mul(const(Fraction(1, 2)), tm.add(ONE, c)))
            sh = tm.sqrt(tm.mul(const(Fraction(1, 2)), tm.sub(ONE, c)))
            return tm.ite(tm.le(ZERO, s), sh, tm.neg(sh)), ch
        a = tm.div(mt, const(D))
        return tm.mk("sin", a), tm.mk("cos", a)

    def inv_sc(self, t):
        if t.op == "acos":
            u = t.args[0]
            return tm.sqrt(tm.sub(ONE, tm.ipow(u, 2))), u
        if t.op == "asin":
            u = t.args[0]
            return u, tm.sqrt(tm.sub(ONE, tm.ipow(u, 2)))
        if t.op == "atan":
            u = t.args[0]
            r = tm.sqrt(tm.add(ONE, tm.ipow(u, 2)))
            return tm.div(u, r), tm.div(ONE, r)
        y, x = t.args
        r = tm.sqrt(tm.add(tm.ipow(x, 2), tm.ipow(y, 2)))
        z = tm.and_(tm.eq(x, ZERO), tm.eq(y, ZERO))
        return tm.ite(z, ZERO, tm.div(y, r)), tm.ite(z, ONE, tm.div(x, r))

    def sincos(self, ctx, t):
        lin = _lin_angle(ctx, t)
        if lin is None:
            # opaque angle (quotient); use as its own base
            ct = ctx.canon(t)
            n, d = ctx.rat(ct)
            lead = n.d[min(n.d, key=str)]
            if lead < 0:
                ct = ctx.canon(tm.neg(t))
                return tm.neg(tm.mk("sin", ct)), tm.mk("cos", ct)
            return tm.mk("sin", ct), tm.mk("cos", ct)
        S, C = ZERO, ONE
        piq = Fraction(0)
        for q, m in lin:
            if m == (("cpi", Fraction(1)),) or m == (("cpi", 1),):
                piq += q
                continue
            # 2*pi*integer atom
            if len(m) == 2 and m[0][0] == "cpi" and m[0][1] == 1 and m[1][1] == 1:
                at = ctx.atom_term[m[1][0]]
                if at.op in ("ivar", "floor") and q.denominator == 1 and q % 2 == 0:
                    continue
            s, c = self.base(ctx, m, q)
            S, C = tm.add(tm.mul(S, c), tm.mul(C, s)), tm.sub(tm.mul(C, c), tm.mul(S, s))
        if piq % 2 != 0:
            e = exact_sincos(piq)
            if e is None:
                a = tm.mul(const(piq), tm.PI)
                s, c = tm.mk("sin", a), tm.mk("cos", a)
            else:
                s, c = e
            S, C = tm.add(tm.mul(S, c), tm.mul(C, s)), tm.sub(tm.mul(C, c), tm.mul(S, s))
        return S, C

    def rewrite(self, ts):
        for _ in range(6):
            self.changed = False
            out = self._rewrite(ts)
            if not self.changed:
                return out
        return out

    def _rewrite(self, ts):
        memo = {}
        ctx = Ctx()
        for x in tm.postorder(ts):
            if not x.args:
                memo[x.id] = x
                continue
            na = [memo[a.id] for a in x.args]
            y = x if all(p is q for p, q in zip(na, x.args)) else tm.rebuild(x, na)
            if y.op in ("sin", "cos", "tan"):
                arg = y.args[0]
                if not has_ite(arg):
                    s, c = self.sincos(ctx, arg)
                    if not has_ite(s) and not has_ite(c) and (s.op != "sin") and arg.op != "const":
                        self.facts[arg.id] = (arg, s, c)
                    y = s if y.op == "sin" else c if y.op == "cos" else tm.div(s, c)
            memo[x.id] = y
        return [memo[t.id] for t in ts]


def multiple(s, c, n):
    """sin, cos of n*a from sin a, cos a"""
    if n < 0:
        S, C = multiple(s, c, -n)
        return tm.neg(S), C
    if n == 0:
        return ZERO, ONE
    if n == 1:
        return s, c
    if n % 2 == 0:
        S, C = multiple(s, c, n // 2)
        return tm.mul(const(2), tm.mul(S, C)), tm.sub(ONE, tm.mul(const(2), tm.ipow(S, 2)))
    S, C = multiple(s, c, n - 1)
    return tm.add(tm.mul(S, c), tm.mul(C, s)), tm.sub(tm.mul(C, c), tm.mul(S, s))


_hasite = {}


def has_ite(t):
    r = _hasite.get(t.id)
    if r is not None:
        return r
    for x in tm.postorder([t]):
        if x.id in _hasite:
            continue
        _hasite[x.id] = (x.op == "ite" and not x.isbool) or any(_hasite[a.id] for a in x.args)
    return _hasite[t.id]


def atomic_conds(c, out):
    if c.op in ("and", "or", "not"):
        for a in c.args:
            atomic_conds(a, out)
    elif c.op in ("true", "false"):
        pass
    else:
        out.append(c)


def _lit_bound(h, ctx):
    """(polynomial key without constant term, sign-normalised) -> interval implied by a literal"""
    neg = False
    while h.op == "not":
        neg = not neg
        h = h.args[0]
    if h.op not in ("lt", "le", "eq") or h.args[0].isbool:
        return None
    n, d = ctx.rat(tm.sub(h.args[0], h.args[1]))
    n = ctx.reduce(n)
    if not d.is_const():
        return None
    n = n.scale(1 / d.cval())
    # split by the non-constant part of each monomial
    parts = {}
    for m, x in n.d.items():
        cm = tuple(z for z in m if isinstance(z[0], str))
        vm = tuple(z for z in m if not isinstance(z[0], str))
        parts.setdefault(vm, {})[cm] = x
    parts = {k: Poly(z) for k, z in parts.items()}
    c0 = parts.pop((), Poly())
    if not parts:
        v0 = cvalue(c0)
        if c0 and abs(v0) < 1e-30:
            return None
        v = {"lt": v0 < 0, "le": v0 <= 0, "eq": not c0}[h.op]
        return ("const", v != neg)
    lead = parts[min(parts, key=repr)]
    iv = cinverse(lead) if is_calg(lead) else None
    if iv is None:
        x = lead.d[min(lead.d, key=repr)]
        iv = pconst(1 / x)
    sg = cvalue(iv)
    if abs(sg) < 1e-30:
        return None
    key = []
    for k, z in parts.items():
        q = z * iv
        key.append((repr(k), tuple(sorted((repr(m), x) for m, x in q.d.items()))))
    key = tuple(sorted(key))
    b = -(c0 * iv)
    # n op 0  <=>  P op' b  with the sign of iv
    if h.op == "eq":
        return (key, "ne" if neg else "eq", Cst(b))
    up = sg > 0  # P <= b  when up
    strict = h.op == "lt"
    if neg:
        up, strict = not up, not strict
    return (key, ("<" if strict else "<=") if up else (">" if strict else ">="), Cst(b))


class Cst:
    """constant of the form sum of rational multiples of roots and powers of pi, ordered numerically, equal exactly"""

    __slots__ = ("p", "v")

    def __init__(self, p):
        self.p = p
        self.v = cvalue(p)

    def __eq__(self, o):
        return not (self.p - o.p)

    def __hash__(self):
        return hash(self.p.key())

    def __gt__(self, o):
        return self.v - o.v > 1e-30 and self != o


_LITS = {}


def contradictory(hyps):
    """cheap refutation: bounds on one and the same polynomial (after normalisation) that exclude each other"""
    ctx = None
    iv = {}
    act = tuple((a.id, e, b.id) for a, e, b in Ctx.ACTIVE)
    try:
        for h in hyps:
            if h is FALSE:
                return True
            if h.op in ("and", "or", "bvar"):
                continue
            mk = (h.id, act)
            if mk in _LITS:
                r = _LITS[mk]
            else:
                r = None
                if not has_ite(h):
                    ctx = ctx or Ctx()
                    try:
                        r = _lit_bound(h, ctx)
                    except (TooBig, NotImplementedError, KeyError, AttributeError, ZeroDivisionError):
                        pass
                _LITS[mk] = r
            if r is None:
                continue
            if r[0] == "const":
                if not r[1]:
                    return True
                continue
            key, op, b = r
            e = iv.setdefault(key, [None, False, None, False, set()])
            if op in (">", ">=", "eq"):
                s = op == ">"
                if e[0] is None or b > e[0] or (b == e[0] and s):
                    e[0], e[1] = b, s
            if op in ("<", "<=", "eq"):
                s = op == "<"
                if e[2] is None or b < e[2] or (b == e[2] and s):
                    e[2], e[3] = b, s
            if op == "ne":
                e[4].add(b)
        for lo, ls, hi, hs_, ne in iv.values():
            if lo is not None and hi is not None:
                if lo > hi or (lo == hi and (ls or hs_ or lo in ne)):
                    return True
    except TooBig:
        pass
    return False


def pick_split(ts):
    """an ite-free atomic condition controlling some ite in ts"""
    for x in tm.postorder(ts):
        if x.op == "ite" and not x.isbool:
            cs = []
            atomic_conds(x.args[0], cs)
            for c in cs:
                if not has_ite(c):
                    return c
    return None


# ------------------------------------------------------------------ z3 translation
_pi_lo = Fraction("3.14159265358979323846264338327950288419")
_pi_hi = Fraction("3.14159265358979323846264338327950288420")


class Z:
    def __init__(self):
        self.ctx = Ctx()
        self.axioms = []
        self.vars = {}
        self.done = set()
        self.cvars = {}
        self.queue = []
        for at, e, rhs in Ctx.ACTIVE:
            # the rule itself, unreduced (the hypothesis it comes from normalises to a triviality)
            v = self.atomvar(at.id)
            n, d = self.ctx.rat(rhs)
            x = v
            for _ in range(e - 1):
                x = x * v
            self.axioms.append(x == self.poly(n.scale(1 / d.cval())))

    def rv(self, f):
        return z3.RealVal(f"{f.numerator}/{f.denominator}")

    def cconst(self, key, e):
        """z3 term for base^e"""
        if key == "cpi":
            v = self.cvars.get("pi")
            if v is None:
                v = z3.Real("pi!")
                self.cvars["pi"] = v
                self.axioms += [v > self.rv(_pi_lo), v < self.rv(_pi_hi)]
            e = Fraction(e)
            if e.denominator == 1:
                if e > 0:
                    return v ** int(e) if e != 1 else v
                k = ("piinv",)
                w = self.cvars.get(k)
                if w is None:
                    w = z3.Real("pi_inv!")
                    self.cvars[k] = w
                    self.axioms += [w * v == 1, w > 0]
                return w ** int(-e) if e != -1 else w
            k = ("pi", e)
            w = self.cvars.get(k)
            if w is None:
                w = z3.Real(f"pi^{e}!")
                self.cvars[k] = w
                n, d = e.numerator, e.denominator
                if n > 0:
                    self.axioms += [w > 0, w**d == v**n]
                else:
                    self.axioms += [w > 0, w**d * v ** (-n) == 1]
            return w
        p = int(key[1:])
        e = Fraction(e)
        k = (p, e)
        w = self.cvars.get(k)
        if w is None:
            w = z3.Real(f"{p}^{e}!")
            self.cvars[k] = w
            self.axioms += [w > 0, w**e.denominator == p**e.numerator]
            f = float(p) ** float(e)
            self.axioms += [w > self.rv(Fraction(f) * Fraction(999999, 1000000)), w < self.rv(Fraction(f) * Fraction(1000001, 1000000))]
        return w

    def poly(self, p):
        terms = []
        for m, c in p.key():
            x = self.rv(c) if c != 1 or not m else None
            for k, e in m:
                if isinstance(k, str):
                    f = self.cconst(k, e)
                    x = f if x is None else x * f
                else:
                    v = self.atomvar(k)
                    for _ in range(int(e)):
                        x = v if x is None else x * v
            terms.append(x)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def atomvar(self, k):
        v = self.vars.get(k)
        if v is None:
            t = self.ctx.atom_term[k]
            if t.op == "ivar":
                v = z3.ToReal(z3.Int(t.val))
            else:
                v = z3.Real(t.val if t.op == "var" else f"a{k}!")
            self.vars[k] = v
            self.queue.append(k)
        return v

    def flush(self):
        while self.queue:
            k = self.queue.pop()
            if k in self.done:
                continue
            self.done.add(k)
            self.axiom(k)

    def real(self, t):
        """z3 term for canonical t, division introduces an atom"""
        n, d = self.ctx.rat(t)
        if d.is_const():
            return self.poly(n.scale(1 / d.cval()))
        q = z3.FreshReal("q")
        zd = self.poly(d)
        self.axioms.append(z3.Implies(zd != 0, q * zd == self.poly(n)))
        return q

    def axiom(self, k):
        t = self.ctx.atom_term[k]
        v = self.vars[k]
        op = t.op
        A = self.axioms
        if op == "sqrt":
            e = self.real(t.args[0])
            A.append(z3.Implies(e >= 0, z3.And(v >= 0, v * v == e)))
        elif op == "powr":
            e = self.real(t.args[0])
            x = t.val
            w = v
            A.append(z3.Implies(e >= 0, z3.And(v >= 0, v**x.denominator == e**x.numerator)))
        elif op in ("sin", "cos"):
            s = self.atomvar(self._reg(tm.mk("sin", t.args[0])))
            c = self.atomvar(self._reg(tm.mk("cos", t.args[0])))
            A.append(s * s + c * c == 1)
            self.angle_axioms(t.args[0], s, c)
        elif op in ("acos", "asin"):
            u = self.real(t.args[0])
            pi = self.cconst("cpi", Fraction(1))
            if op == "acos":
                A.append(z3.And(v >= 0, v <= pi))
                A.append((u == 1) == (v == 0)) if False else None
                A.append(z3.Implies(z3.And(u >= -1, u <= 1), z3.And((u == 1) == (v == 0), (u == -1) == (v == pi), (u > 0) == (2 * v < pi), (u == 0) == (2 * v == pi))))
            else:
                A.append(z3.And(2 * v >= -pi, 2 * v <= pi))
                A.append(z3.Implies(z3.And(u >= -1, u <= 1), z3.And((u > 0) == (v > 0), (u == 0) == (v == 0))))
            self._mono(op, t, u, v)
        elif op == "atan":
            u = self.real(t.args[0])
            pi = self.cconst("cpi", Fraction(1))
            A.append(z3.And(2 * v > -pi, 2 * v < pi, (u > 0) == (v > 0), (u == 0) == (v == 0)))
            self._mono(op, t, u, v)
        elif op == "atan2":
            y = self.real(t.args[0])
            x = self.real(t.args[1])
            pi = self.cconst("cpi", Fraction(1))
            A.append(z3.And(v > -pi, v <= pi))
            A.append((y > 0) == z3.And(v > 0, v < pi))
            A.append((y < 0) == (v < 0))
            A.append(z3.Implies(y == 0, z3.If(x >= 0, v == 0, v == pi)))
            A.append(z3.Implies(x > 0, z3.And((y <= x) == (4 * v <= pi), (-y <= x) == (4 * v >= -pi), (y < x) == (4 * v < pi), (-y < x) == (4 * v > -pi))))
            A.append(z3.Implies(y != 0, z3.And((x > 0) == z3.And(2 * v < pi, 2 * v > -pi))))
            A.append(z3.Implies(y > 0, z3.And((x == 0) == (2 * v == pi), (x < 0) == (2 * v > pi))))
            A.append(z3.Implies(y < 0, z3.And((x == 0) == (2 * v == -pi), (x < 0) == (2 * v < -pi))))
        elif op == "floor":
            u = self.real(t.args[0])
            n = z3.FreshInt("fl")
            A.append(v == z3.ToReal(n))
            A.append(z3.And(v <= u, u < v + 1))
        elif op == "exp":
            A.append(v > 0)
            u = self.real(t.args[0])
            A.append(v >= 1 + u)
            self._mono(op, t, u, v)
        elif op == "log":
            u = self.real(t.args[0])
            A.append(z3.Implies(u > 0, z3.And(v <= u - 1, (u == 1) == (v == 0), (u > 1) == (v > 0))))
            self._mono(op, t, u, v)
        elif op == "ite":
            c = self.bool(t.args[0])
            A.append(v == z3.If(c, self.real(t.args[1]), self.real(t.args[2])))

    def angle_axioms(self, arg, s, c):
        # sign facts when the argument is known to lie in [0, pi]: given as implications
        a = self.real(arg)
        pi = self.cconst("cpi", Fraction(1))
        self.axioms.append(z3.Implies(z3.And(a > 0, a < pi), s > 0))
        self.axioms.append(z3.Implies(z3.And(2 * a > -pi, 2 * a < pi), c > 0))
        self.axioms.append(z3.Implies(a == 0, z3.And(s == 0, c == 1)))
        self.axioms.append(z3.Implies(a == pi, z3.And(s == 0, c == -1)))
        self.axioms.append(z3.Implies(2 * a == pi, z3.And(s == 1, c == 0)))
        self.axioms.append(z3.Implies(z3.And(a < 0, a > -pi), s < 0))
        self.axioms.append(z3.Implies(z3.And(2 * a > pi, a <= pi), c < 0))
        self.axioms.append(z3.Implies(a >= 0, z3.And(s <= a, 2 * (1 - c) <= a * a)))
        self.axioms.append(z3.Implies(z3.And(4 * a > -3 * pi, 4 * a < pi), s < c))
        self.axioms.append(z3.Implies(z3.And(4 * a > -pi, 4 * a < 3 * pi), s > -c))
        self.axioms.append(z3.Implies(4 * a == pi, s == c))
        self.axioms.append(z3.Implies(4 * a == -pi, s == -c))

    def _mono(self, op, t, u, v):
        for k2 in list(self.done):
            t2 = self.ctx.atom_term[k2]
            if t2.op == op and t2 is not t:
                u2 = self.real(t2.args[0])
                v2 = self.vars[k2]
                if op == "acos":
                    self.axioms.append((u < u2) == (v > v2))
                else:
                    self.axioms.append((u < u2) == (v < v2))
                self.axioms.append((u == u2) == (v == v2))

    def _reg(self, t):
        self.ctx.atom(t)
        return t.id

    def bool(self, t):
        op = t.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "and":
            return z3.And([self.bool(a) for a in t.args])
        if op == "or":
            return z3.Or([self.bool(a) for a in t.args])
        if op == "not":
            return z3.Not(self.bool(t.args[0]))
        if op == "bvar":
            return z3.Bool(t.val)
        if op in ("lt", "le", "eq"):
            a, b = t.args
            n, d = self.ctx.rat(tm.sub(a, b))
            if d.is_const():
                z = self.poly(n.scale(1 / d.cval()))
                if op == "eq":
                    return z == 0
                return z < 0 if op == "lt" else z <= 0
            if op == "eq":
                return self.poly(n) == 0
            zn, zd = self.poly(n), self.poly(d)
            if op == "lt":
                return z3.Or(z3.And(zd > 0, zn < 0), z3.And(zd < 0, zn > 0))
            return z3.Or(z3.And(zd > 0, zn <= 0), z3.And(zd < 0, zn >= 0))
        raise NotImplementedError("bool op " + op)


LINDEPTH = (0, 3)
NONLIN = {"floor", "ivar", "sin", "cos", "acos", "asin", "atan", "atan2", "exp", "log", "powr"}


class Lin:
    """linear relaxation: monomials are unknowns, every literal also multiplied by the algebraic constants
    in play (positive numbers), conditionals encoded.  unsat here implies unsat.
    One instance per set of rewrite rules and constants; translations are kept."""

    def __init__(self, ctx, mults):
        self.ctx = ctx
        self.mults = [()] + [Poly({c: Fraction(1)}) for c in mults]
        self.vars = {}
        self.axs = {}  # monomial -> its axioms
        self.memo = {}

    def mono(self, m, used):
        used.add(m)
        v = self.vars.get(m)
        if v is None:
            v = self.vars[m] = z3.Real("m%d!" % len(self.vars))
            ax, ites = [], []
            if all(isinstance(k, str) for k, _ in m):
                f = Fraction(str(cvalue(Poly({m: Fraction(1)}))))
                e = abs(f) / 10**12
                ax.append(z3.And(v > z3.RealVal(str(f - e)), v < z3.RealVal(str(f + e))))
            else:
                if all(e % 2 == 0 for k, e in m if not isinstance(k, str)):
                    ax.append(v >= 0)
                for k, e in m:
                    t = self.ctx.atom_term.get(k) if not isinstance(k, str) else None
                    if t is not None and t.op == "ite":
                        ites.append(t)
            self.axs[m] = (ax, ites)
        return v

    def expr(self, n, used):
        ts = []
        for m, c in n.d.items():
            r = z3.RealVal(f"{c.numerator}/{c.denominator}")
            ts.append((r * self.mono(m, used) if c != 1 else self.mono(m, used)) if m else r)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

    def lit(self, op, n, used):
        out = []
        for q in self.mults:
            e = self.expr(n * q if q != () else n, used)
            out.append(e == 0 if op == "eq" else (e < 0 if op == "lt" else e <= 0))
        return z3.And(out) if len(out) > 1 else out[0]

    def tr(self, t, neg, used):
        op = t.op
        if op == "true":
            return z3.BoolVal(not neg)
        if op == "false":
            return z3.BoolVal(neg)
        if op == "not":
            return self.tr(t.args[0], not neg, used)
        if op in ("and", "or"):
            xs = [self.tr(a, neg, used) for a in t.args]
            return z3.And(xs) if (op == "and") != neg else z3.Or(xs)
        if op == "bvar":
            b = z3.Bool(t.val)
            return z3.Not(b) if neg else b
        if op in ("lt", "le", "eq") and not t.args[0].isbool:
            r = self.memo.get((t.id, neg))
            if r is None:
                us = set()
                n = lin_numer(self.ctx, t)
                if n is None:
                    z = z3.BoolVal(True)
                elif not neg:
                    z = self.lit(op, n, us)
                elif op == "eq":
                    z = z3.Or(self.lit("lt", n, us), self.lit("lt", n.scale(-1), us))
                else:
                    z = self.lit("le" if op == "lt" else "lt", n.scale(-1), us)
                r = self.memo[(t.id, neg)] = (z, us)
            used |= r[1]
            return r[0]
        return z3.BoolVal(True)


_LCTX = {}
_LINS = {}
_LNUM = {}
_NLIN = {}


def lin_numer(ctx, t):
    k = (id(ctx), t.id)
    if k not in _LNUM:
        a, b = t.args
        try:
            n, d = ctx.rat(tm.sub(a, b))
            _LNUM[k] = ctx.reduce(n.scale(1 / d.cval())) if d.is_const() else None
        except (TooBig, NotImplementedError, ZeroDivisionError):
            _LNUM[k] = None
    return _LNUM[k]


def lin_consts(ctx, t):
    """(constant monomials of the literals of t, is t free of transcendental / integer functions)"""
    k = (id(ctx), t.id)
    r = _NLIN.get(k)
    if r is None:
        cs, ok = set(), True
        for x in tm.postorder([t]):
            if x.op in NONLIN:
                ok = False
                break
        if ok:
            for x in tm.postorder([t]):
                if x.op in ("lt", "le", "eq") and not x.args[0].isbool:
                    n = lin_numer(ctx, x)
                    if n is not None:
                        for m in n.d:
                            c = tuple(z for z in m if isinstance(z[0], str))
                            if c:
                                cs.add(c)
        r = _NLIN[k] = (cs, ok)
    return r


def lincheck(hyps, goal, timeout=1500):
    """True when hyps => goal already follows linearly"""
    _tick()
    t0 = time.time()
    try:
        ts = list(hyps) + ([goal] if goal is not None else [])
        act = tuple((a.id, e, b.id) for a, e, b in Ctx.ACTIVE)
        ctx = _LCTX.get(act)
        if ctx is None:
            ctx = _LCTX[act] = Ctx()
        cs = set()
        for t in ts:
            c, ok = lin_consts(ctx, t)
            if not ok:
                return False
            cs |= c
        cs = tuple(sorted(cs, key=repr)[:4])
        L = _LINS.get((act, cs))
        if L is None:
            L = _LINS[(act, cs)] = Lin(ctx, cs)
        used = set()
        fs = [L.tr(h, False, used) for h in hyps]
        if goal is not None:
            fs.append(L.tr(goal, True, used))
        seen, done, ax = set(), set(), []
        todo = list(used)
        while todo:
            m = todo.pop()
            if m in done:
                continue
            done.add(m)
            a, ites = L.axs[m]
            ax.extend(a)
            for t in ites:
                if t.id not in seen:
                    seen.add(t.id)
                    c, x, y = t.args
                    us = set()
                    ax.append(z3.Or(L.tr(c, True, us), L.tr(tm.eq(t, x), False, us)))
                    ax.append(z3.Or(L.tr(c, False, us), L.tr(tm.eq(t, y), False, us)))
                    todo.extend(us - done)
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", int(timeout))
        s.add(*ax)
        s.add(*fs)
        return s.check() == z3.unsat
    except (TooBig, z3.Z3Exception, NotImplementedError, ZeroDivisionError):
        return False
    finally:
        STATS["solver_s"] += time.time() - t0


def z3check(hyps, goal, timeout=None, want_model=False):
    """is hyps => goal valid? 'unsat' = valid"""
    _tick()
    if timeout is None:
        timeout = TIMEOUT[0]
    if DEADLINE[0] is not None:
        timeout = int(max(200, min(timeout, (DEADLINE[0] - time.time()) * 1000)))
    t0 = time.time()
    try:
        zz = Z()
        fs = [zz.bool(h) for h in hyps]
        if goal is not None:
            fs.append(z3.Not(zz.bool(goal)))
        zz.flush()
        hasint = any("ToReal" in str(v) or "to_real" in str(v) for v in zz.vars.values()) or any(
            zz.ctx.atom_term[k].op in ("floor", "ivar") for k in zz.vars
        )
        simple = z3.SolverFor("QF_NIRA") if hasint else None
        if hasint:
            s = z3.Solver()
        else:
            s = z3.Tactic("qfnra-nlsat").solver() if False else z3.SolverFor("QF_NRA")
        s.set("timeout", timeout)
        s.add(*zz.axioms)
        s.add(*fs)
        wd = threading.Timer(timeout / 1000.0 + 0.3, z3.main_ctx().interrupt)
        wd.start()
        try:
            r = s.check()
        finally:
            wd.cancel()
        if DEBUG and time.time() - t0 > 0.5:
            print("    z3", r, round(time.time() - t0, 2), "goal", str(goal)[:300], "nh", len(hyps), flush=True)
    except TooBig:
        return "unknown", None
    except z3.Z3Exception:
        return "unknown", None
    finally:
        STATS["solver_s"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        m = s.model()
        env = {}
        for k, v in zz.vars.items():
            t = zz.ctx.atom_term[k]
            if t.op in ("var", "ivar"):
                try:
                    val = m.eval(v, model_completion=True)
                    if z3.is_algebraic_value(val):
                        val = val.approx(30)
                    env[t.val] = float(val.as_fraction())
                except Exception:
                    pass
        return "sat", env
    return "unknown", None


def cvc5check(hyps, goal, timeout=None):
    """same query through cvc5's SMT-LIB front end"""
    _tick()
    if timeout is None:
        timeout = TIMEOUT[0]
    t0 = time.time()
    try:
        zz = Z()
        fs = [zz.bool(h) for h in hyps]
        if goal is not None:
            fs.append(z3.Not(zz.bool(goal)))
        zz.flush()
        s = z3.Solver()
        s.add(*zz.axioms)
        s.add(*fs)
        return _guarded(lambda: _cvc5run(s.to_smt2(), timeout), timeout / 1000.0 + 1)
    except Exception as e:
        return "unknown"
    finally:
        STATS["solver_s"] += time.time() - t0


def _guarded(f, secs):
    """f() in a child that is ended after secs (cvc5 does not always obey its own limit)"""
    import os, select, signal

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.write(w, f().encode()[:200])
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    try:
        ok, _, _ = select.select([r], [], [], secs)
        return (os.read(r, 200).decode() or "unknown") if ok else "unknown"
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)


def _cvc5run(txt, timeout):
    import cvc5

    try:
        tmgr = cvc5.TermManager()
        slv = cvc5.Solver(tmgr)
        slv.setOption("tlimit-per", str(int(timeout)))
        slv.setOption("nl-cov", "true")
        slv.setLogic("QF_NIRA" if "Int" in txt else "QF_NRA")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            name = cmd.getCommandName()
            if name == "set-logic":
                continue
            out = cmd.invoke(slv, sm)
            if name == "check-sat":
                res = out.strip()
        return res or "unknown"
    except Exception as e:
        return "unknown"


# ------------------------------------------------------------------ main
def polyequal(hyps, goal, rules):
    """goal eq proved by rational normal form modulo the active rules (and the square roots' own)"""
    for merge in (False, True):
        try:
            ctx = Ctx(merge)
            n, d = ctx.rat(tm.sub(goal.args[0], goal.args[1]))
            n = ctx.reduce(n)
            if not n:
                return True
            if merge and not ctx.merge_roots(n):
                return True
            if sum(1 for k in ctx.atom_term.values() if k.op == "sqrt") < 2:
                return False
        except TooBig:
            return False
    return False


def linrules(hyps, rules):
    """turn hypotheses  atom = const  (from case splits) into substitutions"""
    return rules


def relevant(hyps, goal):
    """hypotheses sharing variables (transitively) with the goal; dropping the rest is sound"""
    vs = set(tm.free_vars(goal))
    rest = [(h, set(tm.free_vars(h))) for h in hyps]
    out = []
    ch = True
    keep = set()
    while ch:
        ch = False
        for i, (h, fv) in enumerate(rest):
            if i not in keep and (not fv or fv & vs):
                keep.add(i)
                vs |= fv
                ch = True
    return [h for i, (h, fv) in enumerate(rest) if i in keep]


def _box_atoms(ctx0, hyps):
    """atom id -> [lo, hi] (Fractions / None) read off polynomial hypotheses"""
    B = {}

    def upd(k, lo=None, hi=None):
        b = B.setdefault(k, [None, None])
        if lo is not None and (b[0] is None or lo > b[0]):
            b[0] = lo
        if hi is not None and (b[1] is None or hi < b[1]):
            b[1] = hi

    lits = []
    for h in hyps:
        neg = False
        while h.op == "not":
            h, neg = h.args[0], not neg
        if h.op not in ("lt", "le", "eq") or h.args[0].isbool or (neg and h.op == "eq"):
            continue
        try:
            n, d = ctx0.rat(tm.sub(h.args[0], h.args[1]))
            if not d.is_const():
                continue
            n = ctx0.reduce(n.scale(1 / d.cval()))
        except (TooBig, NotImplementedError, ZeroDivisionError):
            continue
        if any(isinstance(k, str) for m in n.d for k, _ in m):
            if h.op != "eq" and "cpi" in [k for m in n.d for k, _ in m]:
                q = {}
                for m, c in n.d.items():
                    if m == (("cpi", 1),):
                        q[()] = q.get((), 0) + c * (PIHI if (c > 0) == neg else PILO)  # weaken
                    else:
                        q[m] = q.get(m, 0) + c
                n = Poly(q)
                if any(isinstance(k, str) for m in n.d for k, _ in m):
                    continue
            else:
                continue
        if neg:
            n = n.scale(-1)
        lits.append((h.op, n))
    for _ in range(3):
        for op, n in lits:
            c0 = n.d.get((), Fraction(0))
            ms = [(m, c) for m, c in n.d.items() if m]
            # c m + c0 <= 0 with one monomial that is a power of one atom
            if len(ms) == 1 and len(ms[0][0]) == 1:
                (k, e), c = ms[0][0][0], ms[0][1]
                v = -c0 / c
                if e == 1:
                    if c > 0 or op == "eq":
                        upd(k, hi=v)
                    if c < 0 or op == "eq":
                        upd(k, lo=v)
                elif e % 2 == 0 and v >= 0 and (c > 0 or op == "eq"):
                    r = Fraction(math.ceil(float(v) ** (1 / e) * (1 + 1e-12) * 10**15), 10**15)
                    upd(k, lo=-r, hi=r)
            elif op == "eq" or all(c > 0 for m, c in ms):
                # sum of squares bounded
                if all(len(m) == 1 and m[0][1] % 2 == 0 and (c > 0) == (ms[0][1] > 0) for m, c in ms) and ms:
                    for m, c in ms:
                        v = -c0 / c
                        if v >= 0:
                            e = m[0][1]
                            r = Fraction(math.ceil(float(v) ** (1 / e) * (1 + 1e-12) * 10**15), 10**15)
                            if v == 1:
                                r = Fraction(1)
                            upd(m[0][0], lo=-r, hi=r)
    return B


PILO, PIHI = Fraction(3141592653589793, 10**15), Fraction(3141592653589794, 10**15)


def boxtaylor(hyps, goal):
    """polynomial inequality over bounded unknowns in which sin, cos of a small angle are replaced by their
    Taylor polynomials with bounded remainders, then bounded monomial by monomial"""
    _tick()
    neg = False
    g = goal
    while g.op == "not":
        g, neg = g.args[0], not neg
    if g.op not in ("le", "lt") or g.args[0].isbool:
        return False
    if not any(x.op in ("sin", "cos") for x in tm.postorder([g])) and not any(x.op == "var" for x in tm.postorder([g])):
        return False
    try:
        act = Ctx.ACTIVE
        try:
            Ctx.ACTIVE = []
            B = _box_atoms(Ctx(), hyps)
        finally:
            Ctx.ACTIVE = act
        ctx = Ctx()
        B2 = _box_atoms(ctx, hyps)
        for k, (lo, hi) in B2.items():
            b = B.setdefault(k, [None, None])
            if lo is not None and (b[0] is None or lo > b[0]):
                b[0] = lo
            if hi is not None and (b[1] is None or hi < b[1]):
                b[1] = hi
        n, d = ctx.rat(tm.sub(g.args[0], g.args[1]))
        n, d = ctx.reduce(n), ctx.reduce(d)
        if neg:
            n = n.scale(-1)
        strict = (g.op == "lt") != neg  # n < 0 wanted
        if any(isinstance(k, str) for m in list(n.d) + list(d.d) for k, _ in m):
            return False
        if len(n.d) > 4000:
            return False
        box, subs = {}, {}
        for k in n.atoms() | d.atoms():
            t = ctx.atom_term[k]
            if t.op == "ite" and t.args[0].op in ("le", "lt"):
                c, x, y = t.args
                cn, cd = ctx.rat(tm.sub(c.args[0], c.args[1]))
                lo, hi = Fraction(0), Fraction(0)
                if not cd.is_const():
                    continue
                cn = cn.scale(1 / cd.cval())
                if len(cn.d) == 1 and len(list(cn.d)[0]) == 1 and list(cn.d)[0][0][1] == 1:
                    (m, q), = cn.d.items()
                    lo, hi = B.get(m[0][0], (None, None))
                    if lo is not None and lo >= 0 and q < 0 and c.op == "le":
                        xn, xd = ctx.rat(x)
                    elif lo is not None and lo >= 0 and q > 0 and c.op == "lt":
                        xn, xd = ctx.rat(y)
                    else:
                        continue
                    if xd.is_const() and not any(ctx.atom_term[z].op == "ite" for z in xn.atoms()):
                        subs[k] = xn.scale(1 / xd.cval())
                continue
            if t.op in ("sin", "cos") and k not in subs:
                an, ad = ctx.rat(t.args[0])
                if not ad.is_const() or len(an.d) != 1:
                    continue
                (m, c), = an.d.items()
                c = c / ad.cval()
                if len(m) != 1 or m[0][1] != 1:
                    continue
                x = m[0][0]
                lo, hi = B.get(x, (None, None))
                if lo is None or hi is None or lo < 0 or c * hi > Fraction(3, 5) or c < 0:
                    continue
                X = Poly({((x, 1),): c})
                N = 9 if t.op == "sin" else 8
                P, f, term = Poly(), 1, None
                for j in range(1 if t.op == "sin" else 0, N, 2):
                    f = math.factorial(j)
                    P = P + X.pow(j).scale(Fraction((-1) ** (j // 2), f))
                r = -k - 1000
                f = Fraction(1, math.factorial(N))
                box[r] = (Fraction(0), f)  # both next terms have sign +
                P = P + X.pow(N) * Poly({((r, 1),): Fraction(1)})
                subs[k] = P
        if not subs and not B:
            return False

        def put(p):
            out = Poly()
            for m, c in p.d.items():
                q = Poly({tuple(z for z in m if z[0] not in subs): c})
                for k, e in m:
                    if k in subs:
                        q = q * subs[k].pow(e)
                out = out + q
            return out

        def rng(p):
            lo = hi = Fraction(0)
            for m, c in p.d.items():
                a = b = c
                for k, e in m:
                    l, h = box[k] if k in box else B.get(k, (None, None))
                    if l is None or h is None:
                        return None
                    pl, ph = (l**e, h**e)
                    if e % 2 == 0:
                        pl, ph = (Fraction(0), max(pl, ph)) if l <= 0 <= h else (min(pl, ph), max(pl, ph))
                    vs = (a * pl, a * ph, b * pl, b * ph)
                    a, b = min(vs), max(vs)
                lo, hi = lo + a, hi + b
            return lo, hi

        def strip(p):
            """divide by the largest common monomial of nonnegative unknowns"""
            if not p.d:
                return p, False
            com = None
            for m in p.d:
                dm = {k: e for k, e in m if (B.get(k, (None, None))[0] or Fraction(-1)) >= 0 or B.get(k, (None, None))[0] == 0}
                com = dm if com is None else {k: min(e, dm[k]) for k, e in com.items() if k in dm}
            if not com:
                return p, False
            return Poly({tuple((k, e - com.get(k, 0)) for k, e in m if e > com.get(k, 0)): c for m, c in p.d.items()}), True

        n, d = put(n), put(d)
        n = ctx.reduce(n)
        if not d.is_const():
            ds, _ = strip(d)
            r = rng(ds)
            if r is None:
                return False
            if r[0] > 0:
                pass
            elif r[1] < 0:
                n = n.scale(-1)
            else:
                return False
        elif d.cval() < 0:
            n = n.scale(-1)
        ns, cut = strip(n)
        if DEBUG: print("BOXN", {tuple((str(ctx.atom_term.get(k,k)),e) for k,e in m):float(c) for m,c in ns.d.items()}, rng(ns))
        r = rng(ns)
        if r is None:
            return False
        return r[1] < 0 if strict and not cut else (r[1] < 0 or (not strict and r[1] <= 0)) and not (strict and cut)
    except (TooBig, NotImplementedError, ZeroDivisionError, OverflowError):
        return False


_MEMO = {}
_PRUNED = {}


_BUSY = [False]


def undo_atan2(hyps, goal, rules):
    """atan2(y, x) of a goal is the angle a when y cos a = x sin a, x cos a + y sin a > 0 and -pi < a <= pi"""
    m = {}
    for t in tm.postorder([goal]):
        if t.op != "atan2" or has_ite(t):
            continue
        y, x = t.args
        cands = []
        for z in tm.postorder([y, x]):
            if z.op in ("sin", "cos") and z.args[0] not in cands:
                cands.append(z.args[0])
        _BUSY[0] = True
        try:
            for a in cands[:4]:
                s, c = tm.mk("sin", a), tm.mk("cos", a)
                rng = tm.and_(tm.lt(tm.neg(tm.PI), a), tm.le(a, tm.PI))
                pos = tm.lt(ZERO, tm.add(tm.mul(x, c), tm.mul(y, s)))
                if all(prove(hyps, g, rules, 3000, 30).status == "proved" for g in (tm.eq(tm.mul(y, c), tm.mul(x, s)), rng, pos)):
                    m[t] = a
                    break
        finally:
            _BUSY[0] = False
    return m


_UNDO = {}


def undo_acos(hyps, goal, rules):
    """acos(x) is the angle a when x = cos a and 0 <= a <= pi (both proved under the hypotheses)"""
    if not any(t.op == "acos" for t in tm.postorder([goal])):
        return hyps, goal
    rest = hyps
    for _ in range(4):
        hit = None
        for t in tm.postorder([goal] + list(hyps)):
            if t.op != "acos" or any(z.op == "acos" for z in tm.postorder([t.args[0]])):
                continue
            key = (frozenset(h.id for h in hyps if h.op != "implies"), t.id)
            if key not in _UNDO:
                _UNDO[key] = None
                cands = []
                for z in tm.postorder([t.args[0]]):
                    if z.op in ("sin", "cos") and z.args[0] not in cands and not has_ite(z.args[0]):
                        cands.append(z.args[0])
                base = [h for h in hyps if not any(z.op == "acos" for z in tm.postorder([h]))]
                _BUSY[0] = True
                try:
                    for a in cands[:3]:
                        gs = (tm.le(ZERO, a), tm.le(a, tm.PI), tm.eq(t.args[0], tm.mk("cos", a)))
                        if all(prove(base, g, rules, 3000, 0).status == "proved" for g in gs):
                            _UNDO[key] = a
                            break
                finally:
                    _BUSY[0] = False
            a = _UNDO[key]
            if a is not None:
                hit = (t, a)
                break
        if hit is None:
            break
        ts = tm.substitute(list(hyps) + [goal], {hit[0]: hit[1]})
        hyps, goal = [h for h in ts[:-1] if h is not TRUE], ts[-1]
    return hyps, goal


def prove_top(hyps, goal, rules=None, timeout=None):
    """prove with conjunct-wise memoisation; identical obligations (e.g. the same generic
    element under another batch rank) are discharged once per process"""
    if goal.op == "and":
        hows = set()
        for g in goal.args:
            r = prove_top(hyps, g, rules, timeout)
            if r.status != "proved":
                return r
            hows.update(r.how.split("+"))
        return Result("proved", "+".join(sorted(hows)))
    flat = []
    for h in hyps:
        flat.extend(h.args if h.op == "and" else [h])
    hs = relevant(list(dict.fromkeys(flat)), goal)
    key = (frozenset(h.id for h in hs), goal.id, tuple((a.id, e, b.id) for a, e, b in rules or ()))
    r = _MEMO.get(key)
    if r is None:
        try:
            Ctx.ACTIVE = [z for z in rules or () if z[0] in set().union(*[tm.free_vars(h) for h in hs], tm.free_vars(goal))]
            hs, goal = undo_acos(hs, goal, rules)
            if goal.op == "and":
                hs = list(hs)
            r = prove(hs, goal, rules, timeout)
        finally:
            Ctx.ACTIVE = []
        _MEMO[key] = r
    else:
        STATS["memo"] = STATS.get("memo", 0) + 1
    return r


def prove(hyps, goal, rules=None, timeout=None, depth=0, maxdepth=40, extra=None):
    _tick()
    if goal is TRUE:
        STATS["const"] += 1
        return Result("proved", "const")
    if any(h is FALSE for h in hyps):
        return Result("proved", "infeasible")
    if goal.op == "and":
        hows = []
        for g in goal.args:
            r = prove(hyps, g, rules, timeout, depth, maxdepth, extra)
            if r.status != "proved":
                return r
            hows.append(r.how)
        return Result("proved", "+".join(sorted(set("+".join(hows).split("+")))))
    if goal.op == "or" and not has_ite(goal):
        for d in goal.args:
            es = d.args if d.op == "and" else [d]
            if all(e.op == "eq" and not e.args[0].isbool and polyequal(hyps, e, rules) for e in es):
                STATS["poly"] += 1
                return Result("proved", "poly")
    if goal.op == "or" and depth < maxdepth:
        # prove the first non-trivial disjunct under the negation of the others
        ds = list(goal.args)
        simple = [d for d in ds if d.op in ("not", "eq", "le", "lt")]
        main = ds[-1]
        for d in ds:
            if d.op == "and" or has_ite(d):
                main = d
        rest = [tm.not_(d) for d in ds if d is not main]
        hy = list(hyps)
        for r in rest:
            hy.extend(r.args if r.op == "and" else [r])
        if main.op != "or":
            return prove(hy, main, rules, timeout, depth + 1, maxdepth, extra)
    if goal.op == "not" and goal.args[0].op in ("and", "or"):
        inner = goal.args[0]
        if inner.op == "or":
            return prove(hyps, tm.and_(*[tm.not_(a) for a in inner.args]), rules, timeout, depth, maxdepth, extra)
        return prove(hyps, tm.or_(*[tm.not_(a) for a in inner.args]), rules, timeout, depth, maxdepth, extra)
    # flatten conj hyps
    hs = []
    for h in hyps:
        if h is TRUE:
            continue
        if h.op == "and":
            hs.extend(h.args)
        else:
            hs.append(h)
    hyps = hs
    if any(h is goal for h in hyps):
        STATS["const"] += 1
        return Result("proved", "hyp")
    # trig rewriting
    tg = Trig()
    ts = tg.rewrite(hyps + [goal])
    hyps, goal = ts[:-1], ts[-1]
    extra = list(extra or [])
    for a, s_, c_ in tg.facts.values():
        extra.append(tm.or_(tm.lt(a, ZERO), tm.le(s_, a)))
        extra.append(tm.or_(tm.lt(a, ZERO), tm.lt(tm.PI, a), tm.le(ZERO, s_)))
        extra.append(tm.or_(tm.le(a, tm.neg(tm.PI)), tm.le(ZERO, a), tm.lt(s_, ZERO)))
    if goal is TRUE:
        STATS["const"] += 1
        return Result("proved", "const")
    if any(h is FALSE for h in hyps):
        return Result("proved", "infeasible")
    c = pick_split([goal])
    if (c is not None or depth == 0) and depth in LINDEPTH and lincheck(hyps, goal, 3000):
        STATS["z3"] += 1
        return Result("proved", "z3")
    if c is None:
        if goal.op == "eq" and not goal.args[0].isbool and polyequal(hyps, goal, rules):
            STATS["poly"] += 1
            return Result("proved", "poly")
        c = pick_split(hyps)
        if c is not None:
            # the goal needs no split: try it under the hypotheses that need none either
            base = [h for h in hyps if not has_ite(h)]
            if z3check(base, goal, 1500)[0] == "unsat":
                STATS["z3"] += 1
                return Result("proved", "z3")
    if c is not None and depth < maxdepth:
        hows = set()
        worst = None
        for val, lit in ((TRUE, c), (FALSE, tm.not_(c))):
            sub = tm.substitute(hyps + [goal], {c: val})
            h2, g2 = sub[:-1], sub[-1]
            if any(h is FALSE for h in h2) or g2 is TRUE:
                continue
            h2 = [h for h in h2 if h is not TRUE] + [lit]
            if depth >= 1:
                base = [h for h in h2 if not has_ite(h)]
                pk = frozenset(h.id for h in base)
                st = _PRUNED.get(pk)
                if st is None:
                    if contradictory(base) or lincheck(base, None, 500):
                        st = "unsat"
                    elif depth < 4 and not any(x.op in NONLIN for x in tm.postorder(base)):
                        st = "unknown"
                    else:
                        st = z3check(base, None, PRUNE[0])[0]
                    _PRUNED[pk] = st
                if st == "unsat":
                    STATS["pruned"] += 1
                    continue
            STATS["split"] += 1
            r = prove(h2, g2, rules, timeout, depth + 1, maxdepth, extra)
            if r.status == "refuted":
                return r
            if r.status != "proved":
                worst = r
                return r
            hows.update(r.how.split("+"))
        if worst is not None:
            return worst
        return Result("proved", "+".join(sorted(hows)) or "infeasible")
    # leaf
    if depth < maxdepth and not _BUSY[0]:
        m = undo_atan2(hyps, goal, rules)
        if m:
            ts = tm.substitute(hyps + [goal], m)
            return prove(ts[:-1], ts[-1], rules, timeout, depth + 1, maxdepth, extra)
    if goal.op == "eq" and not goal.args[0].isbool:
        if polyequal(hyps, goal, rules):
            STATS["poly"] += 1
            return Result("proved", "poly")
    if contradictory(hyps + [tm.not_(goal)]):
        STATS["poly"] += 1
        return Result("proved", "poly")
    if boxtaylor(hyps, goal):
        STATS["poly"] += 1
        return Result("proved", "box")
    if lincheck(hyps, goal, 1000):
        STATS["z3"] += 1
        return Result("proved", "z3")
    T0 = timeout or TIMEOUT[0]
    extra = [e for e in extra if e is not TRUE and not has_ite(e)]
    st, env = z3check(hyps, goal, min(T0, 4000))
    if st == "unsat":
        STATS["z3"] += 1
        return Result("proved", "z3")
    if st == "unknown":
        if cvc5check(hyps, goal, min(T0, 4000)) == "unsat":
            STATS["cvc5"] += 1
            return Result("proved", "cvc5")
    if extra or st == "unknown":
        st, env = z3check(hyps + extra, goal, T0)
        if st == "unsat":
            STATS["z3"] += 1
            return Result("proved", "z3")
        hyps = hyps + extra
    if st == "sat":
        return Result("refuted", "z3", env, (hyps, goal))
    r = cvc5check(hyps, goal, timeout)
    if r == "unsat":
        STATS["cvc5"] += 1
        return Result("proved", "cvc5")
    return Result("unknown", "z3+cvc5 timeout", None, (hyps, goal))
