"""Multivariate polynomials with rational coefficients over canonical atoms, and the
rational normal form of terms.  Constants 2^a, 3^b, 5^c, pi^d (rational exponents) are
handled exactly: their exponents live in the monomial as Fractions, the integer part of
a prime's exponent moves into the coefficient."""
from fractions import Fraction
from . import terms as tm
from .terms import const

PRIMES = {2, 3, 5, 7}


class TooBig(Exception):
    pass


LIMIT = 60000


def cmono(d):
    return tuple(sorted(d.items(), key=lambda z: z[0] if isinstance(z[0], int) else -1))


# monomial = tuple of (key, exp) sorted by key ; key = ('c',base) string sorts first
def _key(k):
    return (0, str(k)) if isinstance(k, str) else (1, k)


def mono_mul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    coef = 1
    for k, e in m2:
        if k in d:
            e2 = d[k] + e
            if isinstance(k, str) and k != "cpi":
                p = int(k[1:])
                ip = e2.numerator // e2.denominator
                if ip:
                    coef *= Fraction(p) ** ip
                    e2 = e2 - ip
            if e2 == 0:
                del d[k]
            else:
                d[k] = e2
        else:
            d[k] = e
    return tuple(sorted(d.items(), key=lambda z: _key(z[0]))), coef


class Poly:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def __bool__(self):
        return bool(self.d)

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), Fraction(0))

    def __add__(self, o):
        if len(self.d) < len(o.d):
            self, o = o, self
        r = dict(self.d)
        for m, c in o.d.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Poly()
        return Poly({m: c * k for m, c in self.d.items()})

    def __mul__(self, o):
        if not self.d or not o.d:
            return Poly()
        if len(self.d) * len(o.d) > LIMIT * 40:
            raise TooBig()
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, k = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2 * k
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > LIMIT:
            raise TooBig()
        return Poly(r)

    def pow(self, n):
        r = Poly({(): Fraction(1)})
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.d:
            for k, e in m:
                if isinstance(k, int):
                    s.add(k)
        return s

    def key(self):
        return tuple(sorted(self.d.items(), key=lambda z: tuple((_key(k), e) for k, e in z[0])))


ONEP = Poly({(): Fraction(1)})


def pconst(c):
    c = Fraction(c)
    return Poly({(): c}) if c else Poly()


def is_calg(p):
    """only products of rational powers of integers (no pi, no atoms)"""
    return all(isinstance(k, str) and k != "cpi" for m in p.d for k, _ in m)


def cvalue(p):
    """40-digit value of a constant polynomial"""
    import mpmath

    with mpmath.workdps(45):
        r = mpmath.mpf(0)
        for m, c in p.d.items():
            x = mpmath.mpf(c.numerator) / c.denominator
            for k, e in m:
                b = mpmath.pi if k == "cpi" else mpmath.mpf(int(k[1:]))
                x *= mpmath.power(b, mpmath.mpf(e.numerator) / e.denominator if isinstance(e, Fraction) else e)
            r += x
        return r


_CINV = {}


def cinverse(p):
    """exact inverse of an algebraic constant in the field spanned by its monomials, or None"""
    key = p.key()
    if key in _CINV:
        return _CINV[key]
    basis = {(): 0}
    todo = [()]
    ok = True
    while todo and ok:
        b = todo.pop()
        for m in p.d:
            r, _ = mono_mul(b, m)
            if r not in basis:
                basis[r] = len(basis)
                todo.append(r)
                if len(basis) > 16:
                    ok = False
                    break
    res = None
    if ok:
        n = len(basis)
        # solve p * x = 1 over Q
        A = [[Fraction(0)] * (n + 1) for _ in range(n)]
        for b, j in basis.items():
            for m, c in p.d.items():
                r, k = mono_mul(b, m)
                A[basis[r]][j] += c * k
        A[0][n] = Fraction(1)
        piv = []
        row = 0
        for col in range(n):
            pr = next((i for i in range(row, n) if A[i][col]), None)
            if pr is None:
                continue
            A[row], A[pr] = A[pr], A[row]
            iv = 1 / A[row][col]
            A[row] = [z * iv for z in A[row]]
            for i in range(n):
                if i != row and A[i][col]:
                    f = A[i][col]
                    A[i] = [z - f * y for z, y in zip(A[i], A[row])]
            piv.append(col)
            row += 1
        if all(any(A[i][:n]) or not A[i][n] for i in range(n)):
            d = {}
            inv = {j: b for b, j in basis.items()}
            for i, col in enumerate(piv):
                if A[i][n]:
                    d[inv[col]] = A[i][n]
            q = Poly(d)
            if not (p * q - ONEP):
                res = q
    _CINV[key] = res
    return res


class Ctx:
    """normalisation context: atom table, rewrite rules on atoms"""

    ACTIVE = []  # rewrite rules (atom term, exponent, rhs term) valid under the hypotheses at hand

    def __init__(self, merge=False):
        self.merge = merge  # combine products of square roots: sqrt(A) sqrt(B) -> sqrt(A B)
        self.atom_term = {}  # id -> canonical T
        self.memo = {}
        self.rules = {}  # atomid -> (exp, Poly): atom^exp -> Poly
        self._busy = set()
        for at, e, rhs in Ctx.ACTIVE:
            self.atom(at)
            n, d = self.rat(rhs)
            self.rules[at.id] = (e, n.scale(1 / d.cval()))
        self.memo.clear()

    # ---- atoms
    def atom(self, t):
        k = t.id
        if k not in self.atom_term:
            self.atom_term[k] = t
            self._autorule(t)
        return Poly({((k, 1),): Fraction(1)})

    def _autorule(self, t):
        if t.op == "sqrt":
            n, d = self.rat(t.args[0])
            if d.is_const():
                self.rules[t.id] = (2, n.scale(1 / d.cval()))
        elif t.op == "ite" and t.args[0].op in ("le", "lt") and tm.neg(t.args[1]) is t.args[2]:
            # |x|^2 = x^2 (either sign of x)
            n, d = self.rat(t.args[1])
            if d.is_const():
                n = n.scale(1 / d.cval())
                self.rules[t.id] = (2, self.reduce(n * n))
        elif t.op == "cos":
            # cos^2 -> 1 - sin^2
            s = tm.mk("sin", t.args[0])
            sp = self.atom(s)
            self.rules[t.id] = (2, ONEP - sp * sp)
        elif t.op == "powr":
            e = t.val
            if e.numerator == 1:
                n, d = self.rat(t.args[0])
                if d.is_const():
                    self.rules[t.id] = (e.denominator, n.scale(1 / d.cval()))

    # ---- reduction with rules
    def reduce(self, p):
        rules = self.rules
        if not rules:
            return p
        work = True
        n = 0
        while work:
            work = False
            n += 1
            if n > 200:
                break
            r = {}
            pend = []
            for m, c in p.d.items():
                hit = None
                for k, e in m:
                    if isinstance(k, int) and k in rules and e >= rules[k][0]:
                        hit = (k, e)
                        break
                if hit is None:
                    v = r.get(m, 0) + c
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = v
                else:
                    pend.append((m, c, hit))
            if not pend:
                return p
            work = True
            acc = Poly(r)
            groups = {}
            for m, c, (k, e) in pend:
                re, rp = rules[k]
                q = e // re
                rest = tuple((kk, ee) if kk != k else (kk, ee - q * re) for kk, ee in m)
                rest = tuple(z for z in rest if z[1] != 0)
                g = groups.setdefault((k, q), {})
                g[rest] = g.get(rest, 0) + c
            for (k, q), g in groups.items():
                re, rp = rules[k]
                acc = acc + Poly({m: c for m, c in g.items() if c}) * rp.pow(q)
            p = acc
        return p

    def merge_roots(self, p):
        for _ in range(20):
            hit = None
            for m in p.d:
                rs = [k for k, e in m if isinstance(k, int) and self.atom_term[k].op == "sqrt"]
                if len(rs) >= 2:
                    hit = rs
                    break
            if hit is None:
                return p
            prod = tm.ONE
            for k in hit:
                prod = tm.mul(prod, self.atom_term[k].args[0])
            rn, rd = self.rat(tm.mk("sqrt", prod))
            if not rd.is_const():
                return p
            rn = rn.scale(1 / rd.cval())
            acc, g = {}, {}
            hs = set(hit)
            for m, c in p.d.items():
                if {k for k, e in m if isinstance(k, int) and self.atom_term[k].op == "sqrt"} == hs:
                    rest = tuple((k, e - 1) if k in hs else (k, e) for k, e in m)
                    rest = tuple(z for z in rest if z[1] != 0)
                    g[rest] = g.get(rest, 0) + c
                else:
                    acc[m] = c
            p = self.reduce(Poly(acc) + Poly({m: c for m, c in g.items() if c}) * rn)
        return p

    # ---- rational normal form
    def rat(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        for x in self._order(t):
            if x.id not in self.memo:
                self.memo[x.id] = self._rat1(x)
        return self.memo[t.id]

    def _order(self, t):
        # postorder but only through arithmetic nodes
        seen = set()
        out = []
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if done:
                out.append(x)
                continue
            if x.id in seen or x.id in self.memo:
                continue
            seen.add(x.id)
            stack.append((x, True))
            if x.op in ("add", "mul", "div", "pow"):
                for a in x.args:
                    stack.append((a, False))
        return out

    def _rat1(self, x):
        op = x.op
        if op == "const":
            return pconst(x.val), ONEP
        if op == "cpow":
            b, e = x.val
            if b == "pi":
                return Poly({(("cpi", e),): Fraction(1)}), ONEP
            return Poly({(("c%d" % b, e),): Fraction(1)}), ONEP
        if op in ("var", "ivar"):
            return self.atom(x), ONEP
        if op == "add":
            (n1, d1), (n2, d2) = (self.memo[a.id] for a in x.args)
            if d1.d == d2.d:
                return self.norm(n1 + n2, d1)
            return self.norm(n1 * d2 + n2 * d1, d1 * d2)
        if op == "mul":
            (n1, d1), (n2, d2) = (self.memo[a.id] for a in x.args)
            return self.norm(n1 * n2, d1 * d2)
        if op == "div":
            (n1, d1), (n2, d2) = (self.memo[a.id] for a in x.args)
            return self.norm(n1 * d2, d1 * n2)
        if op == "pow":
            n, d = self.memo[x.args[0].id]
            return self.norm(n.pow(x.val), d.pow(x.val))
        # atoms: canonicalise arguments
        return self.atom_of(x)

    def norm(self, n, d):
        n = self.reduce(n)
        d = self.reduce(d)
        if self.merge:
            n, d = self.merge_roots(n), self.merge_roots(d)
        if not n:
            return n, ONEP
        if d.is_const():
            c = d.cval()
            if c != 0:
                return (n.scale(1 / c) if c != 1 else n), ONEP
            return n, d
        if len(d.d) == 1:
            (m, c), = d.d.items()
            # cancel monomial factors; move constants up
            n = n.scale(1 / c)
            dm = dict(m)
            out = []
            for k, e in m:
                if isinstance(k, str):
                    # 1/const^e
                    inv = self._cinv(k, e)
                    n = n * inv
                    dm.pop(k)
            n = Poly(n.d)
            for k in list(dm):
                mn = min((dict(mm).get(k, 0) for mm in n.d), default=0)
                q = min(mn, dm[k])
                if q:
                    n = Poly(
                        {
                            tuple((kk, ee - q) if kk == k else (kk, ee) for kk, ee in mm if not (kk == k and ee == q)): cc
                            for mm, cc in n.d.items()
                        }
                    )
                    dm[k] -= q
                    if dm[k] == 0:
                        del dm[k]
            d = Poly({tuple(sorted(dm.items(), key=lambda z: _key(z[0]))): Fraction(1)})
            if d.is_const():
                return n, ONEP
            return n, d
        if is_calg(d):
            iv = cinverse(d)
            if iv is not None:
                return self.reduce(n * iv), ONEP
        # normalise leading coefficient; try exact proportionality
        if len(n.d) == len(d.d):
            r = None
            ok = True
            for m, c in n.d.items():
                if m not in d.d:
                    ok = False
                    break
                q = c / d.d[m]
                if r is None:
                    r = q
                elif r != q:
                    ok = False
                    break
            if ok:
                return pconst(r), ONEP
        lead = d.d[min(d.d, key=lambda m: tuple((_key(k), e) for k, e in m))]
        if lead != 1:
            n, d = n.scale(1 / lead), d.scale(1 / lead)
        return n, d

    def _cinv(self, k, e):
        if k == "cpi":
            return Poly({((k, -e),): Fraction(1)})
        p = int(k[1:])
        # p^-e = p^(1-e)/p
        return Poly({((k, 1 - e),): Fraction(1, p)})

    def atom_of(self, x):
        op = x.op
        if op == "ite":
            c = x.args[0]
            a, b = self.canon(x.args[1]), self.canon(x.args[2])
            return self.atom(tm.ite(c, a, b) if a is not b else a), ONEP
        args = [self.canon(a) if not a.isbool else a for a in x.args]
        if op == "sqrt":
            return self._sqrt(args[0])
        if op in ("sin", "cos"):
            # parity
            n, d = self.rat(args[0])
            if n and d.is_const():
                lead = n.d[min(n.d, key=lambda m: tuple((_key(k), e) for k, e in m))]
                if lead < 0:
                    arg = self.toterm(-n, d)
                    y = tm.fn(op, arg)
                    p = self.atom(y) if y.op == op else self.rat(y)[0]
                    return (-p if op == "sin" else p), ONEP
        y = tm.rebuild(x, args)
        if y.op != op or y.op in ("add", "mul", "div", "pow", "const", "cpow"):
            return self.rat(y)
        return self.atom(y), ONEP

    def _sqrt(self, a):
        n, d = self.rat(a)
        if d.is_const() and n:
            # pull square content out of monomials: n = k * m^2 * n'
            n = n.scale(1 / d.cval())
            # rational content
            from math import gcd

            cs = list(n.d.values())
            g = Fraction(0)
            num = 0
            den = 1
            for c in cs:
                num = gcd(num, abs(c.numerator))
                den = den * c.denominator // gcd(den, c.denominator)
            cont = Fraction(num, den)
            # largest square-ish factor: sqrt(cont) as cpow when smooth
            root = tm.sqrt(const(cont))
            if root.op == "sqrt":
                root, cont = tm.ONE, Fraction(1)
            n2 = n.scale(1 / cont)
            # monomial gcd
            common = None
            for m in n2.d:
                dm = dict(m)
                if common is None:
                    common = dm
                else:
                    common = {k: min(e, dm[k]) for k, e in common.items() if k in dm}
            outside = []
            div = {}
            for k, e in (common or {}).items():
                if isinstance(k, int) and e >= 2:
                    q = int(e) // 2
                    outside.append((k, q))
                    div[k] = 2 * q
                elif isinstance(k, str):
                    div[k] = e
                    outside.append((k, e / 2 if isinstance(e, Fraction) else Fraction(e, 2)))
            if div:
                n2 = Poly(
                    {
                        tuple((k, e - div.get(k, 0)) for k, e in m if e != div.get(k, 0)): c
                        for m, c in n2.d.items()
                    }
                )
            res = root
            for k, q in outside:
                if isinstance(k, str):
                    b = "pi" if k == "cpi" else int(k[1:])
                    res = tm.mul(res, tm.cpow(b, q))
                else:
                    at = self.atom_term[k]
                    f = tm.ipow(at, q)
                    if at.op == "sqrt" or q % 2 == 0:
                        res = tm.mul(res, f)
                    else:
                        res = tm.mul(res, tm.abs_(f))
            inner = self.toterm(n2, ONEP)
            s = tm.sqrt(inner)
            if s.op != "sqrt" and s.op in ("const", "cpow", "mul"):
                full = tm.mul(res, s)
                return self._lin(full)
            y = tm.mk("sqrt", inner)
            pr = self.atom(y)
            if res is tm.ONE:
                return pr, ONEP
            rn, rd = self._lin(res)
            return self.norm(rn * pr, rd)
        y = tm.mk("sqrt", a)
        return self.atom(y), ONEP

    def _lin(self, t):
        # rat of a small product term (may contain ite atoms)
        return self.rat(t)

    def canon(self, t):
        n, d = self.rat(t)
        return self.toterm(n, d)

    def toterm(self, n, d):
        def pt(p):
            acc = None
            for m, c in p.key():
                x = const(c)
                for k, e in m:
                    if isinstance(k, str):
                        b = "pi" if k == "cpi" else int(k[1:])
                        x = tm.mul(x, tm.cpow(b, e))
                    else:
                        x = tm.mul(x, tm.ipow(self.atom_term[k], e))
                acc = x if acc is None else tm.add(acc, x)
            return acc if acc is not None else tm.ZERO

        a = pt(n)
        if d.is_const():
            return tm.div(a, const(d.cval())) if d.cval() != 1 else a
        return tm.mk("div", a, pt(d))
