"""Hash-consed terms over exact reals / integers / booleans.

A real term may be *undefined* (division by zero, acos outside [-1,1], sqrt of a
negative ...): `isdef(t)` is the boolean term saying when it is defined.  `ite`
selects, so an undefined value in a branch that is not taken does no harm --
exactly the behaviour of NaN under torch.where / masked assignment.
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "args", "val", "id", "total", "isbool", "_def", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]

_PARTIAL = {"div", "sqrt", "acos", "asin", "log", "powr", "tan", "undef", "inf"}
_BOOL = {"lt", "le", "eq", "and", "or", "not", "true", "false", "bvar"}


def mk(op, *args, val=None):
    key = (op, tuple(a.id for a in args), val)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val = op, args, val
        t.id = _next[0]
        _next[0] += 1
        t.isbool = op in _BOOL or (op == "ite" and args[1].isbool)
        t.total = (op not in _PARTIAL) and all(a.total for a in args)
        t._def = None
        _table[key] = t
    return t


TRUE = mk("true")
FALSE = mk("false")


def const(x):
    if isinstance(x, Fraction):
        return mk("const", val=x)
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return mk("const", val=Fraction(x))
    if isinstance(x, float):
        return from_float(x)
    raise TypeError(type(x))


def var(name):
    return mk("var", val=name)


def ivar(name):
    return mk("ivar", val=name)


def bvar(name):
    return mk("bvar", val=name)


UNDEF = mk("undef")
INF = mk("inf")
ZERO = const(0)
ONE = const(1)


def cpow(base, e):
    """base: prime int or 'pi'; e Fraction."""
    e = Fraction(e)
    if e == 0:
        return ONE
    if base == "pi":
        return mk("cpow", val=("pi", e))
    ip = math.floor(e)
    fr = e - ip
    c = const(Fraction(base) ** ip)
    if fr == 0:
        return c
    return mul(c, mk("cpow", val=(base, fr)))


PI = cpow("pi", 1)

# ---------------------------------------------------------------- float reading
_LOGPI, _LOG2, _LOG3, _LOG5 = math.log(math.pi), math.log(2), math.log(3), math.log(5)
_fcache = {}


def from_float(f):
    """The exact real a Python/torch float constant stands for.

    decimal literals with at most 15 significant digits and small ratios are read
    as rationals; constants of the form 2^a 3^b 5^c pi^d (d,b,a multiples of 1/12,
    1/6 ...) within 4 ulp are read as that algebraic/pi constant; everything else
    is read as the exact binary rational.
    """
    if f in _fcache:
        return _fcache[f]
    if math.isnan(f):
        return UNDEF
    if math.isinf(f):
        return INF if f > 0 else neg(INF)
    r = _from_float(f)
    _fcache[f] = r
    return r


def _from_float(f):
    if f == int(f) and abs(f) < 2**53:
        return const(Fraction(int(f)))
    fr = Fraction(f)
    # dyadic
    if fr.denominator <= 4096:
        return const(fr)
    r = repr(f)
    mant = r.split("e")[0].replace(".", "").replace("-", "").strip("0")
    if len(mant) <= 13:
        return const(Fraction(r))
    g = abs(f)
    sign = -1 if f < 0 else 1
    lf = Fraction(g).limit_denominator(5000)
    if lf != 0 and abs(float(lf) - g) <= 4 * math.ulp(g):
        return const(sign * lf)
    best = None
    lg = math.log(g)
    tol = 3e-16 * max(1.0, abs(lg)) + 1e-15

    def test(d, c, b):
        # need a with a*log2 = lg - d logpi - c log3 - b log5, a multiple of 1/12
        rem = lg - d * _LOGPI - c * _LOG3 - b * _LOG5
        a = rem / _LOG2 * 12
        ra = round(a)
        if abs(a - ra) * _LOG2 / 12 < tol and abs(ra) <= 12 * 24:
            v = math.exp(0)
            return Fraction(ra, 12)
        return None

    cands = []
    for d6 in range(-18, 19):
        d = Fraction(d6, 6)
        for c12 in range(-36, 37):
            c = Fraction(c12, 12)
            for b in (0, -1, 1, -2, 2, Fraction(1, 2), Fraction(-1, 2)):
                a = test(d6 / 6.0, c12 / 12.0, float(b))
                if a is not None:
                    cost = (abs(d6) % 6 != 0) * 3 + abs(d6) + abs(c12) / 2 + abs(float(b)) * 6 + (
                        a.denominator - 1
                    ) + abs(float(a)) * 0.5
                    cands.append((cost, d, c, Fraction(b), a))
    if cands:
        cands.sort(key=lambda z: z[0])
        cost, d, c, b, a = cands[0]
        import mpmath

        with mpmath.workdps(40):
            v = (
                mpmath.pi ** mpmath.mpf(d.numerator) ** 1
                if False
                else mpmath.power(mpmath.pi, mpmath.mpf(d.numerator) / d.denominator)
                * mpmath.power(3, mpmath.mpf(c.numerator) / c.denominator)
                * mpmath.power(5, mpmath.mpf(b.numerator) / b.denominator)
                * mpmath.power(2, mpmath.mpf(a.numerator) / a.denominator)
            )
            if abs(v - mpmath.mpf(g)) <= 6 * math.ulp(g):
                t = mul(mul(cpow(2, a), cpow(3, c)), mul(cpow(5, b), cpow("pi", d)))
                return mul(const(sign), t)
    return const(fr)


# ---------------------------------------------------------------- constructors
def isconst(t):
    return t.op == "const"


def neg(a):
    return mul(const(-1), a)


def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.val + b.val)
    if a.op == "const" and a.val == 0:
        return b
    if b.op == "const" and b.val == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("add", a, b)


def sub(a, b):
    if a is b and a.total:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.val * b.val)
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if x.val == 1:
                return y
            if x.val == 0 and y.total:
                return ZERO
            if y.op == "mul" and y.args[0].op == "const":
                return mul(const(x.val * y.args[0].val), y.args[1])
            if y.op == "inf":
                return y if x.val > 0 else mk("mul", const(-1), INF) if x.val < 0 else UNDEF
            return mk("mul", x, y)
    if a.op == "cpow" and b.op == "cpow" and a.val[0] == b.val[0]:
        return cpow(a.val[0], a.val[1] + b.val[1])
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a, b)


def div(a, b):
    if b.op == "const" and b.val != 0:
        return mul(const(1 / b.val), a)
    if b.op == "cpow":
        return mul(a, cpow(b.val[0], -b.val[1]))
    c = const_value(b)
    if c is not None and c.op != "const":
        return mul(a, _inv_const(c))
    if b.op == "mul" and b.args[0].op == "const" and b.args[0].val != 0:
        return mul(const(1 / b.args[0].val), div(a, b.args[1]))
    return mk("div", a, b)


def const_value(t):
    """t if it is a product of const/cpow factors."""
    if t.op in ("const", "cpow"):
        return t
    if t.op == "mul" and all(const_value(a) is not None for a in t.args):
        return t
    return None


def _inv_const(t):
    if t.op == "const":
        return const(1 / t.val)
    if t.op == "cpow":
        return cpow(t.val[0], -t.val[1])
    return mul(_inv_const(t.args[0]), _inv_const(t.args[1]))


def ipow(a, n):
    n = int(n)
    if n == 0:
        return ONE
    if n == 1:
        return a
    if a.op == "const" and not (a.val == 0 and n < 0):
        return const(a.val**n)
    if n < 0:
        return div(ONE, ipow(a, -n))
    if a.op == "cpow":
        return cpow(a.val[0], a.val[1] * n)
    if a.op == "mul" and n < 9 and const_value(a) is not None:
        return mul(ipow(a.args[0], n), ipow(a.args[1], n))
    if a.op == "sqrt" and n == 2 and a.args[0].total:
        # sqrt(e)^2 = e where defined
        pass
    return mk("pow", a, val=n)


def _isqrt_frac(f):
    if f < 0:
        return None
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return None


def _prime_pow(f, e):
    """Fraction f>0 raised to e as cpow product if f is 2,3,5,7-smooth else None"""
    t = ONE
    for p in (2, 3, 5, 7):
        k = 0
        while f.numerator % p == 0:
            f = f / p
            k += 1
        while f.denominator % p == 0:
            f = f * p
            k -= 1
        if k:
            t = mul(t, cpow(p, e * k))
    if f != 1:
        return None
    return t


def sqrt(a):
    return powr(a, Fraction(1, 2))


def powr(a, e):
    e = Fraction(e)
    if e.denominator == 1:
        return ipow(a, e.numerator)
    c = const_value(a)
    if c is not None:
        if a.op == "const":
            if a.val == 0:
                return ZERO if e > 0 else UNDEF
            if a.val > 0:
                t = _prime_pow(a.val, e)
                if t is not None:
                    return t
        elif a.op == "cpow":
            b, x = a.val
            return cpow(b, x * e)
        elif a.op == "mul":
            parts = []
            stack = [a]
            ok = True
            while stack:
                z = stack.pop()
                if z.op == "mul":
                    stack.extend(z.args)
                else:
                    parts.append(z)
            if all(z.op == "cpow" or z.val > 0 for z in parts):
                t = ONE
                for z in parts:
                    t = mul(t, powr(z, e))
                return t
    if e < 0:
        return div(ONE, powr(a, -e))
    if e == Fraction(1, 2):
        return mk("sqrt", a)
    if e > 1:
        ip = e.numerator // e.denominator
        return mul(ipow(a, ip), powr(a, e - ip))
    return mk("powr", a, val=e)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in x.args if x.op == "and" else (x,):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    for y in out:
        if not_(y).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("and", *out)


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in x.args if x.op == "or" else (x,):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    for y in out:
        if not_(y).id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("or", *out)


def implies(a, b):
    return or_(not_(a), b)


_numc = {}


def numconst(t):
    """float/mp value of a constant term (no variables), or None"""
    if t.id in _numc:
        return _numc[t.id]
    if free_vars(t):
        r = None
    else:
        import mpmath

        with mpmath.workdps(50):
            try:
                r = evaluate(t, {}, mpmath)
            except Exception:
                r = None
    _numc[t.id] = r
    return r


def _cmpc(a, b):
    if a.op == "const" and b.op == "const":
        return a.val, b.val
    if a.op in ("add", "mul", "cpow", "const", "pow", "div", "sqrt", "powr") and b.op in (
        "add",
        "mul",
        "cpow",
        "const",
        "pow",
        "div",
        "sqrt",
        "powr",
    ):
        x, y = numconst(a), numconst(b)
        if x is not None and y is not None and abs(x - y) > 1e-30:
            return x, y
    return None


_NN = {}


def nonneg(t):
    """syntactically nonnegative (sound, incomplete)"""
    r = _NN.get(t.id)
    if r is None:
        r = _nonneg(t)
        _NN[t.id] = r
    return r


def _nonneg(t):
    op = t.op
    if op in ("const", "cpow"):
        return _cmpc(ZERO, t) is not None and _cmpc(ZERO, t)[0] <= _cmpc(ZERO, t)[1]
    if op == "sqrt":
        return True
    if op == "pow" and isinstance(t.val, int):
        return t.val % 2 == 0 or nonneg(t.args[0])
    if op == "mul":
        return (len(t.args) == 2 and t.args[0] is t.args[1]) or all(nonneg(a) for a in t.args)
    if op in ("add", "div"):
        return all(nonneg(a) for a in t.args)
    if op == "ite":
        c = t.args[0]
        if c.op == "le" and c.args[0] is ZERO and c.args[1] is t.args[1] and t.args[2] is neg(t.args[1]):
            return True
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if op in ("acos", "exp"):
        return True
    return False


def _minmax(t):
    """(kind, p, q) for t = max(p, q) or min(p, q), |p| being max(p, -p)"""
    if t.op != "ite":
        return None
    c, x, y = t.args
    if c.op not in ("le", "lt"):
        return None
    p, q = c.args  # p <= q
    if p is ZERO and (x is q and y is neg(q)):
        return "max", q, neg(q)
    if x is q and y is p:
        return "max", p, q
    if x is p and y is q:
        return "min", p, q
    return None


def _splitcmp(a, b, f):
    """comparisons with a maximum, minimum or absolute value on one side become conjunctions or disjunctions"""
    m = _minmax(a)
    if m:
        g = and_ if m[0] == "max" else or_
        return g(f(m[1], b), f(m[2], b))
    m = _minmax(b)
    if m:
        g = or_ if m[0] == "max" else and_
        return g(f(a, m[1]), f(a, m[2]))
    return None


def _sqcmp(a, b):
    """comparison of a nonnegative rational constant with a square root -> squares"""
    if a.op == "const" and a.val >= 0 and b.op == "sqrt":
        return const(a.val * a.val), b.args[0]
    if b.op == "const" and b.val >= 0 and a.op == "sqrt":
        return a.args[0], const(b.val * b.val)
    return None


def ninf(a):
    """minus infinity"""
    return a.op == "mul" and a.args[1] is INF


def lt(a, b):
    if a is b:
        return FALSE
    if ninf(a):
        return TRUE
    if ninf(b):
        return FALSE
    if b.op == "inf":
        return TRUE if a.op != "inf" else FALSE
    if a.op == "inf":
        return FALSE
    c = _cmpc(a, b)
    if c is not None:
        return TRUE if c[0] < c[1] else FALSE
    if b is ZERO and nonneg(a):
        return FALSE
    if a.op == "const" and a.val < 0 and nonneg(b):
        return TRUE
    r = _sqcmp(a, b)
    if r:
        return lt(*r)
    r = _splitcmp(a, b, lt)
    if r is not None:
        return r
    return mk("lt", a, b)


def le(a, b):
    if a is b or ninf(a):
        return TRUE
    if ninf(b):
        return FALSE
    if b.op == "inf":
        return TRUE
    if a.op == "inf":
        return FALSE
    c = _cmpc(a, b)
    if c is not None:
        return TRUE if c[0] <= c[1] else FALSE
    if a.op == "const" and a.val <= 0 and nonneg(b):
        return TRUE
    if b.op == "const" and b.val < 0 and nonneg(a):
        return FALSE
    r = _sqcmp(a, b)
    if r:
        return le(*r)
    r = _splitcmp(a, b, le)
    if r is not None:
        return r
    return mk("le", a, b)


def eq(a, b):
    if a.isbool:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a is b:
        return TRUE
    if a.op == "inf" or b.op == "inf" or ninf(a) or ninf(b):
        return FALSE
    c = _cmpc(a, b)
    if c is not None:
        return TRUE if c[0] == c[1] else FALSE
    r = _sqcmp(a, b)
    if r:
        a, b = r
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def _evenless(a):
    """drop conditionals that only choose the sign of a"""
    for _ in range(4):
        c = None
        n = 0
        for x in postorder([a]):
            n += 1
            if c is None and x.op == "ite" and not x.isbool:
                c = x.args[0]
        if c is None or n > 400 or c.op not in ("le", "lt"):
            return a
        p = substitute([a], {c: TRUE})[0]
        q = substitute([a], {c: FALSE})[0]
        if q is neg(p):
            a = p
            continue
        from .poly import Ctx

        try:
            num, _ = Ctx().rat(add(p, q))
        except Exception:
            return a
        if num.d:
            return a
        a = p
    return a


def abs_(a):
    if a.op == "const":
        return const(abs(a.val))
    a = _evenless(a)
    return ite(le(ZERO, a), a, neg(a))


def sign(a):
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), const(-1), ZERO))


def max_(a, b):
    return ite(le(b, a), a, b)


def min_(a, b):
    return ite(le(a, b), a, b)


def copysign(a, s):
    """s == 0 is read as +0"""
    if s.op == "const":
        return abs_(a) if s.val >= 0 else neg(abs_(a))
    m = abs_(a)
    return ite(le(ZERO, s), m, neg(m))


def integral(t):
    """an integer by construction"""
    if t.op == "ivar":
        return True
    if t.op == "const":
        return t.val.denominator == 1
    if t.op in ("add", "mul"):
        return all(integral(a) for a in t.args)
    if t.op == "pow":
        return integral(t.args[0]) and isinstance(t.val, int) and t.val >= 0
    return t.op == "floor"


def fn(name, *args):
    a = args[0]
    if name in ("sin", "cos", "tan") and a.op == "const" and a.val == 0:
        return ONE if name == "cos" else ZERO
    if name in ("asin", "atan") and a.op == "const" and a.val == 0:
        return ZERO
    if name == "atan" and a.op == "inf":
        return div(PI, const(2))
    if name == "acos" and a.op == "const":
        if a.val == 1:
            return ZERO
        if a.val == -1:
            return PI
        if a.val == 0:
            return div(PI, const(2))
    if name == "exp" and a is ZERO:
        return ONE
    if name == "log" and a is ONE:
        return ZERO
    if name == "floor" and integral(a):
        return a
    if name in ("floor",) and a.op == "const":
        return const(math.floor(a.val))
    return mk(name, *args)


def uf(name, *args):
    return mk("uf", *args, val=name)


# ---------------------------------------------------------------- definedness
def isdef(t):
    """boolean term: t is a finite real number"""
    if t.total:
        return TRUE
    if t._def is not None:
        return t._def
    # iterative post-order
    stack = [t]
    while stack:
        x = stack[-1]
        if x.total or x._def is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if not a.total and a._def is None]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        x._def = _isdef1(x)
    return t._def


def _d(a):
    return TRUE if a.total else a._def


def _isdef1(x):
    op = x.op
    if op in ("undef", "inf"):
        return FALSE
    if op == "ite":
        c, a, b = x.args
        r = ite(c, _d(a), _d(b))
        return and_(_d(c), r)
    base = and_(*[_d(a) for a in x.args])
    if op == "div":
        return and_(base, not_(eq(x.args[1], ZERO)))
    if op == "sqrt" or op == "powr":
        return and_(base, le(ZERO, x.args[0]))
    if op in ("acos", "asin"):
        return and_(base, le(const(-1), x.args[0]), le(x.args[0], ONE))
    if op == "log":
        return and_(base, lt(ZERO, x.args[0]))
    if op == "tan":
        return and_(base, not_(eq(fn("cos", x.args[0]), ZERO)))
    return base


# ---------------------------------------------------------------- traversal
def postorder(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


_fv = {}


def free_vars(t):
    r = _fv.get(t.id)
    if r is not None:
        return r
    for x in postorder([t]):
        if x.id in _fv:
            continue
        if x.op in ("var", "ivar", "bvar"):
            _fv[x.id] = frozenset([x])
        else:
            s = frozenset()
            for a in x.args:
                s = s | _fv[a.id]
            _fv[x.id] = s
    return _fv[t.id]


def rebuild(x, args):
    op = x.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "pow":
        return ipow(args[0], x.val)
    if op == "sqrt":
        return sqrt(args[0])
    if op == "powr":
        return powr(args[0], x.val)
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "uf":
        return uf(x.val, *args)
    if not args:
        return x
    return fn(op, *args)


def substitute(ts, mapping):
    """mapping: dict term->term (applied to whole subterms, top-down identity, no recursion into images)"""
    m = {k.id: v for k, v in mapping.items()}
    single = isinstance(ts, T)
    roots = [ts] if single else list(ts)
    memo = {}
    for x in postorder(roots):
        if x.id in m:
            memo[x.id] = m[x.id]
        elif not x.args:
            memo[x.id] = x
        else:
            na = [memo[a.id] for a in x.args]
            if all(p is q for p, q in zip(na, x.args)):
                memo[x.id] = x
            else:
                memo[x.id] = rebuild(x, na)
    res = [memo[r.id] for r in roots]
    return res[0] if single else res


# ---------------------------------------------------------------- evaluation
class Undefined(Exception):
    pass


class Near(Exception):
    """comparison too close to call"""


def evaluate(t, env, M=math, tie=0.0):
    """numeric value; lazy in ite; raises Undefined"""
    memo = {}

    def ev(t):
        # explicit stack evaluation, lazily on ite
        if t.id in memo:
            v = memo[t.id]
            if isinstance(v, Undefined):
                raise v
            return v
        v = ev1(t)
        memo[t.id] = v
        return v

    def ev1(t):
        op = t.op
        if op == "const":
            if M is math:
                return float(t.val)
            return M.mpf(t.val.numerator) / t.val.denominator
        if op in ("var", "ivar", "bvar"):
            return env[t.val]
        if op == "cpow":
            b, e = t.val
            bb = M.pi if b == "pi" else b
            if M is math:
                return float(bb) ** (e.numerator / e.denominator)
            return M.power(bb, M.mpf(e.numerator) / e.denominator)
        if op == "ite":
            return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "and":
            for a in t.args:
                if not ev(a):
                    return False
            return True
        if op == "or":
            for a in t.args:
                if ev(a):
                    return True
            return False
        if op == "not":
            return not ev(t.args[0])
        if op in ("undef", "inf"):
            raise Undefined()
        a = [ev(z) for z in t.args]
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            if a[1] == 0:
                raise Undefined()
            return a[0] / a[1]
        if op == "pow":
            return a[0] ** t.val
        if op == "sqrt":
            if a[0] < 0:
                if a[0] > -1e-13:
                    return a[0] * 0
                raise Undefined()
            return M.sqrt(a[0])
        if op == "powr":
            if a[0] < 0:
                raise Undefined()
            e = t.val
            if M is math:
                return a[0] ** (e.numerator / e.denominator)
            return M.power(a[0], M.mpf(e.numerator) / e.denominator)
        if op == "lt":
            return a[0] < a[1] - tie
        if op == "le":
            return a[0] <= a[1] + tie
        if op == "eq":
            return abs(a[0] - a[1]) <= tie
        if op in ("acos", "asin"):
            if abs(a[0]) > 1:
                if abs(a[0]) < 1 + 1e-12:
                    a[0] = 1 if a[0] > 0 else -1
                else:
                    raise Undefined()
            return getattr(M, op)(a[0])
        if op in ("sin", "cos", "tan", "atan", "exp", "floor", "atan2"):
            return getattr(M, op)(*a)
        if op == "log":
            if a[0] <= 0:
                raise Undefined()
            return M.log(a[0])
        if op == "uf":
            f = env.get(("uf", t.val))
            if f is None:
                raise KeyError(t.val)
            return f(*a)
        raise NotImplementedError(op)

    # evaluate children first in post-order where safe (to avoid deep recursion on big DAGs)
    return ev(t)


def show(t, depth=6):
    if t.op == "const":
        return str(t.val)
    if t.op in ("var", "ivar", "bvar"):
        return str(t.val)
    if t.op == "cpow":
        return f"{t.val[0]}^({t.val[1]})"
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in t.args]
    if t.op == "add":
        return f"({a[0]} + {a[1]})"
    if t.op == "mul":
        return f"{a[0]}*{a[1]}"
    if t.op == "div":
        return f"({a[0]}/{a[1]})"
    if t.op == "pow":
        return f"{a[0]}^{t.val}"
    if t.op == "lt":
        return f"({a[0]} < {a[1]})"
    if t.op == "le":
        return f"({a[0]} <= {a[1]})"
    if t.op == "eq":
        return f"({a[0]} = {a[1]})"
    nm = t.op if t.val is None else f"{t.op}[{t.val}]"
    return f"{nm}({', '.join(a)})"
