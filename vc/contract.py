"""Contracts: one text, two readings.

A unit is a Python function body(v, **params) that builds inputs satisfying a
precondition, calls functions of /repo and states postconditions.  Read symbolically
(Sym) it generates verification conditions for every input; read concretely (Conc) it is
a runtime contract on the real torch code, used to replay countermodels, to cross-check
the symbolic reading on every run and as the labelled bounded stand-in.
"""
from __future__ import annotations
import importlib
import math
import os
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
from . import terms as tm
from . import shim
from . import path as pathm
from . import prove as pv
from .loader import Loader, REPO
from .path import Unsupported, PathEnd

UNITS = {}
CUR = [None]  # the Sym reading in progress (for callee contracts given as overrides)


class Unit:
    def __init__(self, pid, name, fns, body, params, kw):
        self.pid, self.name, self.fns, self.body, self.params = pid, name, fns, body, params
        self.kw = kw
        self.overrides = kw.get("overrides") or {}
        self.loops = kw.get("loops") or {}
        self.modes = kw.get("modes", ("sym", "conc"))
        self.timeout = kw.get("timeout", 20000)
        self.budget = kw.get("budget", 240)
        self.nsamp = kw.get("nsamp", 1)
        self.tol = kw.get("tol", {})
        self.dtypes = kw.get("dtypes", ("float64",))
        self.modifies = set(kw.get("modifies", ()))
        self.tier = kw.get("tier", "quick")
        self.replayable = kw.get("replayable", True)
        self.note = kw.get("note", "")


def unit(pid, name, fns, params=({},), **kw):
    def deco(body):
        u = Unit(pid, name, [fns] if isinstance(fns, str) else list(fns), body, list(params), kw)
        UNITS.setdefault(pid, []).append(u)
        return body

    return deco


def _conjuncts(t):
    if t.op == "and":
        for a in t.args:
            yield from _conjuncts(a)
    else:
        yield t


class Fail(Exception):
    pass


# ================================================================= symbolic reading
class Sym:
    sym = True

    def __init__(self, loader, unit):
        self.loader = loader
        self.unit = unit
        self.T = shim.torch
        self.rules = []
        self.inputs = {}
        self.snap = {}
        self.f64 = shim.float64
        self.dtype = shim.float64
        self.pre = []
        for name, m in loader.mods.items():
            pass

    # ---- plumbing
    def fn(self, spec):
        return self.loader.fn(spec)

    def mod(self, name):
        return self.loader.load(name)

    def _axes(self, axes):
        out = []
        for a in axes:
            out.append((shim.lane(a),) if isinstance(a, str) else (a,))
        return out

    def _reg(self, name, t):
        self.inputs[name] = t
        self.snap[name] = (t.data.copy(), list(t.axes), t.dtype)
        p = pathm.cur()
        for a in t.axes:
            for l in shim.ax_lanes(a):
                p.assume(tm.le(tm.ONE, l.size))
        return t

    def fresh(self, name, axes, kind="var"):
        ax = self._axes(axes)
        shape = [shim.ax_phys(shim.ax_norm(a)) for a in ax]
        d = np.empty(shape, dtype=object)
        mkv = tm.var if kind == "var" else tm.ivar if kind == "ivar" else tm.bvar
        if d.shape == ():
            d[()] = mkv(name)
        else:
            # leading batch axes contribute no index: the generic element has one name whatever the rank
            lead = 0
            while lead < len(axes) and (isinstance(axes[lead], str) or axes[lead] == 1):
                lead += 1
            for k in np.ndindex(*d.shape):
                d[k] = mkv("_".join([name] + [str(z) for z in k[lead:]]))
        for z in d.reshape(-1):
            shim.VAR_LANES[z.val] = frozenset(l.name for a in ax for l in shim.ax_lanes(a))
        dt = shim.float64 if kind == "var" else shim.int64 if kind == "ivar" else shim.bool_
        return shim.SymTensor(d, ax, dt)

    # ---- inputs
    def real(self, name, axes, lo=None, hi=None, lo_open=False, hi_open=False, special=(), scale=1.0, gen=None):
        t = self.fresh(name, axes)
        p = pathm.cur()
        for x in t.data.reshape(-1):
            if lo is not None:
                L = shim.to_term(lo)
                p.assume(tm.lt(L, x) if lo_open else tm.le(L, x))
            if hi is not None:
                H = shim.to_term(hi)
                p.assume(tm.lt(x, H) if hi_open else tm.le(x, H))
        return self._reg(name, t)

    def boolean(self, name, axes):
        return self._reg(name, self.fresh(name, axes, "bvar"))

    def pyreal(self, name, lo=None, hi=None, special=(), lo_open=False, hi_open=False):
        x = tm.var(name)
        shim.VAR_LANES[name] = frozenset()
        p = pathm.cur()
        if lo is not None:
            p.assume(tm.lt(shim.to_term(lo), x) if lo_open else tm.le(shim.to_term(lo), x))
        if hi is not None:
            p.assume(tm.lt(x, shim.to_term(hi)) if hi_open else tm.le(x, shim.to_term(hi)))
        return shim.SymTensor.scalar(x, shim.float64, pynum=True)

    def pyint(self, name, lo=None, hi=None, special=()):
        """any Python integer (within lo..hi)"""
        x = tm.ivar(name)
        shim.VAR_LANES[name] = frozenset()
        p = pathm.cur()
        if lo is not None:
            p.assume(tm.le(shim.to_term(lo), x))
        if hi is not None:
            p.assume(tm.le(x, shim.to_term(hi)))
        return shim.SymInt(x)

    def integer(self, name, axes, lo=None, hi=None, special=()):
        t = self.fresh(name, axes, "ivar")
        p = pathm.cur()
        for x in t.data.reshape(-1):
            if lo is not None:
                p.assume(tm.le(shim.to_term(lo), x))
            if hi is not None:
                p.assume(tm.le(x, shim.to_term(hi)))
        return self._reg(name, t)

    def pystr(self, name, domain=()):
        """any Python string"""
        return shim.SymStr(tm.ivar(name))

    def attempt(self, f, *a, **k):
        """(result, rejected?) of a call that may raise"""
        try:
            return f(*a, **k), False
        except (PathEnd, Unsupported, pv.OutOfTime, NotImplementedError):
            raise
        except (ValueError, RuntimeError, IndexError, KeyError, TypeError, AssertionError) as e:
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if os.sep + "vc" + os.sep in last and not isinstance(e, (ValueError, RuntimeError)):
                raise
            return None, True

    def unitvec(self, name, axes, n, elim=0, special=None):
        t = self.fresh(name, list(axes) + [n])
        p = pathm.cur()
        fl = t.data.reshape(-1, n)
        for row in fl:
            s = tm.ZERO
            for x in row:
                s = tm.add(s, tm.ipow(x, 2))
            p.assume(tm.eq(s, tm.ONE))
            rest = tm.ONE
            for i, x in enumerate(row):
                if i != elim:
                    rest = tm.sub(rest, tm.ipow(x, 2))
            self.rules.append((row[elim], 2, rest))
        return self._reg(name, t)

    def havoc(self, batch_axes, tail, dtype=None, base="h"):
        """an arbitrary tensor (result of a callee known only by its contract)"""
        ax = list(batch_axes) + [(n,) for n in tail]
        p = pathm.cur()
        nm = p.freshname(base)
        d = np.empty([shim.ax_phys(shim.ax_norm(a)) for a in ax], dtype=object)
        if d.shape == ():
            d[()] = tm.var(nm)
        for k in np.ndindex(*d.shape):
            d[k] = tm.var("_".join([nm] + [str(z) for z in k[len(batch_axes):]]))
        return shim.SymTensor(d, ax, dtype or shim.float64)

    def quat(self, name, axes, elim=0):
        return self.unitvec(name, axes, 4, elim)

    def const(self, x, dtype=None):
        return shim.tensor(x, dtype=dtype or shim.float64)

    def mark(self, name):
        """register nothing symbolically"""

    # ---- specification helpers
    def where(self, c, a, b):
        return self.T.where(c, a, b)

    def require(self, c):
        p = pathm.cur()
        for x in np.asarray(c.data).reshape(-1) if isinstance(c, shim.SymTensor) else [shim.to_term(c)]:
            p.assume(tm.and_(x, tm.isdef(x)))

    def rule(self, atom, e, rhs):
        """rewrite atom^e -> rhs in normal forms (must follow from the precondition)"""
        self.rules.append((shim.to_term(atom), e, shim.to_term(rhs)))

    def taylor(self, t):
        """trusted: the alternating Taylor enclosures of sin and cos, valid for every t >= 0"""
        p = pathm.cur()
        for x in np.asarray(t.data).reshape(-1):
            S, C = tm.mk("sin", x), tm.mk("cos", x)
            c = lambda n, d, e: tm.mul(tm.const(Fraction(n, d)), tm.ipow(x, e))
            s3 = tm.sub(x, c(1, 6, 3))
            s5 = tm.add(s3, c(1, 120, 5))
            s7 = tm.sub(s5, c(1, 5040, 7))
            c4 = tm.add(tm.sub(tm.ONE, c(1, 2, 2)), c(1, 24, 4))
            c6 = tm.sub(c4, c(1, 720, 6))
            c8 = tm.add(c6, c(1, 40320, 8))
            nn = tm.le(tm.ZERO, x)
            for f in (tm.le(s7, S), tm.le(S, s5), tm.le(c6, C), tm.le(C, c8)):
                p.assume(tm.implies(nn, f))

    def guards(self, axes, k):
        """facts known about element k because of boolean selections along its axes"""
        g = tm.TRUE
        for ax, j in zip(axes, k):
            ph = [shim._aphys(a) for a in ax]
            for a, i in zip(ax, np.unravel_index(j, ph)):
                if isinstance(a, shim.Lane) and a.guard is not None:
                    i = int(i)
                    pp = [shim.ax_phys(z) for z in a.parents]
                    up = self.guards(a.parents, [int(z) for z in np.unravel_index(i, pp)])
                    c = shim.truth(a.guard[i])
                    d = tm.isdef(c)
                    if d is not tm.TRUE:
                        p = pathm.cur()
                        key = (d.id, up.id)
                        done = getattr(p, "_gdone", None)
                        if done is None:
                            done = p._gdone = set()
                        if key not in done:
                            done.add(key)
                            p.oblige(tm.implies(up, d), "selection condition is a finite number")
                            p.assume(tm.implies(up, d))
                    g = tm.and_(g, up, c)
        return g

    def _under(self, g, c, label):
        if g is tm.TRUE:
            return self._oblige(c, label)
        pathm.cur().oblige(tm.implies(g, tm.and_(tm.isdef(c), c)), label)

    def member(self, label, rows, target):
        """the integer row `target` occurs among the rows of an enumerated and filtered index grid"""
        T = target
        leaves = [l for l in rows.lanes()]
        for r in range(rows.data.shape[0]):
            row = rows.data[r]
            g = self.guards(rows.axes[:1], [r])
            sub = {}
            for j in range(len(row)):
                if row[j].op == "ivar" and str(row[j].val) in shim._ranges and row[j] not in sub:
                    sub[row[j]] = shim.num(T.data[j])
            f = lambda t: tm.substitute(t, sub)
            for x, i in sub.items():
                lo, hi = shim._ranges[str(x.val)]
                self._oblige(tm.le(lo, i), f"{label}: enumerated from below")
                self._oblige(tm.lt(i, hi), f"{label}: enumerated up to above")
            g = f(g)
            self._oblige(tm.and_(tm.isdef(g), g), f"{label}: kept by the filters")
            for j in range(len(row)):
                self._oblige(tm.eq(f(row[j]), shim.num(T.data[j])), f"{label}: row {j}")

    def no_duplicates(self, label, rows):
        """equal rows are the same element of the enumeration"""
        for r in range(rows.data.shape[0]):
            row = rows.data[r]
            ivs = {}
            for t in tm.free_vars(tm.and_(*[tm.eq(x, tm.ZERO) for x in row])):
                if t.op == "ivar" and str(t.val) in shim._ranges:
                    ivs[t.val] = t
            lanes = {l for l in self._leaf_lanes(rows.axes[:1])}
            n = len(lanes)
            sub = {k: tm.ivar(str(k) + "'") for k in ivs}
            same = tm.and_(*[tm.eq(x, tm.substitute(x, {tm.ivar(a): b for a, b in sub.items()})) for x in row])
            self.holds(label + ": every enumerated index shows in the row", len(ivs) == n)
            for k, t in ivs.items():
                self._oblige(tm.implies(same, tm.eq(t, sub[k])), label)

    def _leaf_lanes(self, axes):
        for ax in axes:
            for a in ax:
                if isinstance(a, shim.Lane):
                    if a.guard is not None:
                        yield from self._leaf_lanes(a.parents)
                    else:
                        yield a

    def _oblige(self, g, label):
        p = pathm.cur()
        d = tm.isdef(g)
        p.oblige(tm.and_(d, g) if d is not tm.TRUE else g, label)

    def _pair(self, label, a, b):
        if not isinstance(a, shim.SymTensor):
            a = shim.SymTensor.of(a)
        if not isinstance(b, shim.SymTensor):
            b = shim.SymTensor.of(b)
        if b.ndim == 0 and a.ndim > 0 and b.pynum:
            b = shim.SymTensor(np.broadcast_to(b.data, a.data.shape), a.axes, b.dtype)
        ok = len(a.axes) == len(b.axes) and all(shim._same_ax(p, q) for p, q in zip(a.axes, b.axes))
        if not ok:
            pathm.cur().oblige(tm.FALSE, label + f": shape {tuple(a.shape)} should be {tuple(b.shape)}")
            return None
        return a, b

    def eq(self, label, a, b, tol=None):
        pr = self._pair(label, a, b)
        if pr is None:
            return
        a, b = pr
        for k in np.ndindex(*a.data.shape):
            x, y = a.data[k], b.data[k]
            if x.isbool or y.isbool:
                g = tm.eq(shim.truth(x), shim.truth(y))
            else:
                g = tm.eq(x, y)
            self._under(self.guards(a.axes, k), tm.and_(tm.isdef(x), g), f"{label}{list(k) if k else ''}")

    def signeq(self, label, a, b, tol=None):
        """equal up to one global sign along the last axis"""
        pr = self._pair(label, a, b)
        if pr is None:
            return
        a, b = pr
        n = a.data.shape[-1]
        A, B = a.data.reshape(-1, n), b.data.reshape(-1, n)
        for r in range(A.shape[0]):
            for x in A[r]:
                self._oblige(tm.isdef(x), f"{label} defined")
            # same direction: all 2x2 minors vanish, and same squared norm
            for i in range(n):
                for j in range(i + 1, n):
                    self._oblige(tm.eq(tm.mul(A[r][i], B[r][j]), tm.mul(A[r][j], B[r][i])), f"{label} parallel[{i},{j}]")
            sa = sb = tm.ZERO
            for i in range(n):
                sa = tm.add(sa, tm.ipow(A[r][i], 2))
                sb = tm.add(sb, tm.ipow(B[r][i], 2))
            self._oblige(tm.eq(sa, sb), f"{label} norm")

    def numbers(self, t):
        """float values of a tensor of constants"""
        return np.array([float(tm.evaluate(x, {})) for x in t.data.reshape(-1)]).reshape(t.data.shape)

    def any_eq(self, label, a, cands, tol=None):
        """along the last axis, a equals one of the candidates"""
        gs = []
        for c in cands:
            pr = self._pair(label, a, c)
            if pr is None:
                return
            gs.append(pr)
        a = gs[0][0]
        n = a.data.shape[-1]
        for k in np.ndindex(*a.data.shape[:-1]):
            for x in a.data[k]:
                self._oblige(tm.isdef(x), f"{label} defined")
            self._oblige(tm.or_(*[tm.and_(*[tm.eq(A.data[k][i], B.data[k][i]) for i in range(n)]) for A, B in gs]), f"{label}{list(k) if k else ''}")

    def le(self, label, a, b, slack=0.0):
        self._cmp(label, a, b, tm.le)

    def lt(self, label, a, b, slack=0.0):
        self._cmp(label, a, b, tm.lt)

    def _cmp(self, label, a, b, f):
        a, b = shim.SymTensor.of(a), shim.SymTensor.of(b)
        c = a._bin(b, f, cmp=True)
        for k in np.ndindex(*c.data.shape):
            self._under(self.guards(c.axes, k), c.data[k], f"{label}{list(k) if k else ''}")

    def holds(self, label, c, margin=None):
        if isinstance(c, bool):
            if not c:
                pathm.cur().oblige(tm.FALSE, label)
            else:
                pathm.cur().obligations.append(([], tm.TRUE, label))
            return
        if isinstance(c, shim.SymBool):
            self._oblige(c.t, label)
            return
        for k in np.ndindex(*c.data.shape):
            self._under(self.guards(c.axes, k), c.data[k], f"{label}{list(k) if k else ''}")

    def iff(self, label, a, b, margin=None):
        pr = self._pair(label, a, b)
        if pr is None:
            return
        a, b = pr
        for k in np.ndindex(*a.data.shape):
            x, y = shim.truth(a.data[k]), shim.truth(b.data[k])
            g = self.guards(a.axes, k)
            self._under(g, tm.implies(x, y), f"{label} ->{list(k) if k else ''}")
            self._under(g, tm.implies(y, x), f"{label} <-{list(k) if k else ''}")

    def lemma(self, label, c, using=None, gen=()):
        """prove, then use.  using: prove it from these facts alone (each is itself known at this point);
        gen: treat these subterms as arbitrary numbers while proving it"""
        if using is None:
            self.holds("lemma " + label, c)
        else:
            p = pathm.cur()
            one = lambda z: tm.and_(*[shim.truth(x) for x in np.asarray(z.data).reshape(-1)]) if isinstance(z, shim.SymTensor) else shim.to_term(z)
            known = {x.id for h in p.pc for x in _conjuncts(h)}
            hs = [one(u) for u in using]
            for h in hs:
                for x in _conjuncts(h):
                    if x is not tm.TRUE and x.id not in known:
                        self._oblige(x, f"lemma {label}: its hypothesis")
            goal = one(c)
            m, extra = {}, []
            for k, g in enumerate(gen):
                t = shim.to_term(g)
                if t.op not in ("var", "ivar", "const"):
                    m[t] = tm.var(f"gen{k}!{p.freshname('g')}")
                    if tm.neg(t).op not in ("var", "ivar", "const"):
                        m.setdefault(tm.neg(t), tm.neg(m[t]))
                    if tm.le(tm.ZERO, t) is tm.TRUE:
                        extra.append(tm.le(tm.ZERO, m[t]))
            sub = (lambda t: tm.substitute(t, m)) if m else (lambda t: t)
            d = tm.isdef(goal)
            if d is not tm.TRUE:
                p.oblige(d, f"lemma {label}: defined")
            p.obligations.append(([sub(h) for h in hs + [d] if h is not tm.TRUE] + extra, sub(goal), "lemma " + label))
        self.require(c)

    def dtype_is(self, label, t, ref=None):
        want = (ref.dtype if ref is not None else self.dtype)
        self.holds(label + " dtype", t.dtype is want)

    def end(self):
        for n, (d, ax, dt) in self.snap.items():
            if n in self.unit.modifies:
                continue
            t = self.inputs[n]
            for k in np.ndindex(*d.shape):
                if t.data[k] is not d[k]:
                    pathm.cur().oblige(tm.eq(shim.num(t.data[k]), shim.num(d[k])), f"input {n} left unchanged{list(k)}")


# ================================================================= concrete reading
_real = {}


def real_module(name):
    if name not in _real:
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        _real[name] = importlib.import_module(name)
    return _real[name]


TOL = {"float64": 1e-6, "float32": 3e-3}


class Conc:
    sym = False

    def __init__(self, unit, rng, dtype="float64", sizes=None, given=None):
        import torch

        self.T = torch
        self.unit = unit
        self.rng = rng
        self.dname = dtype
        self.dtype = getattr(torch, dtype)
        self.f64 = torch.float64
        self.sizes = sizes or {}
        self.given = given or {}
        self.inputs = {}
        self.snap = {}
        self.fails = []
        self.checked = 0
        self.rules = []
        self.tol = unit.tol.get(dtype, TOL[dtype])
        self.skipped = False

    def fn(self, spec):
        mod, f = spec.split(":")
        o = real_module(mod)
        for p in f.split("."):
            o = getattr(o, p)
        return o

    def mod(self, name):
        return real_module(name)

    def size(self, lane):
        return self.sizes.setdefault(lane, int(self.rng.integers(1, 6)))

    def _shape(self, axes):
        return tuple(self.size(a) if isinstance(a, str) else a for a in axes)

    def _reg(self, name, arr, bounds=None):
        if name in self.given:
            g = np.asarray(self.given[name])
            if bounds is not None and g.size and g.dtype.kind in "fiu":
                L, H = bounds
                if (L is not None and (g < L - 1e-12).any()) or (H is not None and (g > H + 1e-12).any()):
                    self.require(False)
            arr = np.broadcast_to(g, arr.shape).copy() if g.shape != arr.shape else g
        t = self.T.tensor(arr, dtype=self.dtype if arr.dtype.kind == "f" else None)
        self.inputs[name] = t
        self.snap[name] = t.clone()
        return t

    def real(self, name, axes, lo=None, hi=None, lo_open=False, hi_open=False, special=(), scale=1.0, gen=None):
        sh = self._shape(axes)
        r = self.rng
        L = float(lo) if lo is not None else None
        H = float(hi) if hi is not None else None
        if gen is not None:
            a = np.asarray(gen(r, sh), dtype=float)
        elif L is not None and H is not None:
            a = r.uniform(L, H, size=sh)
        elif L is not None:
            a = L + np.abs(r.normal(size=sh)) * scale + (1e-3 if lo_open else 0)
        elif H is not None:
            a = H - np.abs(r.normal(size=sh)) * scale - (1e-3 if hi_open else 0)
        else:
            a = r.normal(size=sh) * scale
        a = np.array(a, dtype=float)
        sp = [float(s) for s in special]
        if L is not None and H is not None and gen is None:
            sp += ([] if lo_open else [L]) + ([] if hi_open else [H])
        if sp:
            m = r.random(size=sh) < 0.3
            a = np.where(m, r.choice(sp, size=sh), a)
        return self._reg(name, a, (L + (1e-9 if lo_open else 0) if L is not None else None, H - (1e-9 if hi_open else 0) if H is not None else None))

    def boolean(self, name, axes):
        return self._reg(name, self.rng.random(self._shape(axes)) < 0.5)

    def pyreal(self, name, lo=None, hi=None, special=(), lo_open=False, hi_open=False):
        if name in self.given:
            x = float(self.given[name])
            if (lo is not None and (x < float(lo) - 1e-12 or (lo_open and x <= float(lo)))) or (hi is not None and (x > float(hi) + 1e-12 or (hi_open and x >= float(hi)))):
                self.require(False)
        else:
            L = -3.0 if lo is None else float(lo)
            H = L + 6.0 if hi is None else float(hi)
            x = float(self.rng.uniform(L, H))
            sp = list(special) + ([] if lo is None or lo_open else [L]) + ([] if hi is None or hi_open else [H])
            if sp and self.rng.random() < 0.3:
                x = float(self.rng.choice(sp))
        self.inputs[name] = x
        return x

    def pyint(self, name, lo=None, hi=None, special=()):
        if name in self.given:
            x = int(round(float(self.given[name])))
            if (lo is not None and x < int(lo)) or (hi is not None and x > int(hi)):
                self.require(False)
        else:
            L = -50 if lo is None else int(lo)
            H = L + 400 if hi is None else int(hi)
            x = int(self.rng.integers(L, H + 1))
            if len(special) and self.rng.random() < 0.3:
                x = int(self.rng.choice(list(special)))
        self.inputs[name] = x
        return x

    def integer(self, name, axes, lo=None, hi=None, special=()):
        L = -20 if lo is None else int(lo)
        H = L + 40 if hi is None else int(hi)
        a = self.rng.integers(L, H + 1, size=self._shape(axes))
        if name in self.given:
            g = np.rint(np.asarray(self.given[name])).astype(np.int64)
            a = np.broadcast_to(g, a.shape).copy() if g.shape != a.shape else g
        return self._reg(name, a.astype(np.int64))

    def pystr(self, name, domain=()):
        r = self.rng
        if isinstance(self.given.get(name), str):
            x = self.given[name]
        elif r.random() < 0.7 and len(domain):
            x = str(r.choice(list(domain)))
        else:
            x = "".join(r.choice(list("1234606m/-2 abx"), size=int(r.integers(0, 6))))
        self.inputs[name] = x
        return x

    def attempt(self, f, *a, **k):
        try:
            return f(*a, **k), False
        except PathEnd:
            raise
        except Exception as e:
            return None, True

    def unitvec(self, name, axes, n, elim=0, special=None):
        sh = self._shape(axes) + (n,)
        r = self.rng
        a = r.normal(size=sh)
        # edge rows: small integer vectors (axis aligned, equal magnitudes, zero components) and tiny perturbations
        e = r.integers(-1, 2, size=sh).astype(float)
        k = r.random(size=sh[:-1] + (1,))
        a = np.where(k < 0.35, e, a)
        one = np.zeros(sh)
        idx = r.integers(0, n, size=sh[:-1])
        np.put_along_axis(one, idx[..., None], r.choice([-1.0, 1.0], size=sh[:-1])[..., None], -1)
        a = np.where(k < 0.15, one, a)
        # near-degenerate rows: an exact edge point plus a tiny perturbation
        if self.dname == "float64":
            pert = one + 10.0 ** r.uniform(-5, -1, size=sh[:-1] + (1,)) * r.normal(size=sh)
            a = np.where((k >= 0.35) & (k < 0.45), pert, a)
        # one component exactly zero
        z = (k >= 0.45) & (k < 0.6)
        a = np.where(z & (np.arange(n) == r.integers(0, n, size=sh[:-1])[..., None]), 0.0, a)
        bad = (a * a).sum(-1, keepdims=True) < 1e-12
        a = np.where(bad, one, a)
        if name in self.given:
            a = np.broadcast_to(np.asarray(self.given[name], dtype=float), sh).copy()
        a = a / np.sqrt((a * a).sum(-1, keepdims=True))
        t = self.T.tensor(a, dtype=self.dtype)
        self.inputs[name] = t
        self.snap[name] = t.clone()
        return t

    def quat(self, name, axes, elim=0):
        return self.unitvec(name, axes, 4)

    def const(self, x, dtype=None):
        return self.T.tensor(x, dtype=dtype or self.dtype)

    def where(self, c, a, b):
        T = self.T
        a = a if isinstance(a, T.Tensor) else T.tensor(a, dtype=self.dtype)
        b = b if isinstance(b, T.Tensor) else T.tensor(b, dtype=self.dtype)
        return T.where(c, a, b)

    def require(self, c):
        ok = bool(c.all()) if hasattr(c, "all") else bool(c)
        if not ok:
            self.skipped = True
            raise PathEnd()

    def rule(self, *a):
        pass

    def taylor(self, t):
        pass

    def _fail(self, label, detail):
        self.fails.append((label, detail))

    def _np(self, t):
        return t.detach().cpu().numpy() if isinstance(t, self.T.Tensor) else np.asarray(t)

    def eq(self, label, a, b, tol=None):
        self.checked += 1
        A, B = self._np(a), self._np(b)
        if B.ndim == 0 and A.ndim > 0 and not isinstance(b, self.T.Tensor):
            B = np.broadcast_to(B, A.shape)
        if A.shape != B.shape:
            return self._fail(label, f"shape {A.shape} should be {B.shape}")
        if A.dtype == bool or B.dtype == bool:
            if not np.array_equal(A, B):
                self._fail(label, "boolean mismatch at " + str(np.argwhere(A != B)[:3].tolist()))
            return
        tol = self._tol(tol)
        A, B = A.astype(float), B.astype(float)
        if A.size == 0:
            return
        err = np.abs(A - B)
        bad = ~(err <= tol * np.maximum(1.0, np.abs(B)))
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            self._fail(label, f"at {list(map(int, k))}: got {A[k]!r}, contract says {B[k]!r}")

    def _tol(self, tol):
        if tol is None:
            return self.tol
        if isinstance(tol, dict):
            return tol.get(self.dname, self.tol)
        return tol if self.dname == "float64" else max(tol, self.tol)

    def signeq(self, label, a, b, tol=None):
        self.checked += 1
        A, B = self._np(a).astype(float), self._np(b).astype(float)
        if A.shape != B.shape:
            return self._fail(label, f"shape {A.shape} should be {B.shape}")
        if A.size == 0:
            return
        tol = self._tol(tol)
        e = np.minimum(np.abs(A - B).max(-1), np.abs(A + B).max(-1))
        bad = ~(e <= tol * np.maximum(1.0, np.abs(B).max(-1)))
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            self._fail(label, f"at {list(map(int, k))}: got {A[k].tolist()}, contract says +-{B[k].tolist()}")

    def numbers(self, t):
        return self._np(t).astype(float)

    def any_eq(self, label, a, cands, tol=None):
        self.checked += 1
        A = self._np(a).astype(float)
        tol = self._tol(tol)
        best = None
        for c in cands:
            B = self._np(c).astype(float)
            if A.shape != B.shape:
                return self._fail(label, f"shape {A.shape} should be {B.shape}")
            e = np.abs(A - B).max(axis=-1) if A.size else np.zeros(A.shape[:-1])
            best = e if best is None else np.minimum(best, e)
        if best is None or not np.all(best <= tol):
            self._fail(label, f"{A.reshape(-1, A.shape[-1])[:2].tolist()} is none of the candidates, distance {None if best is None else best.max()}")

    def le(self, label, a, b, slack=None):
        self.checked += 1
        A = np.asarray(self._np(a), dtype=float)
        B = np.asarray(self._np(b), dtype=float)
        s = self.tol if slack is None else slack
        bad = ~(A <= B + s)
        if bad.any():
            k = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
            self._fail(label, f"at {list(map(int, k))}: {np.broadcast_to(A, bad.shape)[k]!r} <= {np.broadcast_to(B, bad.shape)[k]!r} fails")

    lt = le

    def holds(self, label, c, margin=None):
        self.checked += 1
        c = self._np(c)
        if margin is not None:
            m = self._np(margin() if callable(margin) else margin)
            c = c | (np.abs(m) < 1e-9 if self.dname == "float64" else np.abs(m) < 1e-4)
        if not np.all(c):
            k = np.argwhere(~np.atleast_1d(c))[:1].tolist()
            self._fail(label, f"false at {k}")

    def iff(self, label, a, b, margin=None):
        self.checked += 1
        A, B = self._np(a), self._np(b)
        if A.shape != B.shape:
            return self._fail(label, f"shape {A.shape} should be {B.shape}")
        bad = A != B
        if margin is not None:
            m = np.abs(self._np(margin() if callable(margin) else margin))
            bad = bad & (m > (1e-7 if self.dname == "float64" else 1e-3))
        if bad.any():
            k = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
            self._fail(label, f"at {list(map(int, k))}: got {bool(A[k])}, contract says {bool(B[k])}")

    def lemma(self, label, c, using=None, gen=()):
        pass

    def member(self, label, rows, target):
        self.checked += 1
        t = [int(x) for x in target]
        if t not in self._np(rows).astype(int).tolist():
            self._fail(label, f"{t} is missing")

    def no_duplicates(self, label, rows):
        self.checked += 1
        r = self._np(rows)
        if len(np.unique(r, axis=0)) != len(r):
            self._fail(label, "a row occurs twice")

    def dtype_is(self, label, t, ref=None):
        want = ref.dtype if ref is not None else self.dtype
        if t.dtype != want:
            self._fail(label + " dtype", f"{t.dtype} should be {want}")

    def end(self):
        for n, s in self.snap.items():
            if n in self.unit.modifies:
                continue
            t = self.inputs[n]
            if t.shape != s.shape or not self.T.equal(self.T.nan_to_num(t), self.T.nan_to_num(s)):
                self._fail(f"input {n} left unchanged", "the call modified its argument")

    def record(self):
        d = {}
        for n, t in self.inputs.items():
            if isinstance(t, self.T.Tensor):
                d[n] = self.snap[n].tolist() if n in self.snap else t.tolist()
            else:
                d[n] = t
        return d


# ================================================================= running
class ObRes:
    __slots__ = ("unit", "params", "label", "status", "how", "env", "detail", "valid")

    def __init__(self, unit, params, label, status, how="", env=None, detail="", valid=None):
        self.unit, self.params, self.label, self.status, self.how = unit, params, label, status, how
        self.env, self.detail, self.valid = env, detail, valid


def verify(u, params, deadline):
    """symbolic reading of one unit -> list of ObRes"""
    out = []
    ldr = Loader({k: f for k, f in u.overrides.items()}, u.loops)
    pv.TIMEOUT[0] = u.timeout
    pv.DEADLINE[0] = deadline
    shim._sels.clear()
    shim.BRANCH[0] = bool(u.kw.get('branch_masks'))

    def run():
        v = Sym(ldr, u)
        CUR[0] = v
        try:
            u.body(v, **params)
            v.end()
        except (PathEnd, Unsupported, pv.OutOfTime):
            raise
        except NotImplementedError:
            raise
        except Exception as e:  # the code under verification raised
            tb = traceback.format_exc(limit=-6)
            if os.environ.get("VC_DEBUG"):
                print(tb)
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if isinstance(e, (AttributeError, KeyError, TypeError, NameError, AssertionError, RecursionError)) and os.sep + "vc" + os.sep in last:
                raise Unsupported(f"inside the symbolic torch: {type(e).__name__}: {str(e)[:160]}")
            pathm.cur().obligations.append((list(pathm.cur().pc), tm.FALSE, f"no exception ({type(e).__name__}: {str(e)[:160]})"))
            v.tb = tb
        return v

    try:
        # constant module data is computed while loading (no exploration)
        for f in u.fns:
            ldr.load(f.split(":")[0])
        res = pathm.run_all(run, deadline=deadline, maxpaths=u.kw.get("maxpaths", 4000))
    except Unsupported as e:
        return [ObRes(u.name, params, "symbolic execution", "unsupported", detail=str(e))], 0
    except pv.OutOfTime:
        return [ObRes(u.name, params, "symbolic execution", "unknown", detail="out of time")], 0
    except NotImplementedError as e:
        return [ObRes(u.name, params, "symbolic execution", "unsupported", detail="not implemented: " + str(e))], 0
    npaths = len(res)
    if npaths == 0:
        return [ObRes(u.name, params, "some path is feasible", "unknown", detail="no feasible path")], 0
    for p, v in res:
        seen = set()
        for hyps, goal, label in p.obligations:
            key = (tuple(h.id for h in hyps), goal.id, label if goal is tm.TRUE else None)
            if key in seen:
                continue
            seen.add(key)
            try:
                r = pv.prove_top(hyps, goal, v.rules)
            except pv.OutOfTime:
                out.append(ObRes(u.name, params, label, "unknown", detail="out of time"))
                continue
            except (RecursionError, MemoryError) as e:
                out.append(ObRes(u.name, params, label, "unknown", detail=type(e).__name__))
                continue
            env = r.model
            valid = None
            if r.status == "refuted":
                valid = validate(hyps, goal, env)
            out.append(ObRes(u.name, params, label, r.status, r.how, env, tm.show(goal)[:300], valid))
    return out, npaths


def validate(hyps, goal, env):
    """does the countermodel make the hypotheses true and the goal false in exact semantics (numerically)?"""
    import mpmath

    with mpmath.workdps(30):
        e = {}
        for t in tm.free_vars(tm.and_(goal, *hyps)):
            if t.op == "bvar":
                return None
            if t.val not in (env or {}):
                return None
            e[t.val] = mpmath.mpf(env[t.val])
        try:
            for h in hyps:
                if not tm.evaluate(h, e, mpmath, tie=1e-9):
                    return False
        except tm.Undefined:
            return False
        except Exception:
            return None
        try:
            g = tm.evaluate(goal, e, mpmath, tie=1e-7)
        except tm.Undefined:
            return True
        except Exception:
            return None
        return not g


def env_to_inputs(v_inputs_spec, env):
    """group symbol values name_i_j back into arrays"""
    d = {}
    for k, val in env.items():
        if k.startswith("N_") or "!" in k:
            continue
        parts = k.split("_")
        # name may itself contain underscores only if followed by non digits
        i = len(parts)
        while i > 1 and parts[i - 1].isdigit():
            i -= 1
        d.setdefault("_".join(parts[:i]), {})[tuple(int(z) for z in parts[i:])] = val
    out = {}
    for n, m in d.items():
        if list(m) == [()]:
            out[n] = m[()]
            continue
        nd = max(len(k) for k in m)
        sh = [max(k[j] for k in m if len(k) == nd) + 1 for j in range(nd)]
        a = np.zeros(sh)
        for k, x in m.items():
            a[k] = x
        out[n] = a
    return out


def execute(u, params, seed, dtype="float64", sizes=None, given=None):
    """concrete reading once -> Conc"""
    rng = np.random.default_rng(seed)
    import torch

    torch.manual_seed(int(seed) % (2**31))
    c = Conc(u, rng, dtype, dict(sizes or {}), given)
    try:
        u.body(c, **params)
        c.end()
    except PathEnd:
        pass
    except Exception as e:
        tb = traceback.format_exc(limit=-3)
        c._fail("no exception", f"{type(e).__name__}: {str(e)[:300]}")
        c.tb = tb
    return c
