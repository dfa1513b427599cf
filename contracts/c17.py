"""C17 reflection list: complete and sound down to the resolution limit"""
import contextlib
import io
import itertools
import math
import numpy as np
from vc.contract import unit
from .spec import *
from .c15 import CENTRING
from .c16 import _frame, cart, M, N, make, cross3

META = dict(level="proof")
# centring letters of the International Tables
_R = lambda *a: {n for x in a for n in (range(x[0], x[1] + 1) if isinstance(x, tuple) else [x])}
LATTICE = {
    "C": _R(5, 8, 9, 12, 15, 20, 21, (35, 37), (63, 68)),
    "A": _R((38, 41)),
    "I": _R(23, 24, (44, 46), (71, 74), 79, 80, 82, 87, 88, 97, 98, (107, 110), (119, 122), (139, 142), 197, 199, 204, 206, 211, 214, 217, 220, 229, 230),
    "F": _R(22, 42, 43, 69, 70, 196, 202, 203, 209, 210, 216, 219, (225, 228)),
    "R": _R(146, 148, 155, 160, 161, 166, 167),
}
REP = dict(P=2, F=225, I=229, A=38, C=5, R=166)


def letter(n):
    return next((k for k, s in LATTICE.items() if n in s), "P")


def allowed(v, g, lat):
    """g . c is an integer for every centring vector c"""
    r = g[..., 0] == g[..., 0]
    for c in CENTRING[lat]:
        d = [z // 4 for z in c]  # in sixths
        s = sum(g[..., i] * d[i] for i in range(3))
        r = r & ((s % 6) == 0)
    return r


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@unit("C17", "is_g_allowed", [M + "Cell.is_g_allowed"], params=[dict(first=f, last=f + 22, ax=r["ax"]) for r in RANKS for f in range(1, 231, 23)])
def _(v, first, last, ax):
    """every space group, any integer indices: allowed exactly when no centring translation gives a phase"""
    g = v.integer("g", ax + [3], -30, 30) if not v.sym else v.integer("g", ax + [3])
    C = v.fn(M + "Cell")
    for n in range(first, last + 1):
        cell = C.__new__(C)
        cell.sg_num = n
        v.iff(f"space group {n} ({letter(n)})", quiet(cell.is_g_allowed, g), allowed(v, g, letter(n)))


def gsq(cell, S, R, g):
    return sq(cart(cell, S, R, g, "r"))


@unit("C17", "get_hkl_limits", [M + "Cell.get_hkl_limits"], nsamp=4)
def _(v):
    """any cell, any limit: an integer point with |g| <= 1/dmin has indices within the limits (Lagrange: a^2 |g|^2 - h^2 = |a x g|^2)"""
    cell, S, R = _frame(v, "r")
    dmin = v.pyreal("dmin", 0, lo_open=True) if v.sym else v.pyreal("dmin", 0.05, 0.7)
    T = v.T
    lim = cell.get_hkl_limits(dmin)
    v.holds("three limits", len(lim) == 3)
    if v.sym:
        g = v.integer("g", [3])
        f = g.to(T.float64)
        G = cart(cell, S, R, f, "r")
        near = sq(G) * dmin * dmin <= 1
        v.require(near)
        for i in range(3):
            ai = S[:, i]
            A, Q, W, e = sq(ai), sq(G), sq(cross3(v, ai, G)), (cell.a, cell.b, cell.c)[i]
            v.lemma(f"edge {i}", (e * e == A) & (e >= 0))
            v.lemma(f"squares {i}", (A >= 0) & (W >= 0))
            v.lemma(f"Lagrange {i}", A * Q - f[i] * f[i] == W)
            v.lemma(f"index {i} squared", f[i] * f[i] * dmin * dmin <= A, [A * Q - f[i] * f[i] == W, A >= 0, W >= 0, near], [A, Q, W])
            v.lemma(f"index {i} bound", (f[i] <= e / dmin) & (-f[i] <= e / dmin), [f[i] * f[i] * dmin * dmin <= A, e * e == A, e >= 0, near, dmin > 0], [A, e, Q])
            v.le(f"index {i} at most the limit", f[i], v.const(0.0) + lim[i], slack=0)
            v.le(f"index {i} at least minus the limit", -f[i], v.const(0.0) + lim[i], slack=0)
    else:
        r = max(int(3 / float(dmin)) + 1, 1)
        K = min(r, 30)
        pts = T.tensor(list(itertools.product(range(-K, K + 1), repeat=3)), dtype=T.float64)
        ok = gsq(cell, S, R, pts) * float(dmin) ** 2 <= 1
        m = pts[ok].abs().max(0).values
        for i in range(3):
            v.le(f"index {i} within the limit", m[i], v.const(float(lim[i])), slack=0)


CASES = [dict(lat=l, table=t, filt=f) for l in REP for t in (False, True) for f in (True, False) if f or l in "FP"]


@unit("C17", "get_reflections", [M + "Cell.get_reflections", M + "Cell.calc_length"], params=CASES, nsamp=2, budget=60, cbudget=60)
def _(v, lat, table, filt):
    """any cell and resolution limit, against the contracts of get_hkl_limits and is_g_allowed"""
    T = v.T
    cell, S, R = _frame(v, "r")
    cell.sg_num = REP[lat]
    if v.sym:
        dmin = v.pyreal("dmin", 0, lo_open=True)
        lim = [v.pyint(f"lim{i}", 0) for i in range(3)]
        cell.get_hkl_limits = lambda d: tuple(lim)
        t = v.integer("t", [3])
        real = cell.calc_length

        def length(p, s):
            positive(p)
            L = real(p, s)
            Q = sq(cart(cell, S, R, p.to(T.float64), "r"))
            v.lemma("length squared", L * L == Q)
            v.lemma("length at least 0", L >= 0)
            near, short = Q * dmin * dmin <= 1, L * dmin <= 1
            v.lemma("short exactly when the square is", (near & short) | (~near & ~short), [L * L == Q, L >= 0, dmin > 0], [L, Q])
            return L

        def positive(p):
            """the reciprocal structure matrix is lower triangular with positive diagonal, so only 0 has length 0"""
            f = p.to(T.float64)
            G = cart(cell, S, R, f, "r")
            z = (G[..., 0] == 0) & (G[..., 1] == 0) & (G[..., 2] == 0)
            v.lemma("no null vectors", ~z | ((f[..., 0] == 0) & (f[..., 1] == 0) & (f[..., 2] == 0)))
            v.lemma("only 0 has length 0", z | (sq(G) > 0), [], [G[..., i] for i in range(3)])

        cell.calc_length = length
        # contract of is_g_allowed, proved for every space group in unit is_g_allowed
        cell.is_g_allowed = lambda g: allowed(v, g, lat)
        inside = sq(cart(cell, S, R, t.to(T.float64), "r")) * dmin * dmin <= 1
        rows = cell.get_reflections(dmin, table, filt)
        v.no_duplicates("no reflection twice", rows)
        ok = allowed(v, rows, lat) if filt else rows[:, 0] == rows[:, 0]
        v.holds("allowed by the centring", ok)
        v.holds("the zero vector is excluded", (rows[:, 0] != 0) | (rows[:, 1] != 0) | (rows[:, 2] != 0))
        v.holds("three indices", len(rows.shape) == 2 and rows.shape[1] == 3)
        v.holds("integer indices", rows.dtype is T.int64)
        if not table:
            g = rows.to(T.float64)
            v.le("spacing at or above the limit", sq(cart(cell, S, R, g, "r")) * dmin * dmin, 1.0)
        # completeness
        cell.calc_length(t, "r")
        v.require((t[0] != 0) | (t[1] != 0) | (t[2] != 0))
        if filt:
            v.require(allowed(v, t, lat))
        if not table:
            v.require(inside)
        k = 2 if table else 1
        for i in range(3):
            v.require(t[i] <= k * lim[i])
            v.require(-t[i] <= k * lim[i])
        v.member("every qualifying point is listed", rows, t)
    else:
        dmin = v.pyreal("dmin", 0.25, 0.7)
        r = quiet(cell.get_reflections, dmin, table, filt)
        check_list(v, cell, S, R, r, lat, dmin, table, filt)


def check_list(v, cell, S, R, r, lat, dmin, table, filt, tag=""):
    T = v.T
    rows = r.tolist()
    have = set(map(tuple, rows))
    v.holds(tag + "no reflection twice", len(have) == len(rows))
    v.holds(tag + "the zero vector is excluded", (0, 0, 0) not in have)
    e = [float(x) for x in (cell.a, cell.b, cell.c)]
    K = [int(math.floor(x / dmin)) + 1 for x in e]
    pts = T.tensor(list(itertools.product(*[range(-2 * k, 2 * k + 1) for k in K])), dtype=T.int64)
    g2 = gsq(cell, S, R, pts.to(T.float64)) * float(dmin) ** 2
    al = allowed(v, pts, lat) if filt else T.ones(len(pts), dtype=T.bool)
    nz = (pts != 0).any(-1)
    if table:
        # differences of two qualifying points
        lim = [max(abs(p[i]) for p in pts[g2 <= 1 - 1e-9].tolist()) for i in range(3)]
        want = {tuple(p) for p in pts[al & nz].tolist() if all(abs(p[i]) <= 2 * lim[i] for i in range(3))}
        v.holds(tag + "every difference of qualifying points is listed", want <= have)
        ok = allowed(v, r, lat) if filt else T.ones(len(r), dtype=T.bool)
        v.holds(tag + "allowed by the centring", bool(ok.all()))
    else:
        sure = {tuple(p) for p in pts[al & nz & (g2 <= 1 - 1e-9)].tolist()}
        may = {tuple(p) for p in pts[al & nz & (g2 <= 1 + 1e-9)].tolist()}
        v.holds(tag + "every qualifying point is listed", sure <= have)
        v.holds(tag + "nothing else is listed", have <= may)


@unit("C17", "cells_of_every_centring", [M + "Cell.get_reflections", M + "Cell.__init__"], params=[dict(n=n) for n in (2, 5, 12, 38, 63, 69, 72, 142, 146, 166, 194, 225, 227, 229)], modes=("conc",), nsamp=2,
      bounded="random cells of 14 space groups, constructed through Cell()")
def _(v, n):
    r = v.rng
    a, b, c = [float(x) for x in r.uniform(0.3, 0.7, size=3)]
    if n <= 2:
        ang = [float(x) for x in r.uniform(70, 110, size=3)]
    elif n <= 15:
        ang = [90.0, float(r.uniform(70, 110)), 90.0]
    elif n in (146, 166, 194):
        ang, b = [90.0, 90.0, 120.0], a
    else:
        ang = [90.0] * 3
        if n > 74:
            b = a
        if n > 194:
            c = a
    cell = quiet(v.fn(M + "Cell"), n, [(14, 0.1, 0.2, 0.3, 1.0, 0.005)], (a, b, c), "nm", tuple(ang), "deg")
    dmin = float(r.uniform(0.12, 0.4))
    for table in (False, True):
        check_list(v, cell, cell.dsm, cell.rsm, quiet(cell.get_reflections, dmin, table), letter(n), dmin, table, True, f"{n} dmin {dmin:.3f} table {table}: ")
