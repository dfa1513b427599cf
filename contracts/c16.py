"""C16 unit cell metrics, bases and component changes"""
import math
import types
from vc.contract import unit
from .spec import *

N = "ebsdtorch.crystallography.unit_cell"
M = N + ":"
META = dict(level="proof")


def _one_op(orig):
    """sg_operators under contract (C15): here any cell is in space group 1"""

    def f(sg, setting=1, *a):
        from vc import shim

        return shim.torch.eye(4, dtype=shim.float64).unsqueeze(0)

    return f


OV = {(N, "sg_operators"): _one_op}


def params(v, deg=False, units="nm"):
    """a valid cell: positive edges, angles whose cosines satisfy the Gram determinant condition"""
    pi = 180.0 if deg else (v.T.pi if v.sym else math.pi)
    if v.sym:
        abc = [v.pyreal(x, 0, lo_open=True) for x in ("a", "b", "c")]
        ang = [v.pyreal(x, 0, pi, lo_open=True, hi_open=True) for x in ("alpha", "beta", "gamma")]
        return abc, ang
    k = {"nm": 1, "angstrom": 10, "pm": 1000}[units]
    abc = [v.pyreal(x, 0.2 * k, 2.0 * k) for x in ("a", "b", "c")]
    r = v.rng
    for _ in range(1000):
        ang = [float(r.choice([math.pi / 2, 2 * math.pi / 3, math.pi / 3])) if r.random() < 0.3 else float(r.uniform(0.5, 2.4)) for _ in range(3)]
        if gram([math.cos(x) for x in ang]) > 0.02:
            break
    if "alpha" in v.given:
        ang = [float(v.given[k]) / (180 / math.pi if deg else 1) for k in ("alpha", "beta", "gamma")]
        v.require(gram([math.cos(x) for x in ang]) > 1e-3)
    if deg:
        ang = [math.degrees(x) for x in ang]
    v.inputs.update(alpha=ang[0], beta=ang[1], gamma=ang[2])
    return abc, ang


def gram(c):
    return 1 + 2 * c[0] * c[1] * c[2] - c[0] * c[0] - c[1] * c[1] - c[2] * c[2]


def make(v, sg=1, deg=False, units="nm", atoms=((14, 0.1, 0.2, 0.3, 1.0, 0.005),), setting=1):
    abc, ang = params(v, deg, units)
    T = v.T
    if v.sym:
        k = math.pi / 180 if deg else 1
        t = [v.const(0.0) + x for x in ang]
        if deg:
            t = [x * T.pi / 180 for x in t]
        cs = [T.cos(x) for x in t]
        v.require(gram(cs) > 0)
        for x in t:
            v.require(T.sin(x) > 0)
        f = {"nm": 1.0, "angstrom": 0.1, "pm": 1e-3}[units]
        # the constructor refuses tiny cells
        vol2 = gram(cs)
        for x in abc:
            vol2 = vol2 * (x * f) * (x * f)
        v.require(vol2 >= 1e-12)
    cell = v.fn(M + "Cell")(sg, list(atoms), tuple(abc), units, tuple(ang), "deg" if deg else "rad", setting)
    return cell, abc, ang


@unit("C16", "metric", [M + "Cell.__init__"], params=[dict(units=u, deg=d) for u in ("nm", "angstrom", "pm") for d in (False, True)], overrides=OV, nsamp=3)
def _(v, units, deg):
    cell, abc, ang = make(v, units=units, deg=deg)
    T = v.T
    f = {"nm": 1.0, "angstrom": 0.1, "pm": 1e-3}[units]
    a, b, c = [v.const(0.0) + x * f for x in abc]
    t = [v.const(0.0) + x for x in ang]
    if deg:
        t = [x * T.pi / 180 for x in t]
    ca, cb, cg = [T.cos(x) for x in t]
    G = T.stack([T.stack([a * a, a * b * cg, a * c * cb]), T.stack([a * b * cg, b * b, b * c * ca]), T.stack([a * c * cb, b * c * ca, c * c])])
    v.eq("metric tensor of the cell parameters", cell.dmt, G)
    v.eq("volume is the root of the determinant", cell.vol * cell.vol, a * a * b * b * c * c * gram([ca, cb, cg]))
    v.le("positive volume", 0.0, cell.vol)
    v.eq("reciprocal metric is the inverse", matmul(cell.dmt, cell.rmt), T.eye(3, dtype=T.float64))
    v.eq("direct structure matrix factors the metric", matmul(cell.dsm.transpose(-1, -2), cell.dsm), G)
    v.eq("reciprocal structure matrix is dual to the direct one", matmul(cell.dsm.transpose(-1, -2), cell.rsm), T.eye(3, dtype=T.float64))
    v.eq("reciprocal structure matrix factors the reciprocal metric", matmul(cell.rsm.transpose(-1, -2), cell.rsm), cell.rmt)
    for k in ("dmt", "rmt", "dsm", "rsm", "vol"):
        v.dtype_is(k, getattr(cell, k), G)


def _frame(v, primal="d"):
    """a Cell known only through its invariant: dmt = S'S, dsm = S, rsm = R with R'S = 1, rmt = R'R, vol = det S > 0
    (proved in unit metric).  S is upper and R lower triangular; either may be taken as the free one."""
    C = v.fn(M + "Cell")
    T = v.T
    if v.sym:
        a11, a22, a33 = [v.real(f"m{i}{i}", [], 0, lo_open=True) for i in (1, 2, 3)]
        a12, a13, a23 = [v.real(f"m{i}{j}", []) for i, j in ((1, 2), (1, 3), (2, 3))]
    else:
        a11, a22, a33 = [v.real(f"m{i}{i}", [], 0.3, 2.0) for i in (1, 2, 3)]
        a12, a13, a23 = [v.real(f"m{i}{j}", [], -0.7, 0.7) for i, j in ((1, 2), (1, 3), (2, 3))]
    z = a11 * 0
    if primal != "r":
        S = T.stack([T.stack([a11, a12, a13]), T.stack([z, a22, a23]), T.stack([z, z, a33])])
        I = T.stack([T.stack([1 / a11, -a12 / (a11 * a22), (a12 * a23 - a13 * a22) / (a11 * a22 * a33)]), T.stack([z, 1 / a22, -a23 / (a22 * a33)]), T.stack([z, z, 1 / a33])])
        R, vol = I.transpose(-1, -2), a11 * a22 * a33
    else:
        R = T.stack([T.stack([a11, z, z]), T.stack([a12, a22, z]), T.stack([a13, a23, a33])])
        I = T.stack([T.stack([1 / a11, z, z]), T.stack([-a12 / (a11 * a22), 1 / a22, z]), T.stack([(a12 * a23 - a13 * a22) / (a11 * a22 * a33), -a23 / (a22 * a33), 1 / a33])])
        S, vol = I.transpose(-1, -2), 1 / (a11 * a22 * a33)
    cell = C.__new__(C)
    cell.dsm, cell.rsm = S, R
    cell.dmt = matmul(S.transpose(-1, -2), S)
    cell.rmt = matmul(R.transpose(-1, -2), R)
    cell.vol = vol
    cell.a = T.sqrt(cell.dmt[0, 0])
    cell.b = T.sqrt(cell.dmt[1, 1])
    cell.c = T.sqrt(cell.dmt[2, 2])
    cell.device = T.device("cpu")
    return cell, S, R


def cart(cell, S, R, p, space):
    return p if space == "c" else matvec(S if space == "d" else R, p)


def cross3(v, a, b):
    return v.T.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2], a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], dim=-1)


SP = "drc"
PAIRS = [dict(i=i, o=o, ax=r["ax"]) for i in SP for o in SP for r in RANKS]


@unit("C16", "transform_space", [M + "Cell.transform_space"], params=PAIRS)
def _(v, i, o, ax):
    cell, S, R = _frame(v)
    p = v.real("p", ax + [3])
    r = cell.transform_space(p, i, o)
    v.eq("same Cartesian vector", cart(cell, S, R, r, o), cart(cell, S, R, p, i))
    v.eq("inverse to each other", cell.transform_space(r, o, i), p)


@unit("C16", "dot_length", [M + "Cell.calc_dot", M + "Cell.calc_auto_dot", M + "Cell.calc_length", M + "Cell.norm_vec"], params=[dict(s=s, ax=r["ax"]) for s in SP for r in RANKS])
def _(v, s, ax):
    cell, S, R = _frame(v, s)
    p, q = v.real("p", ax + [3]), v.real("q", ax + [3])
    cp, cq = cart(cell, S, R, p, s), cart(cell, S, R, q, s)
    v.eq("dot product", cell.calc_dot(p, q, s), (cp * cq).sum(-1))
    v.eq("self dot product", cell.calc_auto_dot(p, s), sq(cp))
    l = cell.calc_length(p, s)
    v.le("length at least 0", 0.0, l)
    v.eq("squared length", l * l, sq(cp))
    n = cell.norm_vec(p, s)
    cn = cart(cell, S, R, n, s)
    if v.sym:
        v.holds("normalised vectors have unit length", (sq(cn) == 1) | (sq(cp) == 0))
    v.eq("normalised vectors keep their direction", n * l.unsqueeze(-1), p)


@unit("C16", "integer_length", [M + "Cell.calc_length"], params=[dict(s=s, ax=r["ax"]) for s in SP for r in RANKS])
def _(v, s, ax):
    cell, S, R = _frame(v, s)
    p = v.integer("p", ax + [3], -9, 9)
    l = cell.calc_length(p, s)
    f = p.to(v.T.float64)
    v.eq("squared length of integer indices", l * l, sq(cart(cell, S, R, f, s)))


@unit("C16", "angle", [M + "Cell.calc_angle"], params=[dict(s=s, ax=r["ax"]) for s in SP for r in RANKS],
      note="calc_angle is proved against the contracts of calc_dot and calc_length (units dot_length, cauchy_schwarz)")
def _(v, s, ax):
    cell, S, R = _frame(v, s)
    p, q = v.real("p", ax + [3]), v.real("q", ax + [3])
    if v.sym:
        x, y, z = v.real("x", ax), v.real("y", ax, 0, lo_open=True), v.real("z", ax, 0, lo_open=True)
        v.require(x * x <= y * y * z * z)
        cell.calc_dot = lambda a, b, c: x
        cell.calc_length = lambda a, c: y if a is p else z
    else:
        v.require(bool((sq(p) > 1e-6).all() and (sq(q) > 1e-6).all()))
        cp, cq = cart(cell, S, R, p, s), cart(cell, S, R, q, s)
        x, y, z = (cp * cq).sum(-1), v.T.sqrt(sq(cp)), v.T.sqrt(sq(cq))
    t = cell.calc_angle(p, q, s)
    v.le("angle at least 0", 0.0, t)
    v.le("angle at most pi", t, v.T.pi)
    v.eq("angle", v.T.cos(t) * y * z, x)


@unit("C16", "cauchy_schwarz", [M + "Cell.calc_dot", M + "Cell.calc_auto_dot"], params=[dict(s=s, ax=r["ax"]) for s in SP for r in RANKS])
def _(v, s, ax):
    """Lagrange's identity for the code's own dot product: (p.p)(q.q) - (p.q)^2 is a squared length, so calc_angle's precondition holds"""
    cell, S, R = _frame(v, s)
    p, q = v.real("p", ax + [3]), v.real("q", ax + [3])
    x = cell.calc_dot(p, q, s)
    w = cross3(v, cart(cell, S, R, p, s), cart(cell, S, R, q, s))
    v.eq("Lagrange identity", cell.calc_auto_dot(p, s) * cell.calc_auto_dot(q, s) - x * x, sq(w))


@unit("C16", "cross", [M + "Cell.calc_cross"], params=PAIRS)
def _(v, i, o, ax):
    cell, S, R = _frame(v)
    p, q = v.real("p", ax + [3]), v.real("q", ax + [3])
    want = cross3(v, cart(cell, S, R, p, i), cart(cell, S, R, q, i))
    r = cell.calc_cross(p, q, i, o, True)
    v.eq("cross product", cart(cell, S, R, r, o), want)
    u = cell.calc_cross(p, q, i, o, False)
    k = {"d": cell.vol, "r": 1 / cell.vol, "c": cell.vol / cell.vol}[i]
    v.eq("cross product without the volume factor", cart(cell, S, R, u, o) * k, want)


@unit("C16", "transform_coordinates", [M + "Cell.transform_coordinates"], params=[dict(s=s, ax=r["ax"]) for s in SP for r in RANKS])
def _(v, s, ax):
    """an orthogonal old-to-new matrix: directions transform by it, new-to-old undoes old-to-new"""
    cell, S, R = _frame(v)
    q = v.quat("q", [])
    A = quat_to_matrix(v, q)
    p = v.real("p", ax + [3])
    r = cell.transform_coordinates(p, A, s, "on")
    v.eq("old to new", r, matvec(A, p))
    v.eq("new to old undoes it", cell.transform_coordinates(r, A, s, "no"), p)


# standard atomic weights (rounded) of elements 1..94 with a stable or conventional value
WEIGHTS = dict(zip(range(1, 84), [
    1.008, 4.003, 6.94, 9.012, 10.81, 12.011, 14.007, 15.999, 18.998, 20.18, 22.99, 24.305, 26.982, 28.085, 30.974, 32.06, 35.45, 39.948, 39.098, 40.078,
    44.956, 47.867, 50.942, 51.996, 54.938, 55.845, 58.933, 58.693, 63.546, 65.38, 69.723, 72.63, 74.922, 78.97, 79.904, 83.798, 85.468, 87.62, 88.906, 91.224,
    92.906, 95.95, None, 101.07, 102.906, 106.42, 107.868, 112.414, 114.818, 118.71, 121.76, 127.6, 126.904, 131.293, 132.905, 137.327, 138.905, 140.116, 140.908, 144.242,
    None, 150.36, 151.964, 157.25, 158.925, 162.5, 164.93, 167.259, 168.934, 173.05, 174.967, 178.49, 180.948, 183.84, 186.207, 190.23, 192.217, 195.084, 196.967, 200.592,
    204.38, 207.2, 208.98]))


@unit("C16", "composition", [M + "Cell.__init__"], params=[dict(zs=z) for z in ((14,), (28, 26), (22, 8, 38), (6, 1))], overrides=OV, nsamp=2)
def _(v, zs):
    """one atom of each kind per cell, any occupancies"""
    T = v.T
    occ = [v.pyreal(f"occ{k}", 0.05, 1.0) for k in range(len(zs))]
    pos = [(0.11 + 0.07 * k, 0.23 + 0.05 * k, 0.31 + 0.03 * k) for k in range(len(zs))]
    cell = v.fn(M + "Cell")(1, [(z,) + p + (o, 0.005) for z, p, o in zip(zs, pos, occ)], (0.4, 0.5, 0.6), "nm", (1.4, 1.6, 1.5), "rad")
    w = v.mod(N).atomic_weights
    tot = sum(v.const(0.0) + o for o in occ)
    mass = sum((v.const(0.0) + o) * w[z - 1] for z, o in zip(zs, occ))
    v.eq("mean atomic number is the occupancy average", cell.average_atomic_number * tot, sum((v.const(0.0) + o) * float(z) for z, o in zip(zs, occ)))
    v.eq("mean atomic weight is the occupancy average", cell.average_atomic_weight * tot, mass)
    v.eq("density is mass per volume in g/cm^3", cell.density * cell.vol * 602.214076, mass, tol=1e-4)


@unit("C16", "atomic_weights", [M + "Cell.__init__"])
def _(v):
    w = v.numbers(v.mod(N).atomic_weights)
    for z, a in WEIGHTS.items():
        if a:
            v.holds(f"atomic weight of element {z}", abs(float(w[z - 1]) - a) < 0.02)


def orbit_size(W, t, x):
    import numpy as np

    p = (W @ np.array(x) + t) % 1.0
    seen = []
    for r in p:
        if not any(np.abs((r - s + 0.5) % 1.0 - 0.5).max() < 1e-6 for s in seen):
            seen.append(r)
    return seen


SITES = [(0.0, 0.0, 0.0), (0.5, 0.5, 0.5), (0.25, 0.25, 0.25), (0.13, 0.22, 0.37), (0.0, 0.5, 0.19), (0.21, 0.21, 0.21)]


@unit("C16", "orbits_and_density", [M + "Cell.__init__"], params=[dict(first=a) for a in range(1, 231, 30)], modes=("conc",), nsamp=1,
      note="multiplicities of sites under the real space group operators: executed for all 230 groups")
def _(v, first):
    import contextlib, io
    import numpy as np
    from .c14 import LAUE_OF, CLASSES
    from .c15 import TWO

    w = v.numbers(v.mod(N).atomic_weights)
    system = lambda n: next(k for k, m in enumerate((2, 15, 74, 142, 167, 194, 230), 1) if n <= m)
    for n in range(first, min(first + 30, 231)):
        abc, ang = ((0.4, 0.5, 0.6), (80.0, 100.0, 95.0)) if n <= 2 else ((0.4, 0.5, 0.6), (90.0, 100.0, 90.0)) if n <= 15 else ((0.4, 0.5, 0.6), (90.0,) * 3) if n <= 74 else \
            ((0.4, 0.4, 0.6), (90.0,) * 3) if n <= 142 else ((0.4, 0.4, 0.6), (90.0, 90.0, 120.0)) if n <= 194 else ((0.4,) * 3, (90.0,) * 3)
        for setting in (1, 2) if n in TWO else (1,):
            sites = [SITES[(n + k) % len(SITES)] for k in (0, 2, 3)]
            atoms = [(z,) + s + (o, 0.005) for z, s, o in zip((28, 13, 8), sites, (1.0, 0.7, 0.4))]
            with contextlib.redirect_stdout(io.StringIO()):
                cell = v.fn(M + "Cell")(n, atoms, abc, "nm", ang, "deg", setting)
                ops = v.fn("ebsdtorch.crystallography.groups:sg_operators")(n, setting).numpy()
            v.holds(f"{n}/{setting}: operators of the space group in the cell's setting", cell.sg_ops.shape == ops.shape and bool(np.abs(cell.sg_ops.numpy() - ops).max() < 1e-9))
            mult = []
            for i, s in enumerate(sites):
                o = orbit_size(ops[:, :3, :3], ops[:, :3, 3], s)
                mult.append(len(o))
                got = cell.apos[i].numpy()
                v.holds(f"{n}/{setting} site {s}: multiplicity {len(o)}", len(got) == len(o) and int(cell.mults[i]) == len(o))
                v.holds(f"{n}/{setting} site {s}: positions in [0, 1)", bool((got >= 0).all() and (got < 1).all()))
                v.holds(f"{n}/{setting} site {s}: every equivalent position is listed", all(min(np.abs((g - x + 0.5) % 1.0 - 0.5).max() for g in got) < 1e-6 for x in o))
            m = np.array(mult) * np.array([1.0, 0.7, 0.4])
            W = np.array([w[27], w[12], w[7]])
            v.eq(f"{n}/{setting} density", cell.density, v.const(float((m * W).sum() / (float(cell.vol) * 602.214076))))
            v.eq(f"{n}/{setting} mean atomic number", cell.average_atomic_number, v.const(float((m * np.array([28, 13, 8])).sum() / m.sum())))
            v.eq(f"{n}/{setting} mean atomic weight", cell.average_atomic_weight, v.const(float((m * W).sum() / m.sum())))
            v.holds(f"{n} Laue class", cell.laue_group == LAUE_OF[n][0])
            v.holds(f"{n} crystal system", cell.xtal_system == system(n))
            v.holds(f"{n} point group", cell.pg_num == 1 + [c[0] for c in CLASSES].index(LAUE_OF[n][1]))
            if cell.dsm2 is not None:
                v.eq(f"{n} second structure matrix factors the metric", cell.dsm2.T @ cell.dsm2, cell.dmt)
