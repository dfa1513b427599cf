"""C12 grids and samplers of the sphere and of the rotations"""
import math
from vc.contract import unit
from .spec import *

S = "ebsdtorch.s2_and_so3.sampling:"
F = "ebsdtorch.s2_and_so3.laue_fz_ori:"
META = dict(level="proof")
A = math.pi ** (2 / 3) / 2


def cpu(v):
    return v.T.device("cpu")


def count(v, name):
    """any number of points from 2"""
    z = v.real(name, ["n"])
    v.require(v.T.as_tensor(z.shape[0]) >= 2) if v.sym else None
    return z.shape[0]


@unit("C12", "Fibonacci points of the sphere", [S + "s2_fibonacci"], params=[dict(mode=m) for m in ("avg", "max")])
def _(v, mode):
    """any number of points: unit vectors at the heights of the (offset) Fibonacci lattice"""
    T = v.T
    n = count(v, "z")
    p = v.fn(S + "s2_fibonacci")(n, cpu(v), mode)
    v.eq("number of points", p.shape[0], n)
    v.eq("unit vectors", sq(p), T.ones_like(p[:, 0]))
    i = T.arange(n, dtype=T.float64)
    e = 0.36 if mode == "avg" else None
    if e is not None:
        v.eq("height", p[:, 2], 1 - 2 * (i + e) / (n - 1 + 2 * e))


@unit("C12", "super-Fibonacci rotations", [S + "so3_fibonacci"])
def _(v):
    T = v.T
    n = count(v, "z")
    q = v.fn(S + "so3_fibonacci")(n, cpu(v))
    v.eq("number of points", q.shape[0], n)
    i = T.arange(n, dtype=T.float64)
    t = (i + 0.5) / n
    v.eq("radius of the first pair", sq(q[:, :2]), t)
    # (together: unit quaternions)
    v.eq("radius of the second pair", sq(q[:, 2:]), 1 - t)


@unit("C12", "uniform quaternions", [S + "so3_uniform_quat"])
def _(v):
    T = v.T
    n = count(v, "z")
    q = v.fn(S + "so3_uniform_quat")(n, cpu(v))
    v.eq("number of points", q.shape[0], n)
    v.eq("unit quaternions", sq(q), T.ones_like(q[:, 0]), tol=1e-5)


def _cu2qu(orig):
    def f(c):
        from vc.contract import CUR

        v = CUR[0]
        v.holds("precondition of cu2qu: a point of the cube", (c * 2 <= v.T.pi ** (2 / 3)) & (-c * 2 <= v.T.pi ** (2 / 3)))
        q = v.havoc(c.axes[:-1], [4], c.dtype)
        v.require(sq(q) == 1.0)
        return q

    return f


@unit("C12", "random cubochoric rotations", [S + "so3_cu_rand"], overrides={(S[:-1], "cu2qu"): _cu2qu})
def _(v):
    T = v.T
    n = count(v, "z")
    q = v.fn(S + "so3_cu_rand")(n, cpu(v))
    v.eq("number of points", q.shape[0], n)
    v.eq("unit quaternions", sq(q), T.ones_like(q[:, 0]), tol=1e-5)
    v.holds("positive real part", q[:, 0] >= 0)


@unit("C12", "cubochoric grid", [S + "so3_cubochoric_grid"], overrides={(S[:-1], "cu2qu"): _cu2qu}, modes=("sym",), params=[dict(n=n) for n in range(1, 6)])
def _(v, n):
    T = v.T
    q = v.fn(S + "so3_cubochoric_grid")(n, cpu(v))
    v.holds("number of points", tuple(q.shape) == (n**3, 4))
    v.eq("unit quaternions", sq(q), T.ones_like(q[:, 0]), tol=1e-5)
    v.holds("positive real part", q[:, 0] >= 0)


# ------------------------------------------------------------------ executed
@unit("C12", "spirals", [S + "s2_fibonacci", S + "so3_fibonacci"], modes=("conc",), nsamp=30, bounded="0 to 2000 points, and every change of the offset of the lattice")
def _(v):
    T = v.T
    n = v.pyint("n", 0, 2000, special=(0, 1, 2, 23, 24, 25, 176, 177, 178, 889, 890, 891, 10999, 11000, 11001))
    i = T.arange(n, dtype=T.float64)
    g = (1 + math.sqrt(5)) / 2
    for mode in ("avg", "max"):
        e = 0.36 if mode == "avg" else 0.33 if n < 24 else 1.33 if n < 177 else 3.33 if n < 890 else 10.0 if n < 11000 else 27.0
        p = v.fn(S + "s2_fibonacci")(n, cpu(v), mode)
        z = 1 - 2 * (i + e) / (n - 1 + 2 * e)
        a = 2 * math.pi * i / g
        r = T.sqrt(1 - z * z)
        v.holds("shape", tuple(p.shape) == (n, 3))
        v.eq("Fibonacci lattice", p, T.stack([r * T.cos(a), r * T.sin(a), z], -1), tol=1e-8)
    q = v.fn(S + "so3_fibonacci")(n, cpu(v))
    v.holds("shape of the rotations", tuple(q.shape) == (n, 4))
    t = (i + 0.5) / max(n, 1)
    a, b = 2 * math.pi * (i + 0.5) / math.sqrt(2), 2 * math.pi * (i + 0.5) / 1.533751168755204288118041
    r, R = T.sqrt(t), T.sqrt(1 - t)
    v.eq("super-Fibonacci spiral", q, T.stack([r * T.sin(a), r * T.cos(a), R * T.sin(b), R * T.cos(b)], -1), tol=1e-8)
    try:
        v.fn(S + "s2_fibonacci")(max(n, 2), cpu(v), "other")
        v.holds("unknown mode is refused", False)
    except Exception:
        pass


def uniform(v, q, signs):
    """moments of the uniform distribution on the unit quaternions, to five standard deviations"""
    T = v.T
    q = q.double()
    n = len(q)

    def mean(label, x, want, var):
        v.le(label, (x.mean() - want).abs(), 5.5 * math.sqrt(var / n))

    for i in range(4):
        mean(f"second moment {i}", q[:, i] ** 2, 1 / 4, 1 / 8 - 1 / 16)
        mean(f"fourth moment {i}", q[:, i] ** 4, 1 / 8, 7 / 128 - 1 / 64)
        if signs or i:
            mean(f"mean {i}", q[:, i], 0.0, 1 / 4)
        for j in range(i):
            mean(f"covariance {j}{i}", q[:, i] ** 2 * q[:, j] ** 2, 1 / 24, 1 / 240)
            if signs or j:
                mean(f"correlation {j}{i}", q[:, i] * q[:, j], 0.0, 1 / 24)
                mean(f"third {j}{i}", q[:, i] ** 3 * q[:, j], 0.0, 1 / 60)


@unit("C12", "random rotations", [S + "so3_uniform_quat", S + "so3_cu_rand"], modes=("conc",), nsamp=6, bounded="moments of 40000 random rotations per sample (fixed seeds)")
def _(v):
    T = v.T
    T.manual_seed(v.pyint("seed", 0, 10**6))
    m = v.pyint("m", 0, 50, special=(0, 1))
    n = 40000
    for d in (T.float32, T.float64):
        q = v.fn(S + "so3_uniform_quat")(n, cpu(v), d)
        v.holds("shape", tuple(q.shape) == (n, 4) and q.dtype == d)
        v.le("unit quaternions", (q.double().norm(dim=-1) - 1).abs(), 1e-5)
        uniform(v, q, True)
        v.holds("count", tuple(v.fn(S + "so3_uniform_quat")(m, cpu(v), d).shape) == (m, 4))
    q = v.fn(S + "so3_cu_rand")(n, cpu(v))
    v.holds("shape", tuple(q.shape) == (n, 4))
    v.le("unit quaternions", (q.double().norm(dim=-1) - 1).abs(), 1e-5)
    v.holds("positive real part", (q[:, 0] >= 0).all())
    uniform(v, q, False)
    v.holds("count", tuple(v.fn(S + "so3_cu_rand")(m, cpu(v)).shape) == (m, 4))


def ideal_grid(v, n):
    """rotations of the points -A + 2 A i / n of the cube, i < n, by the published maps"""
    from .c03 import cube_to_ball

    T = v.T
    t = -A + 2 * A * T.arange(n, dtype=T.float64) / max(n, 1)
    c = T.stack(T.meshgrid(t, t, t, indexing="ij"), -1).reshape(-1, 3)
    h = cube_to_ball(v, c)
    r = h.norm(dim=-1)
    lo, hi = T.zeros_like(r), T.full_like(r, math.pi)
    for _ in range(60):
        mid = (lo + hi) / 2
        up = (0.75 * (mid - T.sin(mid))) ** (1 / 3) < r
        lo, hi = T.where(up, mid, lo), T.where(up, hi, mid)
    return T.cat([T.cos(lo / 2)[:, None], h / r.clamp(min=1e-30)[:, None] * T.sin(lo / 2)[:, None]], -1)


def same_rotations(v, label, p, q, tol):
    """the two lists hold the same rotations, each as often"""
    T = v.T
    v.holds(label + ": count", len(p) == len(q))
    if len(p) and len(p) == len(q):
        m, j = (p.double() @ q.double().T).abs().max(dim=1)
        v.le(label + ": member", 1 - m, tol)
        v.holds(label + ": each once", len(set(j.tolist())) == len(p))


@unit("C12", "cubochoric grid of all edge lengths", [S + "so3_cubochoric_grid"], modes=("conc",), params=[dict(n=n) for n in list(range(0, 13)) + [17]], nsamp=1, bounded="edge lengths 0 to 12 and 17")
def _(v, n):
    T = v.T
    q = v.fn(S + "so3_cubochoric_grid")(n, cpu(v))
    v.holds("shape", tuple(q.shape) == (n**3, 4))
    if n == 0:
        return
    v.le("unit quaternions", (q.double().norm(dim=-1) - 1).abs(), 2e-6)
    v.holds("positive real part", (q[:, 0] >= 0).all())
    same_rotations(v, "evenly spaced points of the cube", q, ideal_grid(v, n), 1e-9)
    same_rotations(v, "inversion", q, q * T.tensor([1.0, -1, -1, -1]), 1e-9)


def rotations(v, laue):
    """the proper rotations of a Laue class: products of its generators"""
    T = v.T
    z = lambda n: [math.cos(math.pi / n), 0.0, 0.0, math.sin(math.pi / n)]
    x, d = [0.0, 1.0, 0.0, 0.0], [0.5, 0.5, 0.5, 0.5]
    g = {1: [], 2: [z(2)], 3: [z(2), x], 4: [z(4)], 5: [z(4), x], 6: [z(3)], 7: [z(3), x], 8: [z(6)], 9: [z(6), x], 10: [z(2), x, d], 11: [z(4), x, d]}[laue]
    out = [T.tensor([1.0, 0, 0, 0], dtype=T.float64)]
    k = 0
    while k < len(out):
        for h in g:
            p = hamilton(v, out[k], T.tensor(h, dtype=T.float64))
            if all(abs(float((p * o).sum())) < 1 - 1e-9 for o in out):
                out.append(p)
        k += 1
    return T.stack(out)


@unit("C12", "samples of a fundamental zone", [F + "sample_ori_fz_laue", F + "sample_ori_fz_laue_angle"], modes=("conc",), params=[dict(laue=i) for i in range(1, 12)], nsamp=4,
      bounded="up to 5000 rotations before reduction")
def _(v, laue):
    """the points of the cubochoric grid inside the zone, and all of them"""
    T = v.T
    G = rotations(v, laue)
    mult = len(G)
    perm = v.pyint("perm", 0, 1) == 1
    k = v.pyint("k", 1, 17)
    target = v.pyint("target", 1, max(1, 5000 // mult))
    # the angle of a grid with an edge of about 2 to 17 points
    edge = v.pyreal("edge", 1.2, 16.9)
    deg = 0.03732 + 2 * 131.97049 / (max(edge * mult ** (1 / 3) - 1, 0.2))
    for how in ("count", "angle", "cube"):
        if how == "count":
            q = v.fn(F + "sample_ori_fz_laue")(laue, target, cpu(v), perm)
            n = int((target * mult) ** (1 / 3) + 1e-6)
        elif how == "angle":
            q = v.fn(F + "sample_ori_fz_laue_angle")(laue, deg, cpu(v), perm)
            n = int((((2 * 131.97049) / (deg - 0.03732) + 1) ** 3 / mult) ** (1 / 3) + 1.0)
        else:
            if k**3 % mult:
                continue
            q = v.fn(F + "sample_ori_fz_laue")(laue, k**3 // mult, cpu(v), perm)
            n = k
        v.holds("shape", q.ndim == 2 and q.shape[1] == 4)
        v.le("unit quaternions", (q.double().norm(dim=-1) - 1).abs(), 2e-6)
        v.holds("positive real part", (q[:, 0] >= 0).all())
        g = ideal_grid(v, n)
        # distance of the real part to the largest one of the equivalents
        e = hamilton(v, g[:, None, :], G[None]).select(-1, 0).abs().amax(-1) - g[:, 0].abs()
        inside, edge = e < -1e-5, e.abs() <= 1e-5
        m = (q.double() @ g.T).abs()
        if len(q):
            best, j = m.max(dim=1)
            v.le("points of the grid", 1 - best, 1e-9)
            v.holds("inside the zone", (e[j] <= 1e-5).all())
            v.holds("each once", len(set(j.tolist())) == len(q))
            got = T.zeros(len(g), dtype=T.bool)
            got[j] = True
        else:
            got = T.zeros(len(g), dtype=T.bool)
        deep = second_best(v, g, G) > 1e-5
        v.holds("all points inside the zone", got[deep & (e <= 1e-5)].all())


def second_best(v, g, G):
    """how far the real part is above that of the other equivalents"""
    T = v.T
    r = hamilton(v, g[:, None, :], G[None]).select(-1, 0).abs()
    if r.shape[1] == 1:
        return T.ones(len(g), dtype=r.dtype)
    s = r.sort(dim=1, descending=True)[0]
    return s[:, 0] - s[:, 1]
