"""C05 homochoric and cubochoric maps"""
import math
from vc.contract import unit
from .spec import *

M = "ebsdtorch.s2_and_so3.orientations:"
META = dict(level="proof")
TOL = dict(float64=1e-12, float32=2e-6)
A = math.pi ** (2 / 3) / 2
R = (0.75 * math.pi) ** (1 / 3)


def pyramid(v, x, y, z):
    """cube to ball of Rosca, Morawiec and De Graef (2014), for a point of the pyramid about +z with |x| <= |y| <= z
    after scaling by (pi/6)^(1/6)"""
    T = v.T
    pi = v.T.pi
    k = (pi / 6) ** (1 / 6)
    x, y, z = k * x, k * y, k * z
    g = pi * x / (12 * y)
    # curved square
    f = 2 ** 0.25 / (pi / 6) ** 0.5 * y / T.sqrt(2 ** 0.5 - T.cos(g))
    X, Y = f * 2 ** 0.5 * T.sin(g), f * (2 ** 0.5 * T.cos(g) - 1)
    q = X * X + Y * Y
    s = T.sqrt(1 - pi * q / (24 * z * z))
    return X * s, Y * s, (6 / pi) ** 0.5 * z - (pi / 24) ** 0.5 * q / z


@unit("C05", "cube to ball: one pyramid", [M + "cu2ho"], modes=("sym",))
def _(v):
    """0 < x < y < z: all other points by the symmetries proved below"""
    c = v.real("c", [3], 0.0, None, lo_open=True)
    v.require(c[0] < c[1])
    v.require(c[1] < c[2])
    cos = v.T.cos(v.T.pi * c[0] / (12 * c[1]))
    v.lemma("argument", v.T.pi * c[0] / (12 * c[1]) <= v.T.pi / 12)
    v.lemma("slope", 2 ** 0.5 * cos >= 1)
    h = v.fn(M + "cu2ho")(c)
    X, Y, Z = pyramid(v, c[0], c[1], c[2])
    sin = v.T.sin(v.T.pi * c[0] / (12 * c[1]))
    v.eq("z", h[2], Z)
    v.eq("x", h[0], X)
    v.lemma("sine", sin > 0)
    v.lemma("direction", h[1] * 2 ** 0.5 * sin == h[0] * (2 ** 0.5 * cos - 1))
    v.lemma("direction of spec", Y * 2 ** 0.5 * sin == X * (2 ** 0.5 * cos - 1))
    v.require(h[0] == X)  # (obliged above)
    v.lemma("y", h[1] == Y, [sin > 0, h[0] == X, h[1] * 2 ** 0.5 * sin == h[0] * (2 ** 0.5 * cos - 1), Y * 2 ** 0.5 * sin == X * (2 ** 0.5 * cos - 1)], [h[0], h[1], X, Y, sin, cos])


import itertools

SYMS = [dict(p=p, s=s) for p in itertools.permutations(range(3)) for s in itertools.product((1, -1), repeat=3)]


def moved(v, a, p, s):
    return v.T.stack([a[..., p[i]] * s[i] for i in range(3)], dim=-1)


@unit("C05", "cube to ball: symmetries", [M + "cu2ho"], modes=("sym",), params=SYMS)
def _(v, p, s):
    """the 48 symmetries of the cube, for every point with coordinates of different size (other points: executed)"""
    a = v.real("a", [3], 0.0, None, lo_open=True)
    v.require(a[0] < a[1])
    v.require(a[1] < a[2])
    v.eq("commutes", v.fn(M + "cu2ho")(moved(v, a, p, s)), moved(v, v.fn(M + "cu2ho")(a), p, s))


@unit("C05", "ball to cube: symmetries", [M + "ho2cu"], modes=("sym",), params=SYMS)
def _(v, p, s):
    """the 48 symmetries of the cube, for every point with coordinates of different size (other points: executed)"""
    a = v.real("a", [3], 0.0, None, lo_open=True)
    v.require(a[0] < a[1])
    v.require(a[1] < a[2])
    v.eq("commutes", v.fn(M + "ho2cu")(moved(v, a, p, s)), moved(v, v.fn(M + "ho2cu")(a), p, s))


@unit("C05", "ball to cube inverts cube to ball: one pyramid", [M + "ho2cu"], modes=("sym",))
def _(v):
    """the image of (12 g y / pi, y, z) with 0 < g < pi/12 and 0 < y < z (as proved above) is mapped back"""
    T, pi = v.T, v.T.pi
    p = lambda n: v.real(n, [], 0.0, None, lo_open=True)
    f, r, s, S, C = p("f"), p("r"), p("s"), p("S"), p("C")
    q2 = 2 ** 0.5
    # (the sine and cosine of g, with tan(pi/12) = 2 - sqrt(3))
    v.require(S * S + C * C == 1)
    v.require(S < C * (2 - T.sqrt(v.const(3.0))))
    # s is the ratio of the two discs, r the radius of the point
    v.require(s < 1)
    v.require(f * f * (3 - 2 * q2 * C) == 4 * r * r * (1 - s * s))
    v.require(f * f * (q2 - C) < q2 * r * r)
    X, Y, Z = f * s * q2 * S, f * s * (q2 * C - 1), r * (2 * s * s - 1)
    h = T.stack([X, Y, Z], dim=-1)
    v.lemma("cosine", C * 3.8638 > 3.7320)
    v.lemma("order xy", X < Y)
    v.lemma("order yz", Y < Z)
    v.lemma("norm", T.norm(h, dim=-1) == r)
    c = v.fn(M + "ho2cu")(h)
    # the largest coordinate is proportional to the radius: faces and sphere correspond
    v.eq("z", c[2] * (pi / 6) ** (1 / 6), (pi / 6) ** 0.5 * r)
    k = (pi / 6) ** (1 / 6)
    v.eq("y", k * k * q2 * c[1] * c[1], f * f * pi / 6 * (q2 - C))
    # (x = 12 g y / pi for the angle g in (0, pi/12) of that sine and cosine)
    a = c[0] * pi / (12 * c[1])
    v.holds("x: range", (a >= 0) & (a < pi / 2))
    v.eq("x: angle", T.sin(a) * C, T.cos(a) * S)


@unit("C05", "every point of the ball is such an image", [M + "ho2cu"], modes=("sym",))
def _(v):
    """so that the two maps are inverse both ways: the parameters used above exist for all 0 < X < Y < Z"""
    T = v.T
    h = v.real("h", [3], 0.0, None, lo_open=True)
    v.require(h[0] < h[1])
    v.require(h[1] < h[2])
    q2 = 2 ** 0.5
    r = v.real("r", [], 0.0, None, lo_open=True)
    s = v.real("s", [], 0.0, None, lo_open=True)
    v.require(r * r == sq(h))
    v.require(s * s * 2 * r == r + h[2])
    w = v.real("w", [], 0.0, None, lo_open=True)
    x, y = h[0] / s, h[1] / s
    v.require(w * w == x * x + 2 * y * y)
    f = y + w
    C, S = (y + f) / (q2 * f), x / (q2 * f)
    v.lemma("s in (0, 1)", s < 1)
    v.eq("unit circle", S * S + C * C, 1.0)
    v.holds("angle", S < C * (2 - T.sqrt(v.const(3.0))))
    v.eq("disc", f * f * (3 - 2 * q2 * C), 4 * r * r * (1 - s * s))
    v.holds("below the face", f * f * (q2 - C) < q2 * r * r)
    v.eq("x", f * s * q2 * S, h[0])
    v.eq("y", f * s * (q2 * C - 1), h[1])
    v.eq("z", r * (2 * s * s - 1), h[2])


@unit("C05", "axes, planes and the origin", [M + "cu2ho", M + "ho2cu"], modes=("sym",), params=[dict(p=p) for p in itertools.permutations(range(3))])
def _(v, p):
    """points with coordinates equal to zero"""
    T, pi = v.T, v.T.pi
    k = (pi / 6) ** (1 / 6)
    z = v.real("z", [], 0.0, None, lo_open=True)
    o = z * 0
    n = (6 / pi) ** 0.5 * k * z
    pt = lambda *c: moved(v, T.stack(c, dim=-1), p, (1, 1, 1))
    v.eq("origin", v.fn(M + "cu2ho")(pt(o, o, o)), v.const([0.0, 0, 0]))
    v.eq("origin of the ball", v.fn(M + "ho2cu")(pt(o, o, o)), v.const([0.0, 0, 0]))
    v.eq("axis", v.fn(M + "cu2ho")(pt(o, o, z)), pt(o, o, n))
    v.eq("axis of the ball", v.fn(M + "ho2cu")(pt(o, o, n)), pt(o, o, z))


@unit("C05", "homochoric vector of an axis and angle", [M + "ax2ho"], params=RANKS)
def _(v, ax):
    n = v.unitvec("n", ax, 3)
    w = v.real("w", ax, 0.0, math.pi, special=(0.0, math.pi, 1e-3))
    if v.sym:
        v.require(w <= v.T.pi)
    h = v.fn(M + "ax2ho")(v.T.cat([n, w.unsqueeze(-1)], dim=-1))
    v.eq("homochoric vector", h, n * ((0.75 * (w - v.T.sin(w))) ** (1.0 / 3.0)).unsqueeze(-1), tol=dict(float64=1e-12, float32=1e-4))


@unit("C05", "homochoric vector of a quaternion", [M + "qu2ho"], params=RANKS)
def _(v, ax):
    q = v.quat("q", ax)
    W = 2 * v.T.acos(q[..., 0].abs())
    if v.sym:
        # rotations of less than 1e-8 rad are mapped to the origin
        v.require((W >= 1e-8) | (W == 0))
    h = v.fn(M + "qu2ho")(q)
    s = v.where(q[..., 0:1] < 0, -1.0, 1.0)
    m = v.T.sqrt(sq(q[..., 1:])).unsqueeze(-1)
    N = v.where(m == 0, v.T.zeros_like(q[..., 1:]), s * q[..., 1:] / m)
    v.eq("homochoric vector of quaternion", h, N * ((0.75 * (W - v.T.sin(W))) ** (1.0 / 3.0)).unsqueeze(-1))


def angles(n):
    import numpy as np

    return np.concatenate([np.linspace(0, math.pi, n), 10.0 ** np.linspace(-6, -1, 200), math.pi - 10.0 ** np.linspace(-9, -1, 50), [0.0, math.pi]])


def exact(w):
    """(3/4 (w - sin w))^(1/3), without cancellation"""
    import numpy as np

    t = w * w
    return np.where(w < 0.5, w / 2 * (1 - t / 20 * (1 - t / 42 * (1 - t / 72 * (1 - t / 110 * (1 - t / 156))))) ** (1 / 3), np.cbrt(0.75 * (w - np.sin(w))))


@unit("C05", "homochoric radius, both ways", [M + f for f in ("ax2ho", "qu2ho", "ho2ax", "ho2ax_newton", "ho2ax_reference", "ho2qu")], modes=("conc",),
      params=[dict(f=f) for f in ("fast", "slow", "newton", "kikuchipy", "EMsoft")], nsamp=2, bounded="4250 angles of [0, pi] per sample, those near 0 and pi included")
def _(v, f):
    T = v.T
    w = T.tensor(angles(4000), dtype=T.float64)
    h = T.tensor(exact(w.numpy()), dtype=T.float64)
    n = v.real("n", [len(w), 3]).double()
    n = n / n.norm(dim=-1, keepdim=True)
    c = lambda t: t.to(v.dtype)
    # what half of the digits of the cosine leave of an angle
    near = 1.0 / w.clamp(min=1e-3) if v.dname == "float64" else 1.0 / w.clamp(min=1e-4)
    e = (1e-15 if v.dname == "float64" else 3e-7) * near + (1e-14 if v.dname == "float64" else 2e-6)
    fit = 0.0 if f in ("slow", "newton") or v.dname == "float32" else 3e-8 if f == "fast" else 8e-9
    go = dict(fast=lambda x: v.fn(M + "ho2ax")(x), slow=lambda x: v.fn(M + "ho2ax")(x, False), newton=v.fn(M + "ho2ax_newton"),
              kikuchipy=lambda x: v.fn(M + "ho2ax_reference")(x, "kikuchipy"), EMsoft=lambda x: v.fn(M + "ho2ax_reference")(x, "EMsoft"))[f]
    a = go(c(n * h[:, None])).double()
    v.le("angle", (a[:, 3] - w).abs(), 4 * e + fit)
    v.le("axis", (a[:, :3] - n)[w > 1e-5].norm(dim=-1), 1e-6)
    v.le("unit axis", (a[:, :3].norm(dim=-1) - 1).abs(), 1e-6)
    if f == "fast":
        v.le("to homochoric", (v.fn(M + "ax2ho")(c(T.cat([n, w[:, None]], -1))).double() - n * h[:, None]).norm(dim=-1), 4e-10 if v.dname == "float64" else 1e-3)
        q = T.cat([T.cos(w / 2)[:, None], n * T.sin(w / 2)[:, None]], -1)
        v.le("quaternion to homochoric", (v.fn(M + "qu2ho")(c(q)).double() - n * h[:, None]).norm(dim=-1), 4e-10 if v.dname == "float64" else 1e-3)
        v.le("homochoric to quaternion", (v.fn(M + "ho2qu")(c(n * h[:, None])).double() - q).norm(dim=-1), 4 * e + fit + (0 if v.dname == "float64" else 1e-4))


def points(v, n):
    """points of the cube: everywhere, and on and near its faces, edges, corners, axes, diagonals and centre"""
    T = v.T
    t = T.tensor([c for c in itertools.product((-1, -0.5, -1e-5, 0, 1e-5, 0.5, 1), repeat=3)], dtype=T.float64)
    a = v.real("a", [n, 3], -1.0, 1.0).double().clone()
    k = T.arange(n) % 8
    a[k == 1, 0] = a[k == 1, 1]
    a[k == 2, 1] = -a[k == 2, 2]
    a[k == 3, 2] = 1.0
    a[k == 4, 1] = 0.0
    a[k == 5] *= 1e-4
    a[k == 6, 0] = a[k == 6, 1] * (1 + 1e-6)
    a[k == 7, 2] = a[k == 7, 1] * 1e-6
    return T.cat([t, a]).to(v.dtype).double() * A


@unit("C05", "cube and ball", [M + "cu2ho", M + "ho2cu"], modes=("conc",), params=[dict(shape=s) for s in ([], ["b"], ["b0", "b1"])], nsamp=6,
      bounded="about 1000 points of the cube per sample: faces, edges, corners, axes, diagonals, the centre and points next to them")
def _(v, shape):
    from .c03 import cube_to_ball, ball_to_cube

    T = v.T
    to, fro = v.fn(M + "cu2ho"), v.fn(M + "ho2cu")
    f32 = v.dname == "float32"
    c = points(v, 640)
    if shape == []:
        c = c[:: len(c) // 40]
        h = T.stack([to(x.to(v.dtype)) for x in c])
        b = T.stack([fro(x) for x in h])
    elif len(shape) == 2:
        m = len(c) // 7 * 7
        c = c[:m]
        x = c.to(v.dtype).reshape(7, -1, 3)
        h = to(x)
        b = fro(h)
        v.holds("shape", tuple(h.shape) == tuple(x.shape) and tuple(b.shape) == tuple(x.shape))
        h, b = h.reshape(-1, 3), b.reshape(-1, 3)
    else:
        h = to(c.to(v.dtype))
        b = fro(h)
    c = c.to(v.dtype)
    v.dtype_is("cube to ball", h)
    v.dtype_is("ball to cube", b)
    e = 1e-5 if f32 else 1e-12
    v.eq("the published map", h, cube_to_ball(v, c), tol=e)
    v.eq("the published inverse", b, ball_to_cube(v, h), tol=2e-5 if f32 else 2e-7)
    v.eq("there and back", b, c, tol=e)
    v.eq("back and there", to(b) if shape != [] else T.stack([to(x) for x in b]), h, tol=e)
    v.le("radius", (h.norm(dim=-1) - c.abs().amax(dim=-1) * (R / A)).abs(), e)
    if shape == ["b"]:
        for p, s in itertools.product(itertools.permutations(range(3)), itertools.product((1, -1), repeat=3)):
            v.eq("symmetry", to(moved(v, c, p, s)), moved(v, h, p, s), tol=e)
            v.eq("symmetry of the inverse", fro(moved(v, h, p, s)), moved(v, b, p, s), tol=e)


@unit("C05", "equal volumes", [M + "cu2ho", M + "ho2cu"], modes=("conc",), nsamp=2, bounded="Jacobians at 400 points per sample")
def _(v):
    """the Jacobian determinants of both maps are 1 (differences, where the maps are smooth)"""
    T = v.T
    c = v.real("c", [400, 3], -A * 0.99, A * 0.99).double()
    a = c.abs().sort(dim=-1)[0]
    c = c[(a[:, 1] - a[:, 0] > 0.01) & (a[:, 2] - a[:, 1] > 0.01) & (a[:, 0] > 0.01)]
    for f, x in ((v.fn(M + "cu2ho"), c), (v.fn(M + "ho2cu"), v.fn(M + "cu2ho")(c))):
        e = 1e-5
        J = T.stack([(f(x + e * T.eye(3, dtype=x.dtype)[i]) - f(x - e * T.eye(3, dtype=x.dtype)[i])) / (2 * e) for i in range(3)], -1)
        v.le("Jacobian", (T.linalg.det(J) - 1).abs(), 1e-5)
