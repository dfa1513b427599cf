"""C03 every conversion between orientation representations describes the same rotation"""
from vc.contract import unit
from .spec import *

M = "ebsdtorch.s2_and_so3.orientations:"
META = dict(level="proof")
PI = 3.141592653589793


def axang(v, ax):
    """axis-angle with unit axis and angle in [0, pi]"""
    n = v.unitvec("n", ax, 3)
    w = v.real("w", ax, 0, v.T.pi if v.sym else PI)
    return n, w, v.T.cat([n, w.unsqueeze(-1)], dim=-1)


def q_of(v, n, w):
    return v.T.cat([v.T.cos(w / 2).unsqueeze(-1), n * v.T.sin(w / 2).unsqueeze(-1)], dim=-1)


@unit("C03", "qu2om", [M + "qu2om"], params=RANKS3)
def _(v, ax):
    q = v.quat("q", ax)
    r = v.fn(M + "qu2om")(q)
    v.eq("rotation matrix", r, quat_to_matrix(v, q))
    v.dtype_is("om", r, q)


@unit("C03", "om2qu", [M + "om2qu"], params=RANKS)
def _(v, ax):
    q = v.quat("q", ax)
    r = v.fn(M + "om2qu")(quat_to_matrix(v, q))
    v.signeq("same rotation", r, q)
    v.le("real part nonnegative", 0.0, r[..., 0], slack=0.0)


@unit("C03", "qu2ax", [M + "qu2ax"], params=RANKS)
def _(v, ax):
    q = v.quat("q", ax)
    r = v.fn(M + "qu2ax")(q)
    n, w = r[..., :3], r[..., 3]
    v.eq("unit axis", sq(n), 1.0)
    v.le("angle at least 0", 0.0, w)
    v.le("angle at most pi", w, v.T.pi)
    v.signeq("same rotation", q_of(v, n, w), q)


@unit("C03", "ax2qu", [M + "ax2qu"], params=RANKS)
def _(v, ax):
    n, w, a = axang(v, ax)
    r = v.fn(M + "ax2qu")(a)
    v.eq("same rotation", r, q_of(v, n, w))


@unit("C03", "ax2om", [M + "ax2om"], params=RANKS)
def _(v, ax):
    n, w, a = axang(v, ax)
    if v.sym:
        v.require(w > 0.05)
    r = v.fn(M + "ax2om")(a)
    v.eq("same rotation", r, quat_to_matrix(v, q_of(v, n, w)))


_HOLD = {}


def _om2qu_contract(orig):
    """contract of om2qu, proved in unit om2qu: the matrix of the unit quaternion q is taken to the one of q, -q
    with nonnegative real part (q, and which of the two it is, are generic in the caller's contract)"""

    def f(m):
        from vc.contract import CUR

        v, q, b = CUR[0], _HOLD["q"], _HOLD["b"]
        v.eq("precondition of om2qu: the matrix of a rotation", m, quat_to_matrix(v, q))
        r = v.T.where(b.unsqueeze(-1), q, -q)
        v.require(r[..., 0] >= 0)
        return r

    return f


@unit("C03", "om2ax", [M + "om2ax"], params=RANKS, overrides={("ebsdtorch.s2_and_so3.orientations", "om2qu"): _om2qu_contract})
def _(v, ax):
    q = v.quat("q", ax)
    if v.sym:
        _HOLD.update(q=q, b=v.boolean("b", ax))
    r = v.fn(M + "om2ax")(quat_to_matrix(v, q))
    n, w = r[..., :3], r[..., 3]
    v.eq("unit axis", sq(n), 1.0)
    v.le("angle at least 0", 0.0, w)
    v.le("angle at most pi", w, v.T.pi)
    v.signeq("same rotation", q_of(v, n, w), q)


@unit("C03", "ax_ro", [M + "ax2ro", M + "ro2ax"], params=RANKS)
def _(v, ax):
    n, w, a = axang(v, ax)
    if v.sym:
        v.require(w < v.T.pi)
    r = v.fn(M + "ax2ro")(a)
    v.eq("axis kept", r[..., :3], n)
    if v.sym:
        v.eq("tangent of half angle", r[..., 3], v.T.tan(w / 2))
    b = v.fn(M + "ro2ax")(r)
    v.signeq("ro2ax after ax2ro is the same rotation", q_of(v, b[..., :3], b[..., 3]), q_of(v, n, w))


@unit("C03", "qu2ro", [M + "qu2ro"], params=RANKS)
def _(v, ax):
    q = v.quat("q", ax)
    if v.sym:
        v.require((q[..., 0] >= 1e-10) | (q[..., 0] <= -1e-10))
        r = v.fn(M + "qu2ro")(q)
        v.eq("unit axis", sq(r[..., :3]), 1.0)
        for i in range(3):
            v.eq("w n tan = vector part", r[..., i] * r[..., 3] * q[..., 0], q[..., i + 1])
    else:
        r = v.fn(M + "qu2ro")(q)
        v.eq("unit axis", sq(r[..., :3]), 1.0)
        v.signeq("same rotation", q_of(v, r[..., :3], 2 * v.T.atan(r[..., 3])), q)


@unit("C03", "qu2bu", [M + "qu2bu"], params=RANKS)
def _(v, ax):
    q = v.quat("q", ax)
    b = v.fn(M + "qu2bu")(q)
    v.eq("same rotation", bunge_matrix(v, b), quat_to_matrix(v, q))
    v.le("Phi at least 0", 0.0, b[..., 1])
    v.le("Phi at most pi", b[..., 1], v.T.pi)
    for i in (0, 2):
        v.le("angle at least 0", 0.0, b[..., i])
        v.le("angle at most 2 pi", b[..., i], 2 * v.T.pi)


@unit("C03", "bu2qu", [M + "bu2qu"], params=RANKS)
def _(v, ax):
    b = v.real("b", ax + [3], special=(0.0, PI, PI / 2), scale=3.0)
    q = v.fn(M + "bu2qu")(b)
    v.signeq("same rotation", q, bunge_quat(v, b))
    v.le("real part nonnegative", 0.0, q[..., 0], slack=0.0)


@unit("C03", "zh", [M + "qu2zh", M + "zh2om", M + "om2zh"], params=RANKS)
def _(v, ax):
    q = v.quat("q", ax)
    z = v.fn(M + "qu2zh")(q)
    R = quat_to_matrix(v, q)
    v.eq("rows of the matrix", z, v.T.cat([R[..., 0, :], R[..., 1, :]], dim=-1))
    v.eq("zh2om inverts", v.fn(M + "zh2om")(z), R)


@unit("C03", "zh2om_any", [M + "zh2om"], params=RANKS)
def _(v, ax):
    z = v.real("z", ax + [6])
    a, b = z[..., :3], z[..., 3:]
    c = v.T.linalg.cross(a, b, dim=-1)
    if v.sym:
        v.require(sq(c) > 0)
    R = v.fn(M + "zh2om")(z)
    v.eq("rows orthonormal", matmul(R, R.transpose(-1, -2)), v.T.eye(3, dtype=v.dtype).expand(*R.shape))
    v.eq("proper", v.T.linalg.det(R), 1.0)


@unit("C03", "ax2ho", [M + "ax2ho"], params=RANKS)
def _(v, ax):
    n, w, a = axang(v, ax)
    h = v.fn(M + "ax2ho")(a)
    v.eq("homochoric vector", h, n * ((0.75 * (w - v.T.sin(w))) ** (1.0 / 3.0)).unsqueeze(-1))


@unit("C03", "qu2ho", [M + "qu2ho"], params=RANKS)
def _(v, ax):
    q = v.quat("q", ax)
    W = 2 * v.T.acos(q[..., 0].abs())
    if v.sym:
        # rotations of less than 1e-8 rad are mapped to the origin
        v.require((W >= 1e-8) | (W == 0))
    h = v.fn(M + "qu2ho")(q)
    s = v.where(q[..., 0:1] < 0, -1.0, 1.0)
    m = v.T.sqrt(sq(q[..., 1:])).unsqueeze(-1)
    N = v.where(m == 0, v.T.zeros_like(q[..., 1:]), s * q[..., 1:] / m)
    v.eq("homochoric vector of quaternion", h, N * ((0.75 * (W - v.T.sin(W))) ** (1.0 / 3.0)).unsqueeze(-1))


# ---- compositions: every primitive under contract ("the result represents the same
# rotation in representation y"), every derived conversion proved from those contracts
PRIM = "qu2om om2qu qu2ax ax2qu ax2om om2ax ax2ro ro2ax qu2ro qu2bu bu2qu qu2ho ax2ho ho2ax ho2cu cu2ho om2zh zh2om".split()
COMPOSITE = (
    "qu2zh zh2qu qu2cu om2ho ax2cu ro2qu ro2om ro2cu ro2ho cu2ax cu2qu cu2om cu2ro ho2qu ho2om ho2ro om2ro om2cu bu2om bu2ax "
    "bu2ro bu2cu bu2ho om2bu ax2bu ro2bu cu2bu ho2bu"
).split()
TAIL = dict(qu=[4], ax=[4], ro=[4], om=[3, 3], bu=[3], ho=[3], cu=[3], zh=[6])


def _abstract(name):
    src, dst = name.split("2")

    def repl(orig):
        def f(x, *a, **k):
            from vc.contract import CUR

            v = CUR[0]
            tag = getattr(x, "rep", None)
            v.holds(f"precondition of {name}: argument represents the rotation as {src}", tag is not None and tag[1] == src)
            ax = [z for z in x.axes[: len(x.axes) - len(TAIL[src])]]
            r = v.havoc(ax, TAIL[dst], x.dtype)
            r.rep = (tag[0] if tag else None, dst)
            return r

        return f

    return repl


@unit(
    "C03",
    "composites",
    [M + c for c in COMPOSITE],
    params=[dict(ax=r["ax"], name=n) for n in COMPOSITE for r in RANKS],
    overrides={(M[:-1], p): _abstract(p) for p in PRIM},
)
def _(v, ax, name):
    src, dst = name.split("2")
    if v.sym:
        x = v.real("x", ax + TAIL[src])
        x.rep = ("rho", src)
        r = v.fn(M + name)(x)
        v.holds("result represents the same rotation", getattr(r, "rep", None) == ("rho", dst))
        v.eq("shape", r[(Ellipsis,) + (0,) * len(TAIL[dst])].shape.numel() - x[(Ellipsis,) + (0,) * len(TAIL[src])].shape.numel(), 0)
    else:
        q = v.quat("q", ax)
        q = v.T.where(q[..., :1] < 0, -q, q)
        x = rep_of(v, q, src)
        r = v.fn(M + name)(x)
        v.eq("same rotation", mat_of(v, r, dst), quat_to_matrix(v, q), tol=dict(float64=6e-3, float32=2e-2))


def rep_of(v, q, k):
    """representation k of the rotation q, by the textbook formulas"""
    T = v.T
    w = 2 * T.acos(q[..., 0].clamp(-1, 1))
    m = T.sqrt(sq(q[..., 1:]))[..., None]
    z = T.zeros_like(q[..., 1:])
    z[..., 2] = 1
    n = T.where(m > 1e-9, q[..., 1:] / m, z)
    if k == "qu":
        return q
    if k == "om":
        return quat_to_matrix(v, q)
    if k == "ax":
        return T.cat([n, w[..., None]], -1)
    if k == "ro":
        t = T.tan(w / 2)
        return T.cat([n, T.where(q[..., 0] == 0, T.full_like(t, float("inf")), t)[..., None]], -1)
    if k == "zh":
        return quat_to_matrix(v, q)[..., :2, :].reshape(q.shape[:-1] + (6,))
    if k == "bu":
        R = quat_to_matrix(v, q)
        P = T.acos(R[..., 2, 2].clamp(-1, 1))
        deg = R[..., 2, 0].abs() + R[..., 2, 1].abs() < 1e-6
        a = T.where(deg, T.atan2(R[..., 0, 1], R[..., 0, 0]), T.atan2(R[..., 2, 0], -R[..., 2, 1]))
        c = T.where(deg, T.zeros_like(a), T.atan2(R[..., 0, 2], R[..., 1, 2]))
        return T.stack([a, P, c], -1)
    h = n * ((0.75 * (w - T.sin(w))) ** (1.0 / 3.0))[..., None]
    if k == "ho":
        return h
    return ball_to_cube(v, h)


def ball_to_cube(v, h):
    """inverse of Rosca, Morawiec & De Graef (2014) eq. (27)-(29), one point at a time"""
    import numpy as np

    H = h.detach().double().numpy().reshape(-1, 3)
    out = np.zeros_like(H)
    for i, p in enumerate(H):
        r = np.sqrt((p * p).sum())
        if r < 1e-12:
            continue
        k = int(np.argmax(np.abs(p)))
        perm = [[1, 2, 0], [2, 0, 1], [0, 1, 2]][k]
        x, y, z = p[perm]
        s = np.sqrt(2 * r / (r + abs(z)))
        X, Y, Z = x * s, y * s, np.sign(z) * r / np.sqrt(6 / np.pi)
        if X == 0 and Y == 0:
            a = b = 0.0
        else:
            sw = abs(X) > abs(Y)
            if sw:
                X, Y = Y, X
            q2 = np.sqrt((X * X + Y * Y) * (X * X + 2 * Y * Y)) / np.sqrt(max(1e-300, (X * X + 2 * Y * Y) - abs(Y) * np.sqrt(X * X + 2 * Y * Y)))
            q2 *= np.sqrt(np.pi / 6) / np.sqrt(2) 
            c = np.clip((X * X + abs(Y) * np.sqrt(X * X + 2 * Y * Y)) / (np.sqrt(2) * (X * X + Y * Y)), -1, 1)
            a = q2 * np.sign(X) * 12 / np.pi * np.arccos(c)
            b = q2 * np.sign(Y)
            if sw:
                a, b = b, a
        o = np.zeros(3)
        o[perm] = [a, b, Z]
        out[i] = o / (np.pi / 6) ** (1 / 6)
    return v.T.tensor(out.reshape(h.shape), dtype=h.dtype)


def mat_of(v, r, k):
    """rotation matrix of a representation, by the textbook formulas"""
    T = v.T
    if k == "qu":
        return quat_to_matrix(v, r)
    if k == "om":
        return r
    if k == "ax":
        return quat_to_matrix(v, q_of(v, r[..., :3], r[..., 3]))
    if k == "ro":
        return quat_to_matrix(v, q_of(v, r[..., :3], 2 * T.atan(r[..., 3])))
    if k == "zh":
        a, b = r[..., :3], r[..., 3:]
        return T.stack([a, b, T.linalg.cross(a, b, dim=-1)], -2)
    if k == "bu":
        return bunge_matrix(v, r)
    if k == "cu":
        r = cube_to_ball(v, r)
    n = T.sqrt(sq(r))
    lo, hi = T.zeros_like(n), T.full_like(n, PI)
    for _ in range(60):
        mid = (lo + hi) / 2
        up = (0.75 * (mid - T.sin(mid))) ** (1.0 / 3.0) < n
        lo, hi = T.where(up, mid, lo), T.where(up, hi, mid)
    d = T.where(n[..., None] > 0, r / n[..., None].clamp(min=1e-12), T.zeros_like(r))
    return quat_to_matrix(v, T.cat([T.cos(lo / 2)[..., None], d * T.sin(lo / 2)[..., None]], -1))


def cube_to_ball(v, c):
    import numpy as np

    Cc = c.detach().double().numpy().reshape(-1, 3) * (np.pi / 6) ** (1 / 6)
    out = np.zeros_like(Cc)
    for i, p in enumerate(Cc):
        k = int(np.argmax(np.abs(p)))
        if abs(p[k]) < 1e-12:
            continue
        perm = [[1, 2, 0], [2, 0, 1], [0, 1, 2]][k]
        x, y, z = p[perm]
        if x == 0 and y == 0:
            X = Y = 0.0
        else:
            sw = abs(x) > abs(y)
            if sw:
                x, y = y, x
            g = np.pi * x / (12 * y)
            f = 2 ** 0.25 * y / np.sqrt(np.pi / 6) / np.sqrt(np.sqrt(2) - np.cos(g))
            X, Y = f * np.sqrt(2) * np.sin(g), f * (np.sqrt(2) * np.cos(g) - 1)
            if sw:
                X, Y = Y, X
        q = X * X + Y * Y
        s = np.sqrt(max(0.0, 1 - np.pi * q / (24 * z * z)))
        o = np.zeros(3)
        o[perm] = [X * s, Y * s, np.sqrt(6 / np.pi) * z - np.sqrt(np.pi / 24) * q / z]
        out[i] = o
    return v.T.tensor(out.reshape(c.shape), dtype=c.dtype)
