"""C06 SE(3) exponential and logarithm"""
from vc.contract import unit
from .spec import *

M = "ebsdtorch.lie_algebra.se3:"
META = dict(level="proof")
AX = [dict(ax=["b"]), dict(ax=["b0", "b1"])]
PI = 3.141592653589793
SMALL = (0.0, 1e-9, 1e-6, 4e-4, 9.9e-4, 1.01e-3, 5e-3, 9.9e-3, 1.01e-2, 3e-2, 4.99e-2, 5.01e-2, 0.1)


def within(v, label, a, b, tol):
    if v.sym:
        v.le(label + " (below)", a, b + tol)
        v.le(label + " (above)", b, a + tol)
    else:
        t = float(tol) if isinstance(tol, float) else 1e-9
        v.eq(label, a, b, tol=dict(float64=max(2 * t, 2e-9), float32=5e-4))


def screw(v, ax, hi=None, lo=0.0):
    """rotation vector th n: n a unit axis, th in [lo, hi]"""
    n = v.unitvec("n", ax, 3)
    th = v.real("th", ax, lo, hi if hi is not None else (None if v.sym else 6.2), special=tuple(x for x in SMALL if x >= lo))
    v.taylor(th)
    return n, th, n * th.unsqueeze(-1)


def cross_mat(v, n):
    T = v.T
    z = n[..., 0] * 0
    x, y, w = n[..., 0], n[..., 1], n[..., 2]
    return T.stack([T.stack([z, -w, y], dim=-1), T.stack([w, z, -x], dim=-1), T.stack([-y, x, z], dim=-1)], dim=-2)


def pieces(v, n, th):
    """rotation about n by th, and (th times) the left Jacobian, in their textbook forms"""
    T = v.T
    K = cross_mat(v, n)
    K2 = matmul(K, K)
    I = v.const([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
    e = lambda z: z.unsqueeze(-1).unsqueeze(-1)
    s, c = e(T.sin(th)), e(T.cos(th))
    R = I + s * K + (1 - c) * K2
    return R, K, K2, I, e


def left_jacobian(v, n, th, K, K2, I, e):
    """th times the left Jacobian: th I + (1 - cos th) K + (th - sin th) K^2"""
    T = v.T
    return e(th) * I + e(1 - T.cos(th)) * K + e(th - T.sin(th)) * K2


def jacobian_ok(v, label, V, n, th):
    R, K, K2, I, e = pieces(v, n, th)
    within(v, label, V * e(th), left_jacobian(v, n, th, K, K2, I, e), 1e-9 * e(th) if v.sym else 1e-9)


def at_zero(v, ax, f, checks):
    z = v.real("z", ax + [3], 0, 0)
    I = v.const([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
    zero = I * 0
    r = f(z)
    for lab, m in zip(checks, r if isinstance(r, tuple) else (r,)):
        v.eq(lab + " at zero", m, z.unsqueeze(-1) * zero + I)


@unit("C06", "w_exp", [M + "w_exp", M + "skew"], params=AX)
def _(v, ax):
    n, th, w = screw(v, ax)
    r = v.fn(M + "w_exp")(w)
    within(v, "rotation about the vector by its length", r, pieces(v, n, th)[0], 1e-9)
    v.eq("skew matrix", v.fn(M + "skew")(w), cross_mat(v, w))


@unit("C06", "w_exp_vmat", [M + "w_exp_vmat"], params=AX)
def _(v, ax):
    n, th, w = screw(v, ax)
    r, V = v.fn(M + "w_exp_vmat")(w)
    within(v, "rotation about the vector by its length", r, pieces(v, n, th)[0], 1e-9)
    jacobian_ok(v, "left Jacobian", V, n, th)
    at_zero(v, ax, v.fn(M + "w_exp_vmat"), ("rotation", "left Jacobian"))


@unit("C06", "w_to_v", [M + "w_to_v"], params=AX)
def _(v, ax):
    n, th, w = screw(v, ax)
    jacobian_ok(v, "left Jacobian", v.fn(M + "w_to_v")(w), n, th)
    at_zero(v, ax, v.fn(M + "w_to_v"), ("left Jacobian",))


@unit("C06", "w_to_v_inv", [M + "w_to_v_inv"], params=AX)
def _(v, ax):
    """every angle below a full turn"""
    n, th, w = screw(v, ax, hi=6.25)
    R, K, K2, I, e = pieces(v, n, th)
    A = v.fn(M + "w_to_v_inv")(w)
    VA = matmul(left_jacobian(v, n, th, K, K2, I, e), A)
    within(v, "inverse of the left Jacobian", VA, e(th) * I, 1e-9 * e(th) if v.sym else 1e-9)
    at_zero(v, ax, v.fn(M + "w_to_v_inv"), ("inverse Jacobian",))


def trans(v, ax):
    return v.real("t", ax + [3], -1, 1)


@unit("C06", "se3_exp_map_om", [M + "se3_exp_map_om", M + "se3_exp_map_split"], params=AX)
def _(v, ax):
    n, th, w = screw(v, ax)
    t = trans(v, ax)
    R, K, K2, I, e = pieces(v, n, th)
    x = v.T.cat([w, t], dim=-1)
    m = v.fn(M + "se3_exp_map_om")(x)
    r, p = v.fn(M + "se3_exp_map_split")(x)
    Vt = matvec(left_jacobian(v, n, th, K, K2, I, e), t)
    u = th.unsqueeze(-1)
    for lab, rot, tr in (("matrix form", m[..., :3, :3], m[..., :3, 3]), ("split form", r, p)):
        within(v, lab + ": rotation", rot, R, 1e-9)
        within(v, lab + ": translation is the left Jacobian applied", tr * u, Vt, 1e-8 * u if v.sym else 1e-8)
    v.eq("last row", m[..., 3, :], m[..., 3, :] * 0 + v.const([0.0, 0, 0, 1.0]))


@unit("C06", "se3_exp_map_quat", [M + "se3_exp_map_quat"], params=AX)
def _(v, ax):
    """proved for angles above 0.05; the small-angle branch (logarithms) only by running it"""
    n, th, w = screw(v, ax, lo=0.0501 if v.sym else 0.0, hi=PI)
    t = trans(v, ax)
    R, K, K2, I, e = pieces(v, n, th)
    q, p = v.fn(M + "se3_exp_map_quat")(v.T.cat([w, t], dim=-1))
    want = v.T.cat([v.T.cos(th / 2).unsqueeze(-1), n * v.T.sin(th / 2).unsqueeze(-1)], dim=-1)
    within(v, "quaternion of the rotation", q, want, 1e-9)
    u = th.unsqueeze(-1)
    within(v, "translation is the left Jacobian applied", p * u, matvec(left_jacobian(v, n, th, K, K2, I, e), t), 1e-8 * u if v.sym else 1e-8)


def log_ok(v, x, n, th, w, t):
    """t = V(w) tau with tau = the translation part of x"""
    R, K, K2, I, e = pieces(v, n, th)
    within(v, "logarithm: rotation vector", x[..., :3], w, 1e-6)
    u = th.unsqueeze(-1)
    back = matvec(left_jacobian(v, n, th, K, K2, I, e), x[..., 3:])
    within(v, "logarithm: translation part", back, t * u, 1e-6 * u if v.sym else 1e-6)


@unit("C06", "se3_log_map", [M + "se3_log_map_om", M + "se3_log_map_split"], params=[dict(r, form=f) for f in ("om", "split") for r in AX])
def _(v, ax, form):
    """angles from 0 up to 180 degrees (excluded)"""
    n, th, w = screw(v, ax, hi=3.14)
    t = trans(v, ax)
    R = pieces(v, n, th)[0]
    if form == "om":
        top = v.T.cat([R, t.unsqueeze(-1)], dim=-1)
        bot = t.unsqueeze(-2)[..., :1] * 0 + v.const([[0.0, 0, 0, 1.0]])
        x = v.fn(M + "se3_log_map_om")(v.T.cat([top, bot], dim=-2))
    else:
        x = v.fn(M + "se3_log_map_split")(R, t)
    log_ok(v, x, n, th, w, t)


_HOLD = {}


def q_of(v, n, th):
    return v.T.cat([v.T.cos(th / 2).unsqueeze(-1), n * v.T.sin(th / 2).unsqueeze(-1)], dim=-1)


def _qu2ax_contract(orig):
    """contract of qu2ax, proved in unit se3_log_map_quat (rotation vector): for the quaternion of an angle below
    180 degrees, axis times angle is the rotation vector"""

    def f(q):
        from vc.contract import CUR

        v, n, th = CUR[0], _HOLD["n"], _HOLD["th"]
        v.eq("precondition of qu2ax: the quaternion of the rotation", q, q_of(v, n, th))
        return v.T.cat([n, th.unsqueeze(-1)], dim=-1)

    return f


@unit("C06", "se3_log_map_quat", [M + "se3_log_map_quat", "ebsdtorch.s2_and_so3.orientations:qu2ax"], params=AX)
def _(v, ax):
    n, th, w = screw(v, ax, hi=3.14)
    t = trans(v, ax)
    x = v.fn(M + "se3_log_map_quat")(q_of(v, n, th), t)
    if v.sym:
        within(v, "logarithm: rotation vector", x[..., :3], w, 1e-6)
    else:
        log_ok(v, x, n, th, w, t)


@unit("C06", "se3_log_map_quat translation", [M + "se3_log_map_quat"], params=AX, overrides={("ebsdtorch.s2_and_so3.orientations", "qu2ax"): _qu2ax_contract})
def _(v, ax):
    n, th, w = screw(v, ax, hi=3.14)
    t = trans(v, ax)
    if v.sym:
        _HOLD.update(n=n, th=th)
    log_ok(v, v.fn(M + "se3_log_map_quat")(q_of(v, n, th), t), n, th, w, t)
