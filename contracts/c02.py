"""C02 unit quaternions act as rotations"""
from vc.contract import unit
from .spec import *

M = "ebsdtorch.s2_and_so3.quaternions:"
META = dict(level="proof")


@unit("C02", "apply_is_rotation_matrix", [M + "qu_apply"], params=RANKS2)
def _(v, ra, rb):
    q, p = v.quat("q", ra), v.real("p", rb + [3])
    r = v.fn(M + "qu_apply")(q, p)
    v.eq("rotated point", r, matvec(quat_to_matrix(v, q), p))
    v.dtype_is("rotated point", r, p)


@unit("C02", "apply_is_isometry", [M + "qu_apply"], params=RANKS)
def _(v, ax):
    q, p, s = v.quat("q", ax), v.real("p", ax + [3]), v.real("s", ax + [3])
    f = v.fn(M + "qu_apply")
    a, b = f(q, p), f(q, s)
    v.eq("dot product preserved", (a * b).sum(-1), (p * s).sum(-1))
    v.eq("orientation preserved", v.T.linalg.cross(a, b, dim=-1), f(q, v.T.linalg.cross(p, s, dim=-1)))


@unit("C02", "apply_composes", [M + "qu_apply", M + "qu_prod_raw", M + "qu_prod"], params=RANKS)
def _(v, ax):
    a, b, p = v.quat("a", ax), v.quat("b", ax), v.real("p", ax + [3])
    f = v.fn(M + "qu_apply")
    v.eq("product acts as composition", f(v.fn(M + "qu_prod_raw")(a, b), p), f(a, f(b, p)))
    v.eq("standardised product acts as composition", f(v.fn(M + "qu_prod")(a, b), p), f(a, f(b, p)))


@unit("C02", "inverse_and_sign", [M + "qu_apply", M + "qu_conj", M + "qu_std"], params=RANKS)
def _(v, ax):
    q, p = v.quat("q", ax), v.real("p", ax + [3])
    f, c = v.fn(M + "qu_apply"), v.fn(M + "qu_conj")
    v.eq("conjugate undoes", f(c(q), f(q, p)), p)
    v.eq("q and -q act alike", f(-q, p), f(q, p))
    v.eq("standardised acts alike", f(v.fn(M + "qu_std")(q), p), f(q, p))


@unit("C02", "angle", [M + "qu_angle"], params=RANKS)
def _(v, ax):
    q = v.quat("q", ax)
    r = v.fn(M + "qu_angle")(q)
    v.eq("cosine of half angle", v.T.cos(r / 2), q[..., 0])
    v.le("nonnegative", 0.0, r)
    v.le("at most a full turn", r, 2 * v.T.pi)


@unit("C02", "rotation_between_points", [M + "quaternion_rotate_sets_sphere"], params=RANKS)
def _(v, ax):
    s, t = v.unitvec("s", ax, 3), v.unitvec("t", ax, 3)
    if v.sym:
        v.require(sq(v.T.linalg.cross(s, t, dim=-1)) > 1e-20)
    r = v.fn(M + "quaternion_rotate_sets_sphere")(s, t)
    v.eq("unit quaternion", sq(r), 1.0)
    v.eq("carries start to finish", matvec(quat_to_matrix(v, r), s), t, tol=dict(float64=1e-6, float32=3e-3))
    v.le("shortest arc", 0.0, r[..., 0])


@unit("C02", "rotation_between_parallel_points", [M + "quaternion_rotate_sets_sphere"],
      params=[dict(ax=p["ax"], sign=z) for p in RANKS for z in (1, -1)],
      note="two unit vectors with vanishing cross product are equal or opposite; with the previous unit every pair is covered")
def _(v, ax, sign):
    s = v.unitvec("s", ax, 3)
    t = sign * s
    r = v.fn(M + "quaternion_rotate_sets_sphere")(s, t)
    v.eq("unit quaternion", sq(r), 1.0)
    v.eq("carries start to finish", matvec(quat_to_matrix(v, r), s), t, tol=dict(float64=1e-6, float32=3e-3))
    v.le("shortest arc", 0.0, r[..., 0])


@unit("C02", "slerp", [M + "qu_slerp"], params=RANKS)
def _(v, ax):
    # every pair of unit quaternions is (a, c a) for the unit quaternion c = b conj(a)
    a, c = v.quat("a", ax), v.quat("c", ax)
    b = hamilton(v, c, a)
    t = v.pyreal("t", 0, 1)
    d = c[..., 0]
    if v.sym:
        v.require(1 - d * d >= 1e-14)
        r = v.fn(M + "qu_slerp")(a, b, t)
        v.eq("unit", sq(r), 1.0)
        v.eq("fraction t of the arc from a", (r * a).sum(-1), v.T.cos(t * v.T.acos(d)))
        v.eq("fraction 1-t of the arc to b", (r * b).sum(-1), v.T.cos((1 - t) * v.T.acos(d)))
    else:
        r = v.fn(M + "qu_slerp")(a, b, t)
        ok = d > -0.99
        one = v.T.ones_like(d)
        v.eq("unit", v.T.where(ok, sq(r), one), one)
        th = v.T.acos(d.clamp(-1, 1))
        v.eq("fraction t of the arc from a", v.T.where(ok, (r * a).sum(-1), v.T.cos(t * th)), v.T.cos(t * th))
        v.eq("fraction 1-t of the arc to b", v.T.where(ok, (r * b).sum(-1), one), v.T.where(ok, v.T.cos((1 - t) * th), one))


@unit("C02", "slerp_equal", [M + "qu_slerp"], params=RANKS)
def _(v, ax):
    a = v.quat("a", ax)
    t = v.pyreal("t", 0, 1)
    v.eq("equal end points", v.fn(M + "qu_slerp")(a, a, t), a)
