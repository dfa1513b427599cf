"""C13 square/hexagon to hemisphere projections"""
import math
from vc.contract import unit
from .spec import *

SPH = "ebsdtorch.s2_and_so3.sphere:"
UTL = "ebsdtorch.utils.rosca_lambert:"
KV = "ebsdtorch.crystallography.kvectors:"
MC = "ebsdtorch.simulation.monte_carlo:"
META = dict(level="proof")
INV = [SPH + "inv_rosca_lambert", UTL + "square_to_hemisphere", UTL + "square_to_hemisphere_v2", KV + "square_to_hemisphere"]
FWD = [SPH + "rosca_lambert", MC + "rosca_lambert"]


def sgn(v, x):
    """+1 at zero"""
    return v.where(x < 0, v.const(-1.0), v.const(1.0))


def square(v, ax):
    return v.real("p", ax + [2], -1, 1, special=[-1.0, 1.0, 0.0, 0.5, -0.5])


@unit("C13", "inverse", INV, params=[dict(f=f, ax=r["ax"]) for f in INV for r in RANKS])
def _(v, f, ax):
    """closed form: the square max(|a|,|b|) = m goes to the circle z = 1 - m^2, at an angle proportional to the position along the side"""
    T = v.T
    p = square(v, ax)
    r = v.fn(f)(p)
    a, b = p[..., 0], p[..., 1]
    cond = abs(b) <= abs(a)
    big, sml = v.where(cond, a, b), v.where(cond, b, a)
    m = abs(big)
    v.eq("height 1 - m^2", r[..., 2], 1 - m * m)
    v.eq("unit length", sq(r), v.const(1.0) + 0 * m)
    v.le("upper hemisphere", 0.0, r[..., 2], slack=1e-12)
    one = v.where(m > 0, big, v.const(1.0))
    t = v.T.pi / 4 * (sml / one)
    rho = m * T.sqrt(2 - m * m) * sgn(v, big)
    u, w = rho * T.cos(t), rho * T.sin(t)
    v.eq("x", r[..., 0], v.where(cond, u, w))
    v.eq("y", r[..., 1], v.where(cond, w, u))


def spec_fwd(v, p):
    T = v.T
    x, y, z = p[..., 0], p[..., 1], p[..., 2]
    cond = abs(y) <= abs(x)
    big, sml = v.where(cond, x, y), v.where(cond, y, x)
    m = T.sqrt(1 - abs(z))
    s = sgn(v, big)
    k = 4 / v.T.pi * T.atan2(sml * s, abs(big))
    return cond, s * m, s * m * k


@unit("C13", "forward", FWD, params=[dict(f=f, ax=r["ax"]) for f in FWD for r in RANKS])
def _(v, f, ax):
    T = v.T
    p = v.unitvec("p", ax, 3)
    r = v.fn(f)(p)
    cond, big, sml = spec_fwd(v, p)
    v.eq("first coordinate", r[..., 0], v.where(cond, big, sml))
    v.eq("second coordinate", r[..., 1], v.where(cond, sml, big))
    v.le("inside the square", abs(r), 1.0)
    v.eq("circles of latitude go to concentric squares", v.where(cond, abs(r[..., 0]), abs(r[..., 1])) ** 2, 1 - abs(p[..., 2]))


@unit("C13", "side_by_side", [SPH + "rosca_lambert_side_by_side"], params=RANKS)
def _(v, ax):
    """northern points in the left half, southern ones in the right half, second coordinate unchanged"""
    p = v.unitvec("p", ax, 3)
    r = v.fn(SPH + "rosca_lambert_side_by_side")(p)
    q = v.fn(SPH + "rosca_lambert")(p)
    v.eq("second coordinate", r[..., 1], q[..., 1])
    v.eq("first coordinate", r[..., 0], q[..., 0] / 2 + v.where(p[..., 2] < 0, v.const(0.5), v.const(-0.5)))


@unit("C13", "forward_of_inverse", INV + FWD, params=[dict(f=f, g=g, ax=r["ax"]) for f in INV for g in FWD for r in RANKS])
def _(v, f, g, ax):
    p = square(v, ax)
    v.eq("back on the same point of the square", v.fn(g)(v.fn(f)(p)), p, tol=1e-6)


@unit("C13", "inverse_of_forward", INV + FWD, params=[dict(f=f, g=g, ax=r["ax"]) for f in INV for g in FWD for r in RANKS])
def _(v, f, g, ax):
    p = v.unitvec("p", ax, 3)
    if v.sym:
        v.require(p[..., 2] >= 0)
    else:
        p = v.T.cat([p[..., :2], abs(p[..., 2:])], -1)
    v.eq("back on the same point of the hemisphere", v.fn(f)(v.fn(g)(p)), p, tol=1e-6)


HEX = [UTL + "hexagon_to_hemisphere", KV + "hexagon_to_hemisphere"]


@unit("C13", "hexagon", HEX, params=[dict(f=f, ax=r["ax"], sx=i, sy=j, inclined=k) for f in HEX for r in RANKS for i in (1, -1) for j in (1, -1) for k in (True, False)], budget=100)
def _(v, f, ax, sx, sy, inclined):
    """the hexagon with apothem h = sqrt(3)/2 m (tip on the first axis) goes to the circle z = 1 - m^2, angle proportional to the position along the side"""
    T = v.T
    q = v.real("p", ax + [2], 0, 1, special=[0.0])
    p = T.stack([q[..., 0] * sx, q[..., 1] * sy], dim=-1)
    a, b = q[..., 0], q[..., 1]
    s3 = v.T.sqrt(v.const(3.0))
    if v.sym:
        v.require((a * s3 > b) if inclined else (a * s3 <= b))
    v.require((b * 2 <= s3) & (a * s3 + b <= s3)) if v.sym else None
    if not v.sym:
        k = 1 / T.maximum(T.maximum(b * 2 / s3, (a * s3 + b) / s3), v.const(1.0))
        p = p * k.unsqueeze(-1)
        a, b = abs(p[..., 0]), abs(p[..., 1])
    r = v.fn(f)(p)
    side = a * s3 > b  # the two inclined sides
    h = v.where(side, (a * s3 + b) / 2, b)
    along = v.where(side, (a - b * s3) / 2, a)
    m = 2 * h / s3
    v.eq("height 1 - m^2", r[..., 2], 1 - m * m)
    v.eq("unit length", sq(r), v.const(1.0) + 0 * m)
    v.le("upper hemisphere", 0.0, r[..., 2], slack=1e-6)
    den = v.where(h > 0, h, v.const(1.0))
    t = v.T.pi / (2 * s3) * (along / den)
    rho = m * T.sqrt(2 - m * m)
    X, Y = rho * T.cos(t), rho * T.sin(t)  # along the apothem, along the side
    y = v.where(side, X / 2 - Y * s3 / 2, X)
    x = v.where(side, X * s3 / 2 + Y / 2, Y)
    if v.sym and inclined:
        return  # the position on the circle of the inclined sides is left to hexagon_inclined_position (bounded)
    v.eq("x", r[..., 0], x * sgn(v, p[..., 0]))
    v.eq("y", r[..., 1], y * sgn(v, p[..., 1]))


TP, XT = SPH + "theta_phi_to_xyz", SPH + "xyz_to_theta_phi"


@unit("C13", "spherical_to_cartesian", [TP, "ebsdtorch.harmonics.sht:theta_phi_to_xyz"], params=RANKS)
def _(v, ax):
    T = v.T
    t, f = v.real("theta", ax, -7, 7), v.real("phi", ax, 0, 3.5)
    r = v.fn(TP)(t, f)
    want = T.stack([T.cos(t) * T.sin(f), T.sin(t) * T.sin(f), T.cos(f)], dim=-1)
    v.eq("point of azimuth theta and declination phi", r, want)
    v.eq("the same in the harmonics module", v.fn("ebsdtorch.harmonics.sht:theta_phi_to_xyz")(T.stack([t, f], dim=-1)), want)
    v.eq("unit length", sq(r), v.const(1.0) + 0 * t)


@unit("C13", "cartesian_roundtrip", [TP, XT], params=RANKS)
def _(v, ax):
    p = v.unitvec("p", ax, 3)
    a = v.fn(XT)(p)
    v.eq("back on the same point", v.fn(TP)(a[..., 0], a[..., 1]), p)
    v.le("declination at least 0", 0.0, a[..., 1])
    v.le("declination at most pi", a[..., 1], v.T.pi)


@unit("C13", "spherical_roundtrip", [TP, XT], params=RANKS)
def _(v, ax):
    T = v.T
    pi = v.T.pi
    t, f = v.real("theta", ax, -math.pi if not v.sym else -pi, math.pi if not v.sym else pi, lo_open=True), v.real("phi", ax, 0, pi, lo_open=True, hi_open=True)
    if not v.sym:
        v.require(bool((T.sin(f) > 1e-4).all()))
        t = t.clamp(-3.1415, 3.1415)
    r = v.fn(XT)(v.fn(TP)(t, f))
    v.eq("azimuth", r[..., 0], t)
    v.eq("declination", r[..., 1], f)
