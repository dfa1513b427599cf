"""C10 disorientation between two crystals"""
import math
from vc.contract import unit
from .spec import *

M = "ebsdtorch.s2_and_so3.laue_fz_ori:"
MM = "ebsdtorch.s2_and_so3.laue_fz_misori:"
G = "ebsdtorch.s2_and_so3.laue_generators:"
META = dict(level="proof", assumptions=["the operators form a group (C07): with it, replacing an orientation by an equivalent permutes the set the minimum is taken over"])
ORDER = [1, 2, 4, 4, 8, 3, 6, 6, 12, 12, 24]
PAIRS = [(a, b) for a in range(1, 12) for b in range(1, 12)]
cost = lambda p: ORDER[p[0] - 1] * ORDER[p[1] - 1]
SMALL = [p for p in PAIRS if cost(p) <= 6]
BIG = [p for p in PAIRS if 6 < cost(p) <= 48]
DIS = [M + "disorientation", MM + "disorientation_naive"]
ANG = [M + "disori_angle_laue", MM + "disori_angle_laue"]


def group(v, i, q):
    s = v.fn(G + "laue_elements")(i).to(q.dtype)
    return [s[k].expand_as(q) for k in range(int(s.shape[0]))]


def orbit(v, i, j, m):
    """all a m b, a in group i, b in group j"""
    return [hamilton(v, a, hamilton(v, m, b)) for a in group(v, i, m) for b in group(v, j, m)]


def largest(v, ws):
    m = ws[0]
    for w in ws[1:]:
        m = v.T.maximum(m, w)
    return m


def bounded_real_parts(v, o):
    """Cauchy-Schwarz for the unit quaternions of an orbit"""
    if not v.sym:
        return
    for k, e in enumerate(o):
        c = [e[..., i].data.reshape(-1)[0] for i in range(4)]
        v.lemma(f"real part of a unit quaternion [{k}]", (e[..., 0] <= 1) & (-e[..., 0] <= 1), [(sq(e) == 1.0)], c)


def check(v, r, o):
    v.eq("unit", sq(r), 1.0)
    v.le("nonnegative real part", 0.0, r[..., 0])
    v.any_eq("one of the equivalent misorientations", r, [z for e in o for z in (e, -e)])
    for k, e in enumerate(o):
        v.le(f"none has a smaller angle [{k}]", abs(e[..., 0]), r[..., 0], slack=1e-6)


def par(pairs, fs, ranks=RANKS):
    return [dict(f=f, i=i, j=j, ax=r["ax"]) for i, j in pairs for f in fs for r in ranks]


def disorientation(v, f, i, j, ax):
    a, b = v.quat("a", ax), v.quat("b", ax)
    r = v.fn(f)(a, b, i, j)
    check(v, r, orbit(v, i, j, hamilton(v, a, conj(v, b))))
    v.dtype_is("disorientation", r, a)


unit("C10", "disorientation", DIS, params=par(SMALL, DIS), budget=100)(disorientation)
unit("C10", "disorientation_big", DIS, params=par(BIG, DIS, RANKS1), budget=300, tier="thorough")(disorientation)


def zone(v, i, j, ax):
    m = v.quat("m", ax)
    r = v.fn(MM + "misori_to_fz_laue")(m, i, j)
    # documented: operators of the second group before (left), of the first after (right)
    check(v, r, orbit(v, j, i, m))
    v.dtype_is("disorientation", r, m)


zp = lambda ps, rs=RANKS: [dict(i=i, j=j, ax=r["ax"]) for i, j in ps for r in rs]
unit("C10", "misorientation_zone", [MM + "misori_to_fz_laue"], params=zp(SMALL), budget=100)(zone)
unit("C10", "misorientation_zone_big", [MM + "misori_to_fz_laue"], params=zp(BIG, RANKS1), budget=300, tier="thorough")(zone)


def angle(v, f, i, j, ax):
    a, b = v.quat("a", ax), v.quat("b", ax)
    r = v.fn(f)(a, b, i, j)
    o = orbit(v, i, j, hamilton(v, a, conj(v, b)))
    T = v.T
    v.le("nonnegative", 0.0, r)
    bounded_real_parts(v, o)
    c = T.cos(r / 2)
    if v.sym:
        for k, e in enumerate(o):
            v.le(f"none is smaller [{k}]", abs(e[..., 0]), c)
        v.any_eq("attained", c.unsqueeze(-1), [z.unsqueeze(-1) for e in o for z in (e[..., 0], -e[..., 0])])
    else:
        v.eq("smallest angle of all equivalents", c, largest(v, [abs(e[..., 0]) for e in o]), tol=1e-6)


unit("C10", "angle", ANG, params=par([p for p in SMALL if cost(p) <= 4], ANG), budget=60)(angle)
unit("C10", "angle_big", ANG, params=par([p for p in PAIRS if 4 < cost(p) <= 24], ANG, RANKS1), budget=300, tier="thorough")(angle)


def orientation_angle(v, i, ax):
    a, b = v.quat("a", ax), v.quat("b", ax)
    r = v.fn(M + "ori_angle_laue")(a, b, i)
    m = hamilton(v, a, conj(v, b))
    o = [hamilton(v, s, m) for s in group(v, i, m)]
    bounded_real_parts(v, o)
    c = v.T.cos(r / 2)
    if v.sym:
        for k, e in enumerate(o):
            v.le(f"none is smaller [{k}]", abs(e[..., 0]), c)
        v.any_eq("attained", c.unsqueeze(-1), [z.unsqueeze(-1) for e in o for z in (e[..., 0], -e[..., 0])])
    else:
        v.eq("angle to the fundamental zone representative", c, largest(v, [abs(e[..., 0]) for e in o]), tol=1e-6)


unit("C10", "orientation_angle", [M + "ori_angle_laue"], params=[dict(i=i, ax=r["ax"]) for i in range(1, 9) for r in RANKS], budget=120)(orientation_angle)
unit("C10", "orientation_angle_big", [M + "ori_angle_laue"], params=[dict(i=i, ax=["b"]) for i in (9, 10, 11)], budget=800, tier="thorough")(orientation_angle)


@unit("C10", "all_pairs", DIS + ANG + [MM + "misori_to_fz_laue"], params=[dict(i=i) for i in range(1, 12)], modes=("conc",), nsamp=2,
      bounded="all 121 pairs of classes, random orientations")
def _(v, i):
    a, b = v.quat("a", ["b"]), v.quat("b", ["b"])
    g = v.fn(G + "laue_elements")
    T = v.T
    for j in range(1, 12):
        m = hamilton(v, a, conj(v, b))
        o = T.stack([abs(e[..., 0]) for e in orbit(v, i, j, m)]).amax(0)
        ref = None
        for f in ANG:
            r = v.fn(f)(a, b, i, j)
            v.eq(f"{f} ({i},{j})", T.cos(r / 2), o, tol=1e-6)
            v.eq(f"{f} ({i},{j}) swapped", T.cos(v.fn(f)(b, a, j, i) / 2), o, tol=1e-6)
            v.eq(f"{f} ({i},{j}) signs", T.cos(v.fn(f)(-a, b, i, j) / 2), o, tol=1e-6)
            x = hamilton(v, g(i).to(a.dtype)[-1].expand_as(a), a)
            y = hamilton(v, g(j).to(a.dtype)[-1].expand_as(b), b)
            v.eq(f"{f} ({i},{j}) equivalents", T.cos(v.fn(f)(x, y, i, j) / 2), o, tol=1e-6)
        for f in DIS:
            d = v.fn(f)(a, b, i, j)
            v.eq(f"{f} ({i},{j}) realises the angle", d[..., 0], o, tol=1e-6)
            full = T.stack(orbit(v, i, j, m), -2)
            dist = T.minimum(T.norm(full - d[..., None, :], dim=-1), T.norm(full + d[..., None, :], dim=-1)).amin(-1)
            v.eq(f"{f} ({i},{j}) is equivalent", dist, 0 * dist, tol=1e-5)
        z = v.fn(MM + "misori_to_fz_laue")(m, j, i)
        v.eq(f"misori_to_fz_laue ({i},{j})", z[..., 0], o, tol=1e-6)


@unit("C10", "equal_orientations", ANG, params=[dict(f=f, i=i, ax=r["ax"]) for f in ANG for i in (1, 3, 9, 11) for r in RANKS], modes=("conc",),
      bounded="equal and equivalent orientations of four classes")
def _(v, f, i, ax):
    a = v.quat("a", ax)
    r = v.fn(f)(a, a, i, i)
    v.le("zero", r, 1e-3 + 0 * r)
    r = v.fn(f)(a, -a, i, i)
    v.le("zero for either sign", r, 1e-3 + 0 * r)
