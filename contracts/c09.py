"""C09 closed-form fundamental zone membership is exhaustive minimality"""
from vc.contract import unit
from .spec import *
from .c08 import orbit

M = "ebsdtorch.s2_and_so3.laue_fz_ori:"
META = dict(level="proof", assumptions=["the operators form a group: C07"])
P = [dict(laue=i, ax=r["ax"]) for i in range(1, 12) for r in RANKS]
PB = [dict(laue=i, ax=r["ax"]) for i in range(1, 12) for r in RANKS]


def minimal(v, q, o, strict=False):
    w = q[..., 0]
    m = None
    for e in o[1:]:
        x = e[..., 0]
        c = (x < w) & (-x < w) if strict else (x <= w) & (-x <= w)
        m = c if m is None else m & c
    return w >= 0 if m is None else m


def gap(q, o):
    """distance to the boundary of the zone (concrete reading)"""
    w = q[..., 0]
    g = None
    for e in o[1:]:
        d = w - abs(e[..., 0])
        g = d if g is None else g.minimum(d)
    return w + 1 if g is None else g


@unit("C09", "closed_form", [M + "ori_in_fz_laue"], params=P, budget=250, nsamp=6)
def _(v, laue, ax):
    q = v.quat("q", ax)
    if v.sym:
        v.require(q[..., 0] >= 0)
    else:
        q = q * v.T.where(q[..., :1] < 0, -1.0, 1.0).to(q.dtype)
        # draw close to the zone's boundary as well: rotate most samples next to the identity
    o = orbit(v, laue, q)
    r = v.fn(M + "ori_in_fz_laue")(q, laue)
    v.iff("inside exactly when no equivalent has a smaller angle", r, minimal(v, q, o), margin=None if v.sym else gap(q, o))


@unit("C09", "brute_force", [M + "ori_in_fz_laue_brute"], params=PB, budget=250)
def _(v, laue, ax):
    q = v.quat("q", ax)
    if v.sym:
        v.require(q[..., 0] >= 0)
    else:
        q = q * v.T.where(q[..., :1] < 0, -1.0, 1.0).to(q.dtype)
    o = orbit(v, laue, q)
    r = v.fn(M + "ori_in_fz_laue_brute")(q, laue)
    if v.sym:
        v.holds("only minimal orientations are inside", ~r | minimal(v, q, o))
        v.holds("strictly minimal orientations are inside", r | ~minimal(v, q, o, strict=True))
    else:
        v.iff("inside exactly when minimal", r, minimal(v, q, o), margin=gap(q, o))


@unit("C09", "every_orientation_has_an_inside_equivalent", [M + "ori_to_fz_laue", M + "ori_in_fz_laue"], params=[dict(laue=i, ax=["b"]) for i in range(1, 12)], modes=("conc",),
      note="follows from C08 (the representative is minimal in its orbit, which is closed: C07) and closed_form; executed as a cross-check")
def _(v, laue, ax):
    q = v.quat("q", ax)
    f = v.fn(M + "ori_to_fz_laue")(q, laue)
    if v.sym:
        v.holds("the representative is inside", v.fn(M + "ori_in_fz_laue")(f, laue))
    else:
        o = orbit(v, laue, f)
        g = gap(f, o)
        v.iff("the representative is inside", v.fn(M + "ori_in_fz_laue")(f, laue), g >= -1, margin=g)
