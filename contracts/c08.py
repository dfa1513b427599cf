"""C08 reduction to the orientation fundamental zone"""
from vc.contract import unit
from .spec import *

M = "ebsdtorch.s2_and_so3.laue_fz_ori:"
G = "ebsdtorch.s2_and_so3.laue_generators:"
META = dict(level="proof", assumptions=["the operators form a group: C07"])
P = [dict(laue=i, ax=r["ax"]) for i in range(1, 12) for r in RANKS]


def orbit(v, laue, q):
    """all s q, s in the group (the table itself is C07's subject)"""
    s = v.fn(G + "laue_elements")(laue).to(q.dtype)
    return [hamilton(v, s[k].expand_as(q), q) for k in range(int(s.shape[0]))]


@unit("C08", "reduction", [M + "ori_to_fz_laue"], params=P, budget=200)
def _(v, laue, ax):
    q = v.quat("q", ax)
    r = v.fn(M + "ori_to_fz_laue")(q, laue)
    o = orbit(v, laue, q)
    v.eq("unit", sq(r), 1.0)
    v.le("nonnegative real part", 0.0, r[..., 0])
    v.any_eq("equivalent to the input", r, [z for e in o for z in (e, -e)])
    for k, e in enumerate(o):
        v.le(f"no equivalent is nearer to the identity [{k}]", abs(e[..., 0]), r[..., 0], slack=1e-6)
    v.dtype_is("orientation", r, q)


@unit("C08", "equivalents", [M + "ori_equiv_laue"], params=P)
def _(v, laue, ax):
    q = v.quat("q", ax)
    r = v.fn(M + "ori_equiv_laue")(q, laue)
    o = orbit(v, laue, q)
    v.signeq("exactly the products of the operators with the orientation", r, v.T.stack(o, dim=-2))
    v.dtype_is("orientation", r, q)
