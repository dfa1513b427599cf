"""C07 the eleven Laue tables are the rotation groups they name"""
import itertools
import math
import numpy as np
from vc.contract import unit
from .spec import *

M = "ebsdtorch.s2_and_so3.laue_generators:"
META = dict(level="proof")
IDS = [dict(laue=i) for i in range(1, 12)]


def cos(x):
    return 0.0 if abs(math.cos(x)) < 1e-12 else math.cos(x)


def cyclic(n):
    return [(cos(math.pi * k / n), 0.0, 0.0, math.sin(math.pi * k / n)) for k in range(n)]


def dihedral(n):
    """n-fold axis along z, two-fold axes perpendicular to it, one of them along x"""
    return cyclic(n) + [(0.0, cos(math.pi * k / n), math.sin(math.pi * k / n), 0.0) for k in range(n)]


TET = dihedral(2) + [(0.5, a / 2, b / 2, c / 2) for a in (1, -1) for b in (1, -1) for c in (1, -1)]
R = math.sqrt(0.5)
OCT = TET + [tuple(R if i in (0, j) and i == 0 else s * R if i == j else 0.0 for i in range(4)) for j in (1, 2, 3) for s in (1, -1)]
OCT += [tuple(0.0 if i == 0 or i not in (j, k) else R if i == j else s * R for i in range(4)) for j, k in ((1, 2), (1, 3), (2, 3)) for s in (1, -1)]
# Schoenflies symbols of the rotation subgroups of the Laue classes, in the library's numbering
GROUPS = {1: cyclic(1), 2: cyclic(2), 3: dihedral(2), 4: cyclic(4), 5: dihedral(4), 6: cyclic(3), 7: dihedral(3), 8: cyclic(6), 9: dihedral(6), 10: TET, 11: OCT}
ORDER = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 6: 3, 7: 6, 8: 6, 9: 12, 10: 12, 11: 24}
assert all(len(GROUPS[i]) == ORDER[i] for i in GROUPS)


def nearest(x, table):
    """index of the table row nearest to +-x"""
    d = np.minimum(np.abs(table - x).max(-1), np.abs(table + x).max(-1))
    return int(d.argmin())


@unit("C07", "table_is_the_named_group", [M + "laue_elements", M + "get_laue_mult"], params=IDS)
def _(v, laue):
    r = v.fn(M + "laue_elements")(laue)
    spec = GROUPS[laue]
    v.holds("number of operators", tuple(r.shape) == (len(spec), 4))
    v.holds("multiplicity counts the operators and their inversions", int(v.fn(M + "get_laue_mult")(laue)) == 2 * len(spec))
    v.eq("first is the identity", r[0], v.const([1.0, 0.0, 0.0, 0.0]))
    tab = v.numbers(r)
    hit = []
    for q in spec:
        k = nearest(np.array(q), tab)
        hit.append(k)
        v.any_eq(f"contains {tuple(round(z, 3) for z in q)}", r[k], [v.const(list(q)), v.const([-z for z in q])], tol=1e-12)
    v.holds("no operator is listed twice", sorted(hit) == list(range(len(spec))))
    v.dtype_is("double precision", r, v.const([0.0]))


@unit("C07", "closed_under_products_and_inverses", [M + "laue_elements"], params=IDS)
def _(v, laue):
    r = v.fn(M + "laue_elements")(laue)
    n = int(r.shape[0])
    tab = v.numbers(r)
    v.eq("unit operators", sq(r), 1.0, tol=1e-12)
    for i in range(n):
        c = conj(v, r[i])
        k = nearest(v.numbers(c), tab)
        v.any_eq(f"inverse of {i}", c, [r[k], -r[k]], tol=1e-12)
        for j in range(n):
            p = hamilton(v, r[i], r[j])
            k = nearest(v.numbers(p), tab)
            v.any_eq(f"product {i} {j}", p, [r[k], -r[k]], tol=1e-12)
