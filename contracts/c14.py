"""C14 space groups and point groups are assigned their Laue class"""
from vc.contract import unit
from .spec import *

M = "ebsdtorch.utils.symmetry_classes:"
G = "ebsdtorch.crystallography.groups"
META = dict(level="proof")
# International Tables: last space group number of every geometric crystal class, with its Laue class
# (1 -1, 2 2/m, 3 mmm, 4 4/m, 5 4/mmm, 6 -3, 7 -3m, 8 6/m, 9 6/mmm, 10 m-3, 11 m-3m)
CLASSES = [
    ("1", 1, 1), ("1-", 2, 1), ("2", 5, 2), ("m", 9, 2), ("2/m", 15, 2), ("222", 24, 3), ("mm2", 46, 3), ("mmm", 74, 3),
    ("4", 80, 4), ("4-", 82, 4), ("4/m", 88, 4), ("422", 98, 5), ("4mm", 110, 5), ("4-2m", 122, 5), ("4/mmm", 142, 5),
    ("3", 146, 6), ("3-", 148, 6), ("32", 155, 7), ("3m", 161, 7), ("3-m", 167, 7), ("6", 173, 8), ("6-", 174, 8), ("6/m", 176, 8),
    ("622", 182, 9), ("6mm", 186, 9), ("6-m2", 190, 9), ("6/mmm", 194, 9), ("23", 199, 10), ("m3-", 206, 10), ("432", 214, 11),
    ("4-3m", 220, 11), ("m3-m", 230, 11),
]
LAST = {}
for _s, _n, _l in CLASSES:
    LAST[_l] = _n
LAUE_OF = {}
_i = 1
for _s, _n, _l in CLASSES:
    while _i <= _n:
        LAUE_OF[_i] = (_l, _s)
        _i += 1


@unit("C14", "space_group", [M + "space_group_to_laue"], nsamp=80)
def _(v):
    n = v.pyint("n", special=[0, -1, 231, 1, 230] + [z for z in LAST.values()] + [z + 1 for z in LAST.values()])
    r, bad = v.attempt(v.fn(M + "space_group_to_laue"), n)
    if bad:
        v.holds("only numbers outside 1..230 are rejected", (n < 1) | (n > 230))
        return
    v.holds("numbers outside 1..230 are rejected", (n >= 1) & (n <= 230))
    lo = 0
    for l in range(1, 12):
        inside = (n > lo) & (n <= LAST[l])
        v.holds(f"space groups {lo + 1}..{LAST[l]} have Laue class {l}", (r == l) | (n <= lo) | (n > LAST[l]))
        lo = LAST[l]


@unit("C14", "point_group", [M + "point_group_to_laue"], nsamp=80)
def _(v):
    s = v.pystr("s", domain=[c[0] for c in CLASSES])
    r, bad = v.attempt(v.fn(M + "point_group_to_laue"), s)
    known = s == "1"
    for c in CLASSES:
        known = known | (s == c[0])
    if bad:
        v.holds("the 32 symbols are accepted", ~known if v.sym else not known)
        return
    v.holds("everything else is rejected", known)
    for c in CLASSES:
        v.holds(f"Laue class of {c[0]}", (r == c[2]) | (s != c[0]))


@unit("C14", "assignments_agree", [M + "space_group_to_laue", M + "point_group_to_laue", G + ":sg_operators"])
def _(v):
    """the point group the crystallography tables give a space group has the Laue class of the space group"""
    g = v.mod(G)
    f, h = v.fn(M + "space_group_to_laue"), v.fn(M + "point_group_to_laue")
    for n in range(1, 231):
        v.holds(f"space group {n}, point group {LAUE_OF[n][1]}", f(n) == h(LAUE_OF[n][1]))
        k = max(i for i, b in enumerate(g.sg_pg_beg) if b <= n)
        v.holds(f"space group {n}, crystallography tables", g.pg_to_laue[k] == f(n))
