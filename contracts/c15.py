"""C15 space group operators form a group modulo lattice translations"""
import numpy as np
from vc.contract import unit
from .spec import *
from .c14 import LAUE_OF

M = "ebsdtorch.crystallography.groups:"
META = dict(level="proof", note="the closure of the generators is decided by running the real code on its whole (finite) domain, all 230 groups and both settings")
EPS = 5e-4


def seitz(v, W, t):
    T = v.T
    top = T.cat([W, t.unsqueeze(-1)], dim=-1)
    bot = T.zeros_like(top[..., :1, :])
    bot = T.cat([bot[..., :3], T.ones_like(bot[..., :1])], dim=-1)
    return T.cat([top, bot], dim=-2)


@unit("C15", "matmul_trans_mod_any_translation", [M + "matmul_trans_mod"], params=RANKS)
def _(v, ax):
    """affine maps with any translations below 300: linear parts multiply, translations add up modulo 1 to within eps"""
    A, B = v.real("A", ax + [3, 3], -2, 2), v.real("B", ax + [3, 3], -2, 2)
    a, b = v.real("a", ax + [3], -1, 1), v.real("b", ax + [3], -1, 1)
    r = v.fn(M + "matmul_trans_mod")(seitz(v, A, a), seitz(v, B, b))
    v.eq("linear part is the product", r[..., :3, :3], matmul(A, B))
    v.eq("last row", r[..., 3, :], v.T.zeros_like(r[..., 3, :]) + v.const([0.0, 0.0, 0.0, 1.0]))
    x = matvec(A, b) + a
    c = r[..., :3, 3]
    v.le("translation at least 0", 0.0, c, slack=0)
    v.lt("translation below 1", c, 1.0, slack=0)
    f = x - v.T.floor(x)
    for i in range(3):
        d = abs(c[..., i] - f[..., i])
        v.holds(f"translation [{i}] modulo 1, within eps", (d < EPS + 1e-9) | (abs(d - 1) < EPS + 1e-9))


@unit("C15", "matmul_trans_mod_grid", [M + "matmul_trans_mod"], params=RANKS1, nsamp=3, budget=120)
def _(v, ax):
    """translations in 24ths and integer linear parts: the product is exact"""
    A, B = v.integer("A", ax + [3, 3], -1, 1), v.integer("B", ax + [3, 3], -1, 1)
    a, b = v.integer("a", ax + [3], 0, 23), v.integer("b", ax + [3], 0, 23)
    f = lambda t: t.to(v.T.float64)
    r = v.fn(M + "matmul_trans_mod")(seitz(v, f(A), f(a) / 24), seitz(v, f(B), f(b) / 24))
    v.eq("linear part is the product", r[..., :3, :3], matmul(f(A), f(B)))
    n = matvec(f(A), f(b)) + f(a)
    v.eq("translation is the sum modulo 1", r[..., :3, 3] * 24, n - 24 * v.T.floor(n / 24))


@unit("C15", "unique_rows", [M + "unique_rows"], params=[dict(n=n) for n in (1, 2, 3, 4)], bounded="up to 4 rows", branch_masks=True)
def _(v, n):
    """on a grid coarser than eps: the distinct rows, in order of first appearance"""
    k = 3
    rows = v.integer("rows", [n, k], 0, 3)
    r = v.fn(M + "unique_rows")(rows.to(v.T.float64))
    if v.sym:
        # the paths fix which rows are equal
        keep = [i for i in range(n) if all(not bool(v.T.all(rows[i] == rows[j])) for j in range(i))]
    else:
        keep = [i for i in range(n) if not any(bool((rows[i] == rows[j]).all()) for j in range(i))]
    v.eq("distinct rows in order", r, v.T.stack([rows[i] for i in keep], dim=0).to(v.T.float64))


# geometric crystal classes: number of operators of each type (n or -n)
TYPES = {
    "1": {1: 1}, "2": {1: 1, 2: 1}, "222": {1: 1, 2: 3}, "4": {1: 1, 2: 1, 4: 2}, "422": {1: 1, 2: 5, 4: 2}, "3": {1: 1, 3: 2},
    "32": {1: 1, 3: 2, 2: 3}, "6": {1: 1, 2: 1, 3: 2, 6: 2}, "622": {1: 1, 2: 7, 3: 2, 6: 2}, "23": {1: 1, 2: 3, 3: 8}, "432": {1: 1, 2: 9, 3: 8, 4: 6},
    "m": {1: 1, -2: 1}, "mm2": {1: 1, 2: 1, -2: 2}, "4-": {1: 1, 2: 1, -4: 2}, "4mm": {1: 1, 2: 1, 4: 2, -2: 4}, "4-2m": {1: 1, 2: 3, -4: 2, -2: 2},
    "3m": {1: 1, 3: 2, -2: 3}, "6-": {1: 1, 3: 2, -2: 1, -6: 2}, "6mm": {1: 1, 2: 1, 3: 2, 6: 2, -2: 6}, "6-m2": {1: 1, 3: 2, 2: 3, -2: 4, -6: 2},
    "4-3m": {1: 1, 2: 3, 3: 8, -2: 6, -4: 6},
}
for _c, _p in (("1-", "1"), ("2/m", "2"), ("mmm", "222"), ("4/m", "4"), ("4/mmm", "422"), ("3-", "3"), ("3-m", "32"), ("6/m", "6"), ("6/mmm", "622"), ("m3-", "23"), ("m3-m", "432")):
    TYPES[_c] = {**TYPES[_p], **{-k: n for k, n in TYPES[_p].items()}}
ORDER_OF_TRACE = {3: 1, -1: 2, 0: 3, 1: 4, 2: 6}
CENTRING = {
    "P": [(0, 0, 0)], "A": [(0, 0, 0), (0, 12, 12)], "B": [(0, 0, 0), (12, 0, 12)], "C": [(0, 0, 0), (12, 12, 0)], "I": [(0, 0, 0), (12, 12, 12)],
    "F": [(0, 0, 0), (0, 12, 12), (12, 0, 12), (12, 12, 0)], "R": [(0, 0, 0), (16, 8, 8), (8, 16, 16)],
}


def metric(n):
    if n <= 2:
        return np.array([[1.0, 0.21, 0.13], [0.21, 1.7, 0.37], [0.13, 0.37, 2.3]])
    if n <= 15:
        return np.array([[1.0, 0, 0.13], [0, 1.7, 0], [0.13, 0, 2.3]])
    if n <= 74:
        return np.diag([1.0, 1.7, 2.3])
    if n <= 142:
        return np.diag([1.0, 1.0, 2.3])
    if n <= 194:
        return np.array([[1.0, -0.5, 0], [-0.5, 1.0, 0], [0, 0, 2.3]])
    return np.eye(3)


def optype(W):
    d = round(float(np.linalg.det(W)))
    return d * ORDER_OF_TRACE.get(d * int(round(np.trace(W))), 0)


def group_check(v, n, ops, letter, tag, order):
    W, t = ops[:, :3, :3], ops[:, :3, 3]
    Wi = np.rint(W).astype(int)
    ti = np.rint(t * 24).astype(int)
    v.holds(f"{tag} integer linear parts of determinant +-1", bool(np.abs(W - Wi).max() < 1e-9 and all(abs(round(float(np.linalg.det(w)))) == 1 for w in Wi)))
    v.holds(f"{tag} translations are 24ths in [0, 1)", bool(np.abs(t * 24 - ti).max() < 1e-6 and t.min() >= 0 and t.max() < 1))
    v.holds(f"{tag} affine last row", bool(np.abs(ops[:, 3, :] - np.array([0, 0, 0, 1.0])).max() < 1e-12))
    G = metric(n)
    v.holds(f"{tag} preserve the metric of the crystal family", bool(np.abs(np.einsum("nki,kl,nlj->nij", Wi, G, Wi) - G).max() < 1e-9))
    code = {}
    for k in range(len(ops)):
        code.setdefault((tuple(Wi[k].reshape(-1)), tuple(ti[k] % 24)), []).append(k)
    v.holds(f"{tag} operators are distinct", len(code) == len(ops))
    v.holds(f"{tag} contains the identity", (tuple(np.eye(3, dtype=int).reshape(-1)), (0, 0, 0)) in code)
    v.holds(f"{tag} multiplicity {order}", len(ops) == order)
    # closed under products
    pw = np.einsum("aij,bjk->abik", Wi, Wi).reshape(-1, 9)
    pt = (np.einsum("aij,bj->abi", Wi, ti) + ti[:, None, :]).reshape(-1, 3) % 24
    key = lambda w, s: ((w + 1) @ (3 ** np.arange(9))) * 13824 + s @ np.array([1, 24, 576])
    have = set(key(Wi.reshape(-1, 9), ti % 24).tolist())
    v.holds(f"{tag} closed under composition modulo lattice translations", bool(np.abs(pw).max() <= 1) and set(key(pw, pt).tolist()) <= have)
    # the right crystal class and lattice
    lat = sorted(s for w, s in code if w == tuple(np.eye(3, dtype=int).reshape(-1)))
    v.holds(f"{tag} lattice translations are those of centring {letter}", lat == sorted(CENTRING[letter]))
    cnt = {}
    for w in {w for w, s in code}:
        k = optype(np.array(w).reshape(3, 3))
        cnt[k] = cnt.get(k, 0) + 1
    v.holds(f"{tag} crystal class {LAUE_OF[n][1]}", cnt == TYPES[LAUE_OF[n][1]])
    v.holds(f"{tag} order is class order times lattice points", order == sum(TYPES[LAUE_OF[n][1]].values()) * len(CENTRING[letter]))


BLK = [dict(first=a, last=min(a + 14, 230), setting=s) for s in (1, 2) for a in range(1, 231, 15)]
TWO = [48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228]


@unit("C15", "operators", [M + "sg_operators", M + "read_sg_gen_string"], params=BLK, modes=("conc",),
      note="the whole domain: 230 space groups, settings 1 and 2, executed on the real code; bounded only in that the deciding step is execution")
def _(v, first, last, setting):
    import contextlib, io

    g = v.mod("ebsdtorch.crystallography.groups")
    for n in range(first, last + 1):
        if setting == 2 and n not in TWO:
            continue
        with contextlib.redirect_stdout(io.StringIO()):
            ops = v.fn(M + "sg_operators")(n, setting).numpy()
        if setting == 2:
            # origin choice 2 is the one at a centre of symmetry
            inv = [o for o in ops if np.abs(o[:3, :3] + np.eye(3)).max() < 1e-9]
            v.holds(f"space group {n} setting 2: the origin is a centre of symmetry", any(np.abs((o[:3, 3] + 0.5) % 1.0 - 0.5).max() < 1e-6 for o in inv))
        group_check(v, n, ops, g.sg_names[n - 1][1], f"space group {n} setting {setting}:", g.sg_ords[n - 1])


@unit("C15", "generators", [M + "read_sg_gen_string"], params=[dict(setting=s) for s in (1, 2)])
def _(v, setting):
    """exact reading of the generator table: generators are isometries of the family with rational translations"""
    for n in range(1, 231):
        if setting == 2 and n not in TWO:
            continue
        gens = v.fn(M + "read_sg_gen_string")(n, setting)
        G = v.const([[round(float(z), 6) for z in r] for r in metric(n)])
        W = gens[:, :3, :3]
        v.eq(f"{n}: generators preserve the metric", matmul(matmul(W.transpose(-1, -2), G.unsqueeze(0).expand_as(W)), W), G.unsqueeze(0).expand_as(W))
        v.eq(f"{n}: affine", gens[:, 3, :], v.T.zeros_like(gens[:, 3, :]) + v.const([0.0, 0.0, 0.0, 1.0]))
        v.eq(f"{n}: first is the identity", gens[0], v.T.eye(4, dtype=v.T.float64))
        t = gens[:, :3, 3]
        v.eq(f"{n}: translations in 24ths", v.T.floor(t * 24 + 1e-6), t * 24)
