"""C21 the experiment container: data and results stay with their patterns"""
import itertools
from vc.contract import unit
from .spec import *

E = "ebsdtorch.ebsd.experiment_pats:"
C = E + "ExperimentPatterns."
META = dict(level="proof", assumptions=["image sizes are small and fixed in the symbolic units (the code treats pixels alike); the number of patterns is symbolic except where index tensors are given"])
STACKS = [dict(ax=[]), dict(ax=["p"]), dict(ax=["r", "c"])]
H, W = 2, 3


def make(v, ax, h=H, w=W):
    x = v.real("x", ax + [h, w])
    return x, v.fn(E + "ExperimentPatterns")(x.clone())


def flat(x, *tail):
    return x.reshape(-1, *tail)


@unit("C21", "patterns as stored", [C + "__init__", C + "get_patterns"], params=[dict(b=b, **r) for r in STACKS for b in (1,)])
def _(v, ax, b):
    x, e = make(v, ax)
    n = 1
    for s in x.shape[:-2]:
        n = n * s
    T = v.T
    v.eq("stack in scan order", e.patterns, flat(x, H, W))
    v.eq("number of patterns", T.tensor(e.n_patterns), T.tensor(n))
    v.eq("number of pixels", T.tensor(e.n_pixels), T.tensor(H * W))
    if v.sym and not ax or not v.sym:
        v.eq("all patterns", e.get_patterns(T.arange(n), b), flat(x, H, W))


@unit("C21", "refused stacks", [C + "__init__"], params=[dict(shape=s) for s in ((3,), (2, 2, 2, 2, 2))])
def _(v, shape):
    _, bad = v.attempt(v.fn(E + "ExperimentPatterns"), v.T.zeros(*shape))
    v.holds("refused", v.T.tensor(bad))


N = 4
IDX = [list(c) for k in (1, 2, 3, 4) for c in itertools.permutations(range(N), k)]


@unit("C21", "selected patterns and binning", [C + "get_patterns"], params=[dict(b=b, k=k) for b in (1, 2, 3) for k in (1, 2, 4)],
      bounded="stacks of 4 patterns of 6 x 7 pixels, every selection")
def _(v, b, k):
    T = v.T
    x, e = make(v, [N], 6, 7)
    for idx in [i for i in IDX if len(i) == k]:
        g = e.get_patterns(T.tensor(idx), b)
        h, w = 6 // b, 7 // b
        m = x[:, : h * b, : w * b].reshape(N, h, b, w, b).mean(4).mean(2)
        v.eq(f"patterns {idx}", g, T.stack([m[i] for i in idx]), tol=dict(float64=1e-9, float32=1e-5))


KINDS = ("spatial_coords", "orientations", "inv_f_matrix")


@unit("C21", "whole set and get", [C + "set_spatial_coords", C + "get_spatial_coords", C + "set_orientations", C + "get_orientations", C + "set_inv_f_matrix", C + "get_inv_f_matrix"],
      params=[dict(kind=k, tail=t, **r) for k, ts in (("spatial_coords", ([2],)), ("orientations", ([4],)), ("inv_f_matrix", ([3, 3], [9]))) for t in ts for r in ([dict(ax=["p"])])])
def _(v, kind, tail, ax):
    x, e = make(v, ax)
    y = v.real("y", ax + tail)
    z = v.real("z", ax + tail)
    getattr(e, "set_" + kind)(z.clone())
    getattr(e, "set_" + kind)(y.clone())
    g = getattr(e, "get_" + kind)()
    v.eq("read back", g, y.reshape(-1, 3, 3) if kind == "inv_f_matrix" else y)
    v.eq("patterns untouched", e.patterns, x)


@unit("C21", "the identity when no deformation is given", [C + "set_inv_f_matrix", C + "get_inv_f_matrix"], params=RANKS1)
def _(v, ax):
    x, e = make(v, ax)
    e.set_inv_f_matrix()
    g = e.get_inv_f_matrix()
    v.eq("identity", g, v.T.eye(3, dtype=g.dtype).unsqueeze(0) + x[:, :1, :1] * 0)


@unit("C21", "set and get at selected patterns", [C + "set_spatial_coords", C + "get_spatial_coords", C + "set_orientations", C + "get_orientations", C + "get_inv_f_matrix"],
      params=[dict(kind=k, n=n) for k in KINDS for n in (1, 2, 3, 4)], bounded="stacks of 4 patterns, every selection without repetition")
def _(v, kind, n):
    T = v.T
    x, e = make(v, [N])
    tail = {"spatial_coords": [2], "orientations": [4], "inv_f_matrix": [3, 3]}[kind]
    y = v.real("y", [N] + tail)
    z = v.real("z", [n] + tail)
    for idx in [i for i in IDX if len(i) == n]:
        t = T.tensor(idx)
        getattr(e, "set_" + kind)(y.clone())
        v.eq(f"get at {idx}", getattr(e, "get_" + kind)(t), T.stack([y[i] for i in idx]))
        if kind != "inv_f_matrix":
            getattr(e, "set_" + kind)(z.clone(), t)
            want = T.stack([z[idx.index(i)] if i in idx else y[i] for i in range(N)])
            v.eq(f"set at {idx}: these and no others", getattr(e, "get_" + kind)(), want)
            v.eq(f"set then get at {idx}", getattr(e, "get_" + kind)(t), z)


@unit("C21", "values of the wrong length are refused", [C + "set_spatial_coords", C + "set_orientations", C + "set_inv_f_matrix"], params=[dict(n=n, m=m) for n in (2, 4) for m in (1, 3, 5)])
def _(v, n, m):
    T = v.T
    x, e = make(v, [n])
    for k, t in (("spatial_coords", [2]), ("orientations", [4]), ("inv_f_matrix", [3, 3]), ("inv_f_matrix", [9])):
        _, bad = v.attempt(getattr(e, "set_" + k), T.zeros(m, *t))
        v.holds(f"refused: {k} {t}", T.tensor(bad))
    for t in ([3], [5], [4, 1]):
        _, bad = v.attempt(e.set_orientations, T.zeros(n, *t))
        v.holds(f"refused: orientations {t}", T.tensor(bad))


@unit("C21", "normalisation of every pattern", [C + "normalize_per_pattern"], params=[dict(kind=k, h=h, w=w, **r) for k in ("minmax", "zeromean", "standard") for h, w in ((1, 2), (2, 2)) for r in STACKS])
def _(v, kind, h, w, ax):
    T = v.T
    x, e = make(v, ax, h, w)
    f = flat(x, h * w)
    lo, hi = f.min(-1).values, f.max(-1).values
    if kind == "standard":
        v.require(hi - lo > 1e-2)
    e.normalize_per_pattern(kind)
    g = e.patterns.reshape(-1, h * w)
    tol = dict(float64=1e-8, float32=2e-3)
    if kind == "minmax":
        v.eq("shifted and scaled to the unit range", g * (1e-4 + hi - lo).unsqueeze(-1), f - lo.unsqueeze(-1), tol=tol)
        v.le("not below 0", g * 0, g)
        v.le("not above 1", g, g * 0 + 1)
        return
    m = f.mean(-1, keepdim=True)
    v.eq("zero mean", g.sum(-1), g[:, 0] * 0, tol=dict(float64=1e-8, float32=2e-2))
    if kind == "zeromean":
        v.eq("only shifted", g, f - m, tol=tol)
        return
    d = (((f - m) * (f - m)).sum(-1) / (h * w - 1)).unsqueeze(-1)
    v.eq("unit deviation", (g * g).sum(-1) / (h * w - 1), g[:, 0] * 0 + 1, tol=tol)
    v.eq("shifted and scaled", g * v.T.sqrt(d), f - m, tol=tol)


@unit("C21", "background", [C + "subtract_overall_background"], params=STACKS)
def _(v, ax):
    x, e = make(v, ax)
    f = flat(x, H, W)
    e.subtract_overall_background()
    if len(ax) == 2 and v.sym:
        return
    v.eq("mean pattern removed from each", e.patterns, f - f.mean(0, keepdim=True), tol=dict(float64=1e-9, float32=1e-5))


PHASES = [(0,), (2,), (0, 1), (1, 0), (3, 7), (0, 1, 2)]


@unit("C21", "best phase", [C + "set_raw_indexing_results", C + "combine_indexing_results"], params=[dict(ids=i, up=u, k=k) for i in PHASES for u in (True, False) for k in (1, 2)], budget=60)
def _(v, ids, up, k):
    T = v.T
    x, e = make(v, ["p"], 1, 1)
    q = [v.real(f"q{i}", ["p", k, 4]) for i in ids]
    m = [v.real(f"m{i}", ["p", k]) for i in ids]
    for i, a, b in zip(ids, q, m):
        e.set_raw_indexing_results(a * 2, b * 2, i)
        e.set_raw_indexing_results(a.clone(), b.clone(), i)
    e.combine_indexing_results(up)
    o, s, ph = e.orientations, e.best_metrics, e.phases
    found = None
    for i, a, b in zip(ids, q, m):
        top = b[:, 0].to(s.dtype)
        hit = (ph == i) & (s == top)
        for c in range(4):
            hit = hit & (o[:, c] == a[:, 0, c].to(o.dtype))
        found = hit if found is None else found | hit
        if up:
            v.le(f"no phase is better [{i}]", top, s)
        else:
            v.le(f"no phase is better [{i}]", s, top)
    v.holds("a phase with its own score and orientation", found)
    v.eq("one orientation per pattern", o.sum(-1) * 0, x[:, 0, 0].to(o.dtype) * 0)


@unit("C21", "patterns of each phase", [C + "get_indices_per_phase"], params=[dict(ids=i) for i in itertools.product((0, 1, 2), repeat=4)], bounded="4 patterns, 3 phases, every assignment")
def _(v, ids):
    T = v.T
    x, e = make(v, [4], 1, 1)
    e.phases = T.tensor(list(ids), dtype=T.uint8)
    g = e.get_indices_per_phase()
    for i in range(max(ids) + 1):
        want = [j for j in range(4) if ids[j] == i]
        if not want:
            v.holds(f"no pattern of phase {i}", T.tensor(g[i].numel() == 0))
            continue
        v.eq(f"patterns of phase {i}", g[i].reshape(-1), T.tensor(want, dtype=T.int64))
