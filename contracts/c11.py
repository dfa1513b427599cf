"""C11 directions reduce into the sector of the Laue class"""
import itertools
from vc.contract import unit, CUR
from .spec import *
from .c07 import GROUPS

F = "ebsdtorch.s2_and_so3.laue_fz_s2:"
G = "ebsdtorch.s2_and_so3.laue_generators:"
META = dict(level="proof", assumptions=[
    "the sector membership function computes with angles; that it is the documented sector is proved for the sectors bounded by meridians (classes 1 to 9) away from its rounding tolerance, and executed for the cubic classes (whose upper bound is a curve)"])
IDS = range(1, 12)
D = math.pi / 180
# meridians that bound the sector of each class (degrees); the cubic classes are also bounded by z >= x, y
WEDGE = {1: None, 2: (0, 180), 3: (0, 90), 4: (0, 90), 5: (0, 45), 6: (-120, 0), 7: (-90, -30), 8: (0, 60), 9: (0, 30), 10: (0, 90), 11: (0, 45)}


def half_planes(v, laue, p):
    """the sector as inequalities e >= 0 (every class: the northern hemisphere, then the meridian planes, then the cubic faces)"""
    x, y, z = p[..., 0], p[..., 1], p[..., 2]
    r = [z]
    w = WEDGE[laue]
    if w is not None:
        def cs(a):
            return tuple(v.const(round(t(a * D) * 2) / 2 if abs(t(a * D) * 2 - round(t(a * D) * 2)) < 1e-9 else t(a * D)) for t in (math.cos, math.sin))
        (c0, s0), (c1, s1) = cs(w[0]), cs(w[1])
        r.append(c0 * y - s0 * x)  # left of the first meridian
        if w[1] - w[0] < 180:
            r.append(s1 * x - c1 * y)  # right of the second
    if laue >= 10:
        r += [z - x, z - y]
    return r


def ops(v, laue):
    """the rotations and rotation-inversions of the class, as matrices, from its named group"""
    for q in GROUPS[laue]:
        m = quat_to_matrix(v, v.const(list(q)))
        yield m
        yield -m


def all_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r & x
    return r


def any_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r | x
    return r


@unit("C11", "equivalent directions", [F + "s2_equiv_laue", G + "laue_elements"], params=[dict(laue=i, **r) for i in IDS for r in RANKS])
def _(v, laue, ax):
    p = v.unitvec("p", ax, 3)
    r = v.fn(F + "s2_equiv_laue")(p, laue)
    n = 2 * len(GROUPS[laue])
    v.holds("one per operator", v.T.tensor(tuple(r.shape)[len(ax):] == (n, 3)))
    # which row is which operator: found on a numeric direction, proved for all
    o = list(ops(v, laue))
    hit = []
    for k, m in enumerate(o):
        e = matvec(m.expand(p.shape[:-1] + (3, 3)) if ax else m, p)
        if not v.sym:
            d = (r - e.unsqueeze(-2)).abs().amax(-1).reshape(-1, n).amax(0)
            j = min((k for k in range(n) if k not in hit), key=lambda k: float(d[k]))
        else:
            j = match(e, [r[..., k, :] for k in range(n)])
        hit.append(j)
        v.eq(f"operator {k} applied to the direction", r[..., j, :], e, tol=dict(float64=1e-12, float32=1e-5))
    v.holds("every operator has its own row", v.T.tensor(sorted(hit) == list(range(n))))
    v.dtype_is("direction", r, p)


def match(e, rows):
    """the row that agrees with e at a sample direction"""
    from vc import terms as tm
    names = {}
    def val(t):
        env = {}
        for x in tm.postorder([t]):
            if x.op in ("var", "ivar"):
                env[x.val] = names.setdefault(x.val, [0.3, -0.5, 0.81, 0.17, 0.62, 0.41][len(names) % 6])
        return float(tm.evaluate(t, env))
    te = [val(x) for x in e.data.reshape(-1)]
    d = [max(abs(val(x) - z) for x, z in zip(r.data.reshape(-1), te)) for r in rows]
    return d.index(min(d))


def oblique(v, laue, ax):
    """any direction; the hexagonal family in coordinates that make its rotations rational"""
    u, w, z = (v.real(n, ax) for n in ("u", "w", "z"))
    if v.sym:
        v.require((u != 0) | (w != 0) | (z != 0))
    if laue in (6, 7, 8, 9):
        return v.T.stack([u * v.const(math.sqrt(3)), w, z] if laue == 7 else [u, w * v.const(math.sqrt(3)), z], -1)
    return v.T.stack([u, w, z], -1)


@unit("C11", "the sector and its images cover the sphere", [G + "laue_elements"], params=[dict(laue=i) for i in IDS], modes=("sym",), budget=60)
def _(v, laue):
    """with the real operator table and the real rotation of a point"""
    p = oblique(v, laue, [])
    q = v.fn("ebsdtorch.s2_and_so3.quaternions:qu_apply")(v.fn(G + "laue_elements")(laue), p.unsqueeze(0))
    n = int(q.shape[0])
    ins = [all_([e >= 0 for e in half_planes(v, laue, s * q[k])]) for k in range(n) for s in (1, -1)]
    v.holds("some image is in the sector", any_(ins))


@unit("C11", "images of the sector do not overlap", [G + "laue_elements"], params=[dict(laue=i) for i in IDS], modes=("sym",), budget=60)
def _(v, laue):
    p = oblique(v, laue, [])
    for e in half_planes(v, laue, p):
        v.require(e > 0)
    q = v.fn("ebsdtorch.s2_and_so3.quaternions:qu_apply")(v.fn(G + "laue_elements")(laue), p.unsqueeze(0))
    n = int(q.shape[0])
    for k in range(n):
        for s in (1, -1):
            if k or s < 0:
                v.holds(f"image {k} {s} of an inner point is outside", any_([e <= 0 for e in half_planes(v, laue, s * q[k])]))


@unit("C11", "sector by its meridians", [F + "s2_in_fz_laue"], params=[dict(laue=i, **r) for i in range(1, 10) for r in RANKS1 + RANKS[:1]], modes=("sym",), budget=60)
def _(v, laue, ax):
    T = v.T
    eta, chi = v.real("eta", ax), v.real("chi", ax)
    v.require((eta > -math.pi) & (eta <= math.pi))
    v.require((chi > 0) & (chi < math.pi))
    p = T.stack([T.sin(chi) * T.cos(eta), T.sin(chi) * T.sin(eta), T.cos(chi)], -1)
    c = v.fn(F + "s2_in_fz_laue")(p, laue)
    w = WEDGE[laue] or (-180, 180)
    lo, hi = w[0] * math.pi / 180, w[1] * math.pi / 180
    v.holds("the closed sector is inside", c | (eta < lo) | (eta > hi) | (chi > math.pi / 2))


def _member_contract(f):
    def g(q, laue):
        """membership as an arbitrary yes/no answer per point"""
        v = CUR[0]
        SEEN.append((q, v.boolean("inside", list(AXES[0]) + [int(q.shape[-2])])))
        return SEEN[-1][1]
    return g


SEEN, AXES = [], [[]]


@unit("C11", "reduction by any membership rule", [F + "s2_to_fz_laue"], params=[dict(laue=i) for i in IDS if i < 11], modes=("sym",), budget=60,
      overrides={("ebsdtorch.s2_and_so3.laue_fz_s2", "s2_in_fz_laue"): _member_contract})
def _(v, laue):
    """one direction: the result is one of its equivalents, and one that the membership rule accepts if it accepts any
    (the 48 candidates of class 11 are out of time: only executed, above)"""
    p = v.real("p", [1, 3])
    SEEN.clear()
    AXES[0] = [1]
    r = v.fn(F + "s2_to_fz_laue")(p, laue)
    e = [matvec(m, p[0]) for m in ops(v, laue)]
    v.eq("equivalent to the input", r[0], e[match(r[0], e)])
    if SEEN:
        q, c = SEEN[-1]
        n = int(q.shape[-2])
        j = match(r[0], [q[0, k] for k in range(n)])
        v.eq("one of the candidates", r[0], q[0, j])
        v.holds("accepted if any is", ~any_([c[0, k] for k in range(n)]) | c[0, j])


def directions(v, n):
    """random directions, and ones on every mirror, axis and pole, and next to them"""
    T = v.T
    d = v.real("d", [n, 3])
    d = T.where(d.norm(dim=-1, keepdim=True) < 1e-3, T.tensor([0.3, -0.5, 0.8], dtype=d.dtype), d)
    I = T.tensor([t for t in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(t)], dtype=d.dtype)
    s3 = math.sqrt(3)
    H, K = I * T.tensor([1, s3, 1], dtype=d.dtype), I * T.tensor([s3, 1, 1], dtype=d.dtype)
    parts = [d, I, H, K]
    for e in (1e-3, 1e-6, 1e-9):
        parts += [t * T.tensor([e, e, 1], dtype=d.dtype) for t in (H, K) ] + [t * T.tensor([1, 1, e], dtype=d.dtype) for t in (H, K)]
    for m in range(24):
        a = m * math.pi / 12
        s = d[: max(1, n // 8)].clone()
        h = T.sqrt(s[:, 0] ** 2 + s[:, 1] ** 2)
        s[:, 0], s[:, 1] = h * math.cos(a), h * math.sin(a)
        parts.append(s)
    for a, b in ((0, 1), (0, 2), (1, 2)):
        for sg in (1, -1):
            s = d[: max(1, n // 8)].clone()
            s[:, a] = sg * s[:, b]
            parts.append(s)
    p = T.cat(parts)
    p = p[p.norm(dim=-1) > 0]
    return p / p.norm(dim=-1, keepdim=True)


@unit("C11", "membership and reduction of directions", [F + "s2_in_fz_laue", F + "s2_to_fz_laue", F + "s2_equiv_laue"], params=[dict(laue=i) for i in IDS], modes=("conc",), nsamp=4,
      bounded="runtime contract: about 2000 directions per run, half of them on mirrors, axes, poles and their rims, both precisions")
def _(v, laue):
    T = v.T
    p = directions(v, v.pyint("n", 1, 400))
    n = len(p)
    eps = 1e-7 if v.dtype == T.float64 else 1e-4
    c = v.fn(F + "s2_in_fz_laue")(p, laue)
    h = T.stack(half_planes(v, laue, p.double()), -1).amin(-1)
    v.holds("inner points are members", c | (h <= eps))
    v.holds("outer points are not members", ~c | (h >= -eps))
    # a pole or a boundary belongs to the closed sector
    v.holds("the closed sector is inside", c | (h < -0.0) | (h.abs() > 0) )
    r = v.fn(F + "s2_to_fz_laue")(p, laue)
    v.holds("shape is kept", T.tensor(tuple(r.shape) == tuple(p.shape)))
    hr = T.stack(half_planes(v, laue, r.double()), -1).amin(-1)
    v.holds("the result is in the sector", hr >= -eps)
    v.holds("the result is a member", v.fn(F + "s2_in_fz_laue")(r, laue))
    o = T.stack([(p.double() @ m.T.double()) for m in ops(v, laue)], 1)
    v.le("the result is equivalent", (o - r.double().unsqueeze(1)).abs().amax(-1).amin(-1), T.full((n,), 1e-12 if v.dtype == T.float64 else 1e-6, dtype=T.float64))
    q = v.fn(F + "s2_equiv_laue")(p, laue)
    inside = T.stack([v.fn(F + "s2_in_fz_laue")(q[:, k], laue) for k in range(q.shape[1])], 1)
    v.holds("some equivalent is a member", inside.any(1))
    ho = T.stack(half_planes(v, laue, q.double()), -1).amin(-1)
    v.holds("one member away from the boundaries", (inside.sum(1) == 1) | (ho.abs().amin(1) < 10 * eps))
    # any layout of the batch
    for shp in ((3,), (1, 3), (2, 1, 3), (2, 2, 3), (2, 2, 2, 3)):
        k = 1
        for s in shp[:-1]:
            k *= s
        z = p[-k:].reshape(shp)
        v.eq(f"batch of shape {shp}", v.fn(F + "s2_to_fz_laue")(z, laue).reshape(-1, 3), r[-k:])
        v.eq(f"equivalents of shape {shp}", v.fn(F + "s2_equiv_laue")(z, laue).reshape(-1, 3), q[-k:].reshape(-1, 3))
    t = p[:8].t().contiguous().t()
    v.eq("any memory layout", v.fn(F + "s2_to_fz_laue")(t, laue), r[:8])


@unit("C11", "sampled directions", [F + "sample_s2_fz_laue_fibonacci", F + "sample_s2_fz_laue_rosca"], params=[dict(laue=i) for i in IDS], modes=("conc",), nsamp=4,
      bounded="runtime contract: 1 to 3000 points asked for")
def _(v, laue):
    T = v.T
    n = v.pyint("n", 1, 3000)
    for f in ("fibonacci", "rosca"):
        s = v.fn(F + "sample_s2_fz_laue_" + f)(laue, n, T.device("cpu"))
        v.holds(f"directions [{f}]", T.tensor(s.ndim == 2 and s.shape[1] == 3))
        v.le(f"unit vectors [{f}]", (s.double().norm(dim=-1) - 1).abs(), T.full((len(s),), 1e-5, dtype=T.float64))
        h = T.stack(half_planes(v, laue, s.double()), -1).amin(-1)
        v.holds(f"all in the sector [{f}]", h >= -1e-4)
        if f == "fibonacci":
            v.holds("about as many as asked for", T.tensor(abs(len(s) - n) <= 3 + 2 * n**0.5))
        else:
            v.holds("some points", T.tensor(len(s) >= (n >= 100)))


@unit("C11", "unknown classes are refused", [F + "s2_in_fz_laue"], params=[dict(bad=b) for b in (0, 12, -1)])
def _(v, bad):
    _, r = v.attempt(v.fn(F + "s2_in_fz_laue"), v.unitvec("p", [], 3), bad)
    v.holds("refused", v.T.tensor(r))
