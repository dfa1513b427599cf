"""C25 master pattern: lookup, binning, normalisation"""
import itertools
from vc.contract import unit, CUR
from .spec import *

P = "ebsdtorch.ebsd.master_pattern:MasterPattern."
S = "ebsdtorch.s2_and_so3.sphere"
META = dict(level="bounded", assumptions=[
    "torch.nn.functional.grid_sample by its contract: bilinear interpolation is the hat-function sum over the pixels, border padding clamps the pixel position, each grid point on its own",
    "rosca_lambert and rosca_lambert_side_by_side by their contract (C13): a point of the square for every direction, the same one for both hemispheres",
    "the factorisation used to fold the points into a grid only reshapes them (C24: the product of the factors is the count)",
    "nearest and bicubic modes are executed, not proved"])


def proj(name):
    """the projection by its contract: one point of the square per direction (recorded, so that the specification can refer to it)"""
    def f(p):
        v = CUR[0]
        PROJ.append(p)
        xy = XY[0]
        if name == "rosca_lambert":
            return v.T.stack(xy, -1)
        return v.T.stack((xy[0] / 2 + v.where(p[..., 2] < 0, v.const(0.5), v.const(-0.5)), xy[1]), -1)
    return f


PROJ, XY = [], [None]
OV = {("ebsdtorch.ebsd.master_pattern", "rosca_lambert"): lambda f: proj("rosca_lambert"),
      ("ebsdtorch.ebsd.master_pattern", "rosca_lambert_side_by_side"): lambda f: proj("side"),
      (S, "rosca_lambert"): lambda f: proj("rosca_lambert"),
      (S, "rosca_lambert_side_by_side"): lambda f: proj("side"),
      ("ebsdtorch.ebsd.master_pattern", "nearly_square_factors"): lambda f: (lambda n: (n, 1))}


def lambert(T, p):
    """Rosca & De Graef: the concentric square map of the disc of the equal-area projection"""
    x, y, z = p.double().unbind(-1)
    r = T.sqrt((2 * (1 - z.abs())).clamp(min=0)) / math.sqrt(2)  # half side of the square of this latitude
    ax, ay = x.abs(), y.abs()
    t = T.atan2(T.minimum(ax, ay), T.maximum(ax, ay)) * (4 / math.pi)
    sg = lambda a: T.where(a < 0, -1.0, 1.0)
    a = T.where(ay <= ax, r, r * t) * sg(x)
    b = T.where(ay <= ax, r * t, r) * sg(y)
    return a, b


def clampf(v, x, n):
    return x.clamp(0, n - 1)


def position(x, n, corners):
    return (x + 1) * (n - 1) / 2 if corners else ((x + 1) * n - 1) / 2


def bilinear(v, img, px, py):
    """hat functions on the pixel centres of one hemisphere"""
    T = v.T
    h, w = img.shape
    r = px * 0
    for i in range(h):
        wy = (1 - abs(py - i)).clamp(min=0)
        row = px * 0
        for j in range(w):
            row = row + (1 - abs(px - j)).clamp(min=0) * img[i, j]
        r = r + wy * row
    return r


SHAPES = [(1, 1), (2, 2), (2, 3), (3, 2)]
B = [dict(hw=s, ac=c, **r) for s in SHAPES for c in (False, True) for r in RANKS]


@unit("C25", "value of the hemisphere at the projected point", [P + "__init__", P + "interpolate"], params=B, overrides=OV, modes=("sym",),
      bounded="images of up to 3 x 2 pixels per hemisphere; every pixel value, direction and batch")
def _(v, hw, ac, ax):
    T = v.T
    h, w = hw
    img = v.real("img", [h, 2 * w])
    d = v.real("d", ax + [3])
    n2 = (d * d).sum(-1)
    v.require(n2 > 0)
    XY[0] = (v.real("sx", ax), v.real("sy", ax))
    for t in XY[0]:
        v.require((t <= 1) & (t >= -1))
    PROJ.clear()
    mp = v.fn(P[:-1])(img, laue_group=1)
    r = mp.interpolate(d, align_corners=ac)
    v.eq("as many values as directions", T.tensor(list(r.shape)) if not ax else r * 0, T.tensor(list(d.shape[:-1])) if not ax else n2 * 0)
    v.holds("looked up once", T.tensor(len(PROJ) >= 1))
    for p in PROJ:
        v.eq("projected direction has length 1", (p * p).sum(-1), n2 * 0 + 1)
        p = p.reshape(d.shape)
        v.eq("projected direction is the direction", p * T.sqrt(n2).unsqueeze(-1), d)
    px, py = (clampf(v, position(t, n, ac), n) for t, n in zip(XY[0], (w, h)))
    north, south = bilinear(v, img[:, :w], px, py), bilinear(v, img[:, w:], px, py)
    v.eq("north", v.where(d[..., 2] > 0, r, north), north)
    v.eq("south", v.where(d[..., 2] < 0, r, south), south)
    v.holds("equator", (d[..., 2] != 0) | (r == north) | (r == south))


@unit("C25", "no normalisation of the directions", [P + "interpolate"], params=RANKS, overrides=OV, modes=("sym",))
def _(v, ax):
    d = v.real("d", ax + [3])
    XY[0] = (v.real("sx", ax), v.real("sy", ax))
    for t in XY[0]:
        v.require((t <= 1) & (t >= -1))
    PROJ.clear()
    mp = v.fn(P[:-1])(v.real("img", [2, 4]), laue_group=1)
    mp.interpolate(d, normalize_coords=False)
    for p in PROJ:
        v.eq("used as given", p.reshape(d.shape), d)


@unit("C25", "weights of the lookup", [], params=[dict(n=n) for n in (1, 2, 3, 4, 5)], modes=("sym",), note="lemma: the hat weights are nonnegative and sum to 1, so the value is within the range of the image; at a pixel centre the weight of that pixel is 1")
def _(v, n):
    t = v.real("t", [])
    t = t.clamp(0, n - 1)
    w = [(1 - abs(t - i)).clamp(min=0) for i in range(n)]
    s = t * 0
    for i, a in enumerate(w):
        v.le(f"weight {i} is not negative", t * 0, a)
        v.eq(f"weight {i} at its centre", v.where(t == i, a, t * 0 + 1), t * 0 + 1)
        s = s + a
    v.eq("weights sum to 1", s, s * 0 + 1)


@unit("C25", "lookups on real images", [P + "__init__", P + "interpolate", P + "bin"],
      params=[dict(mode=m, ac=c, tup=t) for m in ("bilinear", "nearest", "bicubic") for c in (False, True) for t in (False, True)], modes=("conc",), nsamp=8,
      bounded="runtime contract: hemispheres of 1 to 40 x 1 to 40 pixels, 1 to 400 directions of every rank up to 3, poles, equator, edges and corners of the square included")
def _(v, mode, ac, tup):
    T = v.T
    h, w = v.pyint("h", 1, 40), v.pyint("w", 1, 40)
    n = v.pyint("n", 0, 6)
    shp = [[], [1], [7], [3, 5], [2, 3, 4], [400], [20, 20]][n]
    img = v.real("img", [h, 2 * w]) * 10
    N, So = img[:, :w], img[:, w:]
    d = v.real("d", shp + [3])
    fl = d.reshape(-1, 3).clone()
    sp = T.tensor([[0, 0, 1.0], [0, 0, -1], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [1, 1, 0.001], [1, -1, -0.001], [-1, -1, 1e-3], [1, 1e-4, 1], [0.01, 1, -0.01], [-1, 0.02, 0.01]], dtype=d.dtype)
    k = min(len(fl) // 2, len(sp))
    fl[:k] = sp[:k]
    d = fl.reshape(shp + [3])
    d = T.where(d.norm(dim=-1, keepdim=True) < 1e-3, T.tensor([0.0, 0, 1], dtype=d.dtype), d)
    mp = v.fn(P[:-1])((N.clone(), So.clone()) if tup else img.clone(), laue_group=2)
    r = mp.interpolate(d, mode=mode, align_corners=ac)
    v.holds("batch shape of the query", T.tensor(tuple(r.shape) == tuple(d.shape[:-1])))
    u = d / d.norm(dim=-1, keepdim=True)
    a, b = lambert(T, u)
    px, py = (position(t, m, ac).clamp(0, m - 1) for t, m in ((a, w), (b, h)))
    south = u[..., 2] < 0
    lo = img.min() if mode != "bicubic" else img.min() - 30
    hi = img.max() if mode != "bicubic" else img.max() + 30
    v.holds("within the range of the image", (r >= lo - 1e-3) & (r <= hi + 1e-3))
    eps = 1e-9 if v.dtype == T.float64 else 2e-3
    if mode == "bilinear":
        near = abs(u[..., 2]) < 1e-12
        e = T.where(south, bilinear(v, So.double(), px, py), bilinear(v, N.double(), px, py))
        v.le("bilinear value of the hemisphere", T.where(near, 0 * e, (r - e).abs()), 0 * e + eps * (1 + 40))
    elif mode == "nearest":
        x0, y0 = px.round().long(), py.round().long()
        e = T.where(south, So[y0, x0], N[y0, x0])
        tie = ((px - px.floor() - 0.5).abs() < 1e-3) | ((py - py.floor() - 0.5).abs() < 1e-3)
        v.holds("value of the nearest pixel", tie | ((r - e).abs() < 1e-9))
    v.eq("length does not matter", mp.interpolate(d * 3.5, mode=mode, align_corners=ac), r, tol=dict(float64=1e-7, float32=2e-1 if mode != "nearest" else 30.0))
    # pixel centres
    c = lambda m: (T.arange(m, dtype=d.dtype) * 2 / max(m - 1, 1) - (1 if m > 1 else 0)) if ac else (2 * T.arange(m, dtype=d.dtype) + 1) / m - 1
    gx, gy = T.meshgrid(c(w), c(h), indexing="xy")
    pt = unlambert(T, gx, gy)
    inside = T.maximum(gx.abs(), gy.abs()) < 0.999 if ac else T.ones(h, w, dtype=T.bool)
    for sgn, im in ((1, N), (-1, So)):
        p = T.stack((pt[0], pt[1], sgn * pt[2]), -1)
        e = mp.interpolate(p, mode=mode, align_corners=ac)
        v.le("exact at pixel centres", T.where(inside, (e - im).abs(), 0 * im), 0 * im + (1e-6 if v.dtype == T.float64 else 5e-2))


def unlambert(T, a, b):
    m, s = T.maximum(a.abs(), b.abs()), T.minimum(a.abs(), b.abs())
    t = T.where(m > 0, s / T.where(m > 0, m, 1.0), 0.0) * (math.pi / 4)
    z = 1 - m * m
    rho = m * T.sqrt((2 - m * m).clamp(min=0))
    big, sml = rho * T.cos(t), rho * T.sin(t)
    sg = lambda q: T.where(q < 0, -1.0, 1.0)
    first = b.abs() <= a.abs()
    return sg(a) * T.where(first, big, sml), sg(b) * T.where(first, sml, big), z


@unit("C25", "binning", [P + "bin", P + "interpolate"], params=[dict(h=h, w=w, k=k) for h, w in ((2, 2), (4, 2), (3, 3), (2, 3), (6, 3)) for k in (1, 2, 3) if k <= min(h, w)], bounded="hemispheres of up to 6 x 3 pixels, every pixel value")
def _(v, h, w, k):
    T = v.T
    img = v.real("img", [h, 2 * w])
    mp = v.fn(P[:-1])(img.clone(), laue_group=1)
    mp.bin(k)
    g = mp.master_pattern_binned
    v.holds("as many bins as fit", T.tensor(tuple(g.shape) == (h // k, 2 * (w // k))))
    v.eq("the pattern is kept", mp.master_pattern, img)
    for s, im in ((0, img[:, :w]), (w // k, img[:, w:])):
        q = g[:, s : s + w // k]
        lo, hi = im.reshape(-1).min(), im.reshape(-1).max()
        if h % k == 0 and w % k == 0:
            for i in range(h // k):
                for j in range(w // k):
                    m = im[i * k : i * k + k, j * k : j * k + k].reshape(-1).sum() / (k * k)
                    v.eq(f"mean of the block [{s}, {i}, {j}]", q[i, j], m)
        elif not v.sym:
            v.holds("within the range of its hemisphere", (q >= lo - 1e-6) & (q <= hi + 1e-6))


@unit("C25", "binning of every size", [P + "bin", P + "interpolate", P + "normalize"], params=[dict(k=k) for k in (2, 3, 4, 5)], modes=("conc",), nsamp=12, bounded="runtime contract: hemispheres of up to 41 x 41 pixels")
def _(v, k):
    T = v.T
    h, w = v.pyint("h", k, 41), v.pyint("w", k, 41)
    a, b = T.full((h, w), 2.0, dtype=v.dtype), T.full((h, w), -3.0, dtype=v.dtype)
    mp = v.fn(P[:-1])((a, b), laue_group=1)
    d = v.real("d", [50, 3])
    d = T.where(d.norm(dim=-1, keepdim=True) < 1e-3, T.tensor([0.0, 0, 1], dtype=d.dtype), d)
    south = d[:, 2] < 0
    want = T.where(south, -3.0, 2.0).to(v.dtype)
    v.eq("constant hemispheres stay constant", mp.interpolate(d, virtual_binning=k), want, tol=1e-5)
    # position of the content: a linear ramp stays the same ramp, away from the rim
    ramp = ((T.arange(w, dtype=v.dtype) * 2 + 1) / w - 1).expand(h, w)
    ramq = ((T.arange(h, dtype=v.dtype) * 2 + 1) / h - 1).unsqueeze(-1).expand(h, w)
    lx, ly = lambert(T, d / d.norm(dim=-1, keepdim=True))
    for im, t in ((ramp, lx), (ramq, ly)):
        mp = v.fn(P[:-1])((im.clone(), im.clone()), laue_group=1)
        mp.interpolate(d, virtual_binning=2 if k != 2 else 3) if min(h, w) >= 3 else None
        r = mp.interpolate(d, virtual_binning=k)
        m, n = h // k, w // k
        away = (t.abs() < 1 - 1.0 / (n if t is lx else m))
        v.le("content is not moved", T.where(away, (r.double() - t).abs(), 0 * t), 0 * t + (1e-4 if (w if t is lx else h) % k == 0 else 1.0 / (w if t is lx else h)))
    x = v.real("x", [h, 2 * w]) * 5
    mp = v.fn(P[:-1])(x.clone(), laue_group=1)
    mp.interpolate(d, virtual_binning=k)
    mp.normalize("zeromean")
    fresh = v.fn(P[:-1])(mp.master_pattern.clone(), laue_group=1)
    v.eq("binning follows the pattern", mp.interpolate(d, virtual_binning=k), fresh.interpolate(d, virtual_binning=k), tol=1e-5)


@unit("C25", "normalisation", [P + "normalize"], params=[dict(kind=k, h=h, w=w) for k in ("minmax", "zeromean", "standard") for h, w in ((1, 1), (1, 2), (2, 1))], bounded="images of up to 4 pixels, every pixel value")
def _(v, kind, h, w):
    T = v.T
    n = h * w * 2
    img = v.real("img", [h, 2 * w])
    f = img.reshape(-1)
    lo, hi = f.min(), f.max()
    if kind == "standard":
        v.require(hi - lo > 1e-2)
    mp = v.fn(P[:-1])(img.clone(), laue_group=1)
    mp.normalize(kind)
    v.holds("shape is kept", T.tensor(tuple(mp.master_pattern.shape) == (h, 2 * w)))
    g = mp.master_pattern.reshape(-1)
    tol = dict(float64=1e-8, float32=2e-3)
    for i in range(n):
        for j in range(n):
            if i != j:
                v.holds(f"order is kept [{i}, {j}]", (f[i] > f[j]) | (g[i] <= g[j]))
    if kind == "minmax":
        v.eq("shifted and scaled to the unit range", g * (1e-4 + hi - lo), f - lo, tol=tol)
        v.le("not below 0", g * 0, g)
        v.le("not above 1", g, g * 0 + 1)
        return
    m = f.sum() / n
    v.eq("zero mean", g.sum(), g[0] * 0, tol=dict(float64=1e-8, float32=2e-2))
    if kind == "zeromean":
        v.eq("only shifted", g, f - m, tol=tol)
        return
    d = ((f - m) * (f - m)).sum() / (n - 1)
    v.eq("unit deviation", (g * g).sum() / (n - 1), g[0] * 0 + 1, tol=tol)
    v.eq("shifted and scaled", g * T.sqrt(d), f - m, tol=tol)


@unit("C25", "construction", [P + "__init__"], params=[dict(h=2, w=2)])
def _(v, h, w):
    T = v.T
    a, b = v.real("a", [h, w]), v.real("b", [h, w])
    cls = v.fn(P[:-1])
    mp = cls((a, b), space_group=225)
    v.eq("north on the left", mp.master_pattern[:, :w], a)
    v.eq("south on the right", mp.master_pattern[:, w:], b)
    v.holds("class of the space group", T.tensor(mp.laue_group == 11))
    v.holds("class as given", T.tensor(cls(a, laue_group=7).laue_group == 7))
    for kw in (dict(), dict(laue_group=1, space_group=2), dict(laue_group=1, point_group="1"), dict(space_group=2, point_group="1")):
        _, bad = v.attempt(lambda: cls(a, **kw))
        v.holds(f"refused {kw}", T.tensor(bad))
    for x in (a[0], a.unsqueeze(0), (a[0], b[0])):
        _, bad = v.attempt(lambda: cls(x, laue_group=1))
        v.holds("only images", T.tensor(bad))
    _, bad = v.attempt(mp.normalize, "other")
    v.holds("unknown normalisation is refused", T.tensor(bad))
