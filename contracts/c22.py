"""C22 preprocessing filters"""
import math
from vc.contract import unit
from .spec import *

P = "ebsdtorch.preprocessing."
META = dict(level="proof")


# ------------------------------------------------------------------ radial mask
@unit("C22", "radial mask", [P + "radial_mask:get_radial_mask"], params=[dict(default=d) for d in (False, True)], nsamp=12)
def _(v, default):
    """every shape, radius and centre: the pixels closer to the centre than the radius"""
    z = v.real("z", ["h", "w"])
    H, W = z.shape[0], z.shape[1]
    a, b = v.pyreal("a", 0.0, 1.0, special=(0.5, 0.0, 1.0)), v.pyreal("b", 0.0, 1.0, special=(0.5,))
    r = v.pyreal("r", 0.0, None if v.sym else 50.0)
    T = v.T
    if default:
        m = v.fn(P + "radial_mask:get_radial_mask")((H, W))
        a = b = 0.5
        i, j = T.arange(H, dtype=T.float32), T.arange(W, dtype=T.float32)
        d = (i - (H - 1) / 2).reshape(-1, 1) ** 2 + (j - (W - 1) / 2).reshape(1, -1) ** 2
        h, w = T.as_tensor(H) / 2.0, T.as_tensor(W) / 2.0
        want = (d < h * h) & (d < w * w)
    else:
        m = v.fn(P + "radial_mask:get_radial_mask")((H, W), r, (a, b))
        i, j = T.arange(H, dtype=T.float32), T.arange(W, dtype=T.float32)
        d = (i - a * (H - 1)).reshape(-1, 1) ** 2 + (j - b * (W - 1)).reshape(1, -1) ** 2
        want = d < r * r
    if v.sym:
        v.eq("rows", m.shape[0], H)
        v.eq("columns", m.shape[1], W)
        v.iff("pixels within the radius", m, want)
    else:
        v.holds("shape", tuple(m.shape) == (H, W) and m.dtype == T.bool)
        R = min(H, W) / 2 if default else r
        sure = (d.sqrt() - R).abs() > (0 if default else 1e-3)
        v.holds("pixels within the radius", (m == want) | ~sure)


# ------------------------------------------------------------------ Gaussian blur
def flips(v, x):
    yield "columns reversed", v.T.flip(x, [-1])
    yield "rows reversed", v.T.flip(x, [-2])


SIZES = [(4, 4), (4, 5), (5, 4), (5, 5), (6, 7)]


@unit("C22", "Gaussian blur", [P + "resampling:GaussianBlur2d"], modes=("sym",), params=[dict(hw=s, sigma=g) for s in SIZES for g in (0.5, 2 / 3)] + [dict(hw=(7, 8), sigma=1.0)])
def _(v, hw, sigma):
    """all image contents and any batch, sizes as listed (kernels of 5 and 7 pixels)"""
    T = v.T
    h, w = hw
    f = v.fn(P + "resampling:GaussianBlur2d")(sigma)
    x = v.real("x", ["b", 1, h, w])
    y = f(x)
    v.holds("shape", tuple(y.shape[1:]) == (1, h, w))
    c = v.real("c", ["b"])
    k = c.reshape(-1, 1, 1, 1) + T.zeros((1, 1, h, w))
    v.eq("constant image", f(k), k)
    v.eq("columns reversed", f(T.flip(x, [-1])), T.flip(y, [-1]))
    v.eq("rows reversed", f(T.flip(x, [-2])), T.flip(y, [-2]))


def image(v, name, shape):
    """smooth, noisy, constant, two-valued and saturated images with values in [0, 1]"""
    T = v.T
    x = v.real(name, shape, 0.0, 1.0).clone()
    k = v.pyint("kind", 0, 5)
    if k == 1:
        x = x * 0 + 0.3
    elif k == 2:
        x = (x > 0.7).to(x.dtype)
    elif k == 3:
        x = x * 0.2 + 0.8 * T.linspace(0, 1, shape[-1], dtype=x.dtype)
    elif k == 4:
        x = (x * 2).clamp(max=1.0)
    return x


@unit("C22", "Gaussian blur of larger images", [P + "resampling:GaussianBlur2d"], modes=("conc",), nsamp=30, bounded="images up to 50 pixels wide, sigma in [0.2, 4]")
def _(v):
    T = v.T
    sigma = v.pyreal("sigma", 0.2, 4.0, special=(0.5, 1.0, 2 / 3, 4 / 3, 1.5))
    h, w, b = v.pyint("h", 28, 50), v.pyint("w", 28, 50), v.pyint("b", 1, 3)
    cut = v.pyint("cut", 2, 3)
    refl = v.pyint("refl", 0, 1) == 1
    f = v.fn(P + "resampling:GaussianBlur2d")(sigma, cut, refl).to(v.dtype)
    x = v.real("x", [b, 1, h, w], 0.0, 1.0)
    y = f(x)
    v.holds("shape", tuple(y.shape) == (b, 1, h, w))
    # separable Gaussian of at least the cutoff, mirrored without repeating the border
    n = (f.kernel.shape[-1] - 1) // 2
    v.holds("kernel reaches the cutoff", n >= math.floor(cut * sigma - 1e-9) and f.kernel.shape[-1] == 2 * n + 1 == f.kernel.shape[-2])
    t = T.arange(-n, n + 1, dtype=T.float64)
    g = T.exp(-t * t / (2 * sigma * sigma))
    g = g / g.sum()
    z = x.double()
    for d in (-1, -2):
        L = z.shape[d]
        idx = T.arange(-n, L + n)
        m = idx.abs()
        m = T.where(m > L - 1, 2 * (L - 1) - m, m)
        ok = ((idx >= 0) & (idx < L)) | refl
        p = z.index_select(d, m)
        p = p * (ok.double() if d == -1 else ok.double()[:, None])
        z = sum(g[i] * p.narrow(d, i, L) for i in range(2 * n + 1))
    v.eq("Gaussian average", y, z.to(y.dtype), tol=1e-5)
    if refl:
        v.eq("constant image", f(x * 0 + 0.7), x * 0 + 0.7, tol=1e-5)


@unit("C22", "blur and downsample", [P + "resampling:BlurAndDownsample"], modes=("conc",), nsamp=40, bounded="images up to 64 pixels wide, factors 1 to 8 and 49")
def _(v):
    T = v.T
    k = v.pyint("k", 0, 9)
    s = [1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 7.0, 8.0, 49.0][k]
    mode = ["bicubic", "bilinear", "area"][v.pyint("mode", 0, 2)]
    kw = dict(align_corners=v.pyint("align", 0, 1) == 1) if mode in ("bicubic", "bilinear") else dict(align_corners=None)
    lo = 2 * int(2 * s / 6 * 3) + 2
    lo = max(lo, int(math.ceil(s)))
    h, w = v.pyint("h", 0, 20) + lo, v.pyint("w", 0, 20) + lo
    if k == 9:
        h = 98
    x = v.real("x", [2, 1, h, w], 0.0, 1.0)
    f = v.fn(P + "resampling:BlurAndDownsample")(s, mode, **kw).to(v.dtype)
    y = f(x)
    v.holds("shape", tuple(y.shape) == (2, 1, int(h / s + 1e-9), int(w / s + 1e-9)))
    v.eq("constant image", f(x * 0 + 0.7), y * 0 + 0.7, tol=1e-4)
    v.eq("rows reversed", f(T.flip(x, [-2])), T.flip(y, [-2]), tol=1e-4)
    v.eq("columns reversed", f(T.flip(x, [-1])), T.flip(y, [-1]), tol=1e-4)


# ------------------------------------------------------------------ neighbour averaging
@unit("C22", "neighbour averaging", [P + "nlpar:nlpar"], modes=("conc",), nsamp=60, bounded="scans up to 6 x 6, radii 1 to 3")
def _(v):
    """the scan carries a marker per pattern, so that the result shows the weight of every pattern"""
    T = v.T
    hs, ws, k = v.pyint("hs", 1, 6), v.pyint("ws", 1, 6), v.pyint("k", 1, 3)
    bias = [0.0, 0.0, 2.0][v.pyint("bias", 0, 2)]
    coeff = v.pyreal("coeff", 0.2, 0.9, special=(0.375,))
    n = hs * ws
    d = v.real("d", [hs, ws, 4, 5], 0.0, 1.0).clone()
    kind = v.pyint("kind", 0, 5)
    if kind == 1:
        d[:] = d[0, 0]
    elif kind == 2:
        d[:] = 0.3
    elif kind == 3:
        d[-1, -1] = d[0, 0]
        d[0, -1] = d[0, 0]
    elif kind == 4:
        d = d * 255
    elif kind == 5:
        d = d[0, 0] + 0.01 * d
    e = 1e-6 * T.eye(n, dtype=d.dtype).reshape(hs, ws, n, 1) if kind not in (1, 2, 3) else T.zeros(hs, ws, n, 1, dtype=d.dtype)
    x = T.cat([d.reshape(hs, ws, 20, 1), T.ones(hs, ws, 1, 1, dtype=d.dtype) * 3, e], dim=2)
    y = v.fn(P + "nlpar:nlpar")(x, k, coeff, 1e-6, bias)
    v.holds("shape", tuple(y.shape) == tuple(x.shape))
    v.holds("numbers", T.isfinite(y).all())
    v.eq("weights sum to one", y[:, :, 20] / 3, T.ones(hs, ws, 1, dtype=d.dtype), tol=1e-5)
    m = float(d.abs().max())
    for i in range(hs):
        for j in range(ws):
            near = d[max(0, i - k) : i + k + 1, max(0, j - k) : j + k + 1].reshape(-1, 20)
            o = y[i, j, :20, 0]
            v.holds("between the neighbours", ((o <= near.amax(0) + 1e-5 * m) & (o >= near.amin(0) - 1e-5 * m)).all())
            if kind not in (1, 2, 3):
                W = (y[i, j, 21:, 0] * 1e6).reshape(hs, ws)
                v.holds("weights are not negative", (W > -1e-5).all())
                far = T.ones(hs, ws, dtype=T.bool)
                far[max(0, i - k) : i + k + 1, max(0, j - k) : j + k + 1] = False
                v.holds("neighbours only", (W[far].abs() < 1e-5).all())
                v.eq("average with these weights", o, (W.reshape(-1, 1) * d.reshape(n, 20)).sum(0), tol=2e-5 * max(1.0, m))
                # the own pattern is the closest one
                v.holds("own pattern first", W[i, j] >= W.max() - 1e-5)


# ------------------------------------------------------------------ contrast equalisation
def clahe(x, clip, bins, grid):
    """one image, one pixel at a time (float64): histogram of every tile of the image mirrored at the far borders, clipped,
    the excess spread evenly, and its cumulative sum; pixels take the trilinear interpolation of the cumulative sums"""
    import numpy as np

    H, W = x.shape
    gh, gw = grid
    th, tw = -(-H // gh), -(-W // gw)
    p = np.pad(x, ((0, th * gh - H), (0, tw * gw - W)), mode="reflect")
    n = th * tw
    cdf = np.zeros((gh, gw, bins))
    for a in range(gh):
        for b in range(gw):
            t = p[a * th : (a + 1) * th, b * tw : (b + 1) * tw]
            h = np.bincount((t * x.dtype.type(bins - 1)).astype(int).reshape(-1), minlength=bins).astype(float)
            if clip > 0:
                h = np.minimum(h, max(clip * n // bins, 1))
                e = int(round(n - h.sum()))
                h += e // bins
                h[: e % bins] += 1
            cdf[a, b] = np.cumsum(h) / n
    cdf = cdf.clip(0, 1)

    def taps(u, m):
        u = np.clip(u, 0, m - 1)
        i = int(np.floor(u))
        return (i, min(i + 1, m - 1), u - i)

    out = np.zeros(x.shape)
    ys, xs = (np.linspace(0, 1, m) if m > 1 else np.zeros(1) for m in (H, W))
    curve = np.zeros((H, W, bins))
    for i in range(H):
        a0, a1, fa = taps(ys[i] * gh - 0.5, gh)
        for j in range(W):
            b0, b1, fb = taps(xs[j] * gw - 0.5, gw)
            c = (1 - fa) * ((1 - fb) * cdf[a0, b0] + fb * cdf[a0, b1]) + fa * ((1 - fb) * cdf[a1, b0] + fb * cdf[a1, b1])
            k0, k1, fk = taps(float(x[i, j]) * bins - 0.5, bins)
            out[i, j] = (1 - fk) * c[k0] + fk * c[k1]
    return out


@unit("C22", "contrast equalisation", [P + "clahe:clahe_grayscale"], modes=("conc",), nsamp=60, bounded="images up to 40 pixels wide, grids up to 5 x 5, 2 to 100 bins")
def _(v):
    T = v.T
    gh, gw = v.pyint("gh", 1, 5), v.pyint("gw", 1, 5)
    h, w, b = v.pyint("h", 10, 40), v.pyint("w", 10, 40), v.pyint("b", 1, 2)
    # (the far border is only mirrored once)
    h, w = max(h, 2 * gh), max(w, 2 * gw)
    bins = [2, 10, 64, 100][v.pyint("bins", 0, 3)]
    clip = v.pyreal("clip", 0.0, 40.0, special=(0.0, 1.0, 2.0, 40.0))
    x = image(v, "x", [b, 1, h, w])
    keep = x.clone()
    y = v.fn(P + "clahe:clahe_grayscale")(x, clip, bins, (gh, gw))
    v.holds("input left unchanged", T.equal(x, keep))
    v.holds("shape", tuple(y.shape) == (b, 1, h, w))
    v.holds("in [0, 1]", ((y >= -1e-6) & (y <= 1 + 1e-6)).all())
    r = T.stack([T.tensor(clahe(x[k, 0].numpy(), clip, bins, (gh, gw))) for k in range(b)])[:, None]
    v.eq("equalised image", y, r.to(y.dtype), tol=2e-4)
    if (gh, gw) == (1, 1):
        for k in range(b):
            s, o = x[k].reshape(-1).sort()
            z = y[k].reshape(-1)[o]
            v.holds("monotone", (z[1:] >= z[:-1] - 1e-5).all())


@unit("C22", "contrast equalisation is monotone", [P + "clahe:clahe_grayscale"], modes=("conc",), nsamp=25, bounded="images up to 40 pixels wide")
def _(v):
    """raising pixels within their histogram bin does not lower the result anywhere"""
    T = v.T
    gh, gw = v.pyint("gh", 1, 4), v.pyint("gw", 1, 4)
    h, w = v.pyint("h", 10, 40), v.pyint("w", 10, 40)
    bins = [8, 64][v.pyint("bins", 0, 1)]
    x = image(v, "x", [1, 1, h, w])
    clip = v.pyreal("clip", 0.0, 40.0, special=(1.0, 40.0))
    f = lambda z: v.fn(P + "clahe:clahe_grayscale")(z, clip, bins, (gh, gw))
    d = (x * (bins - 1)).floor()
    lo, hi = (d + 0.05) / (bins - 1), (d + 0.9) / (bins - 1)
    lo, hi = lo.clamp(0, 1), hi.clamp(0, 1)
    v.holds("monotone", (f(hi) >= f(lo) - 1e-5).all())
    # left and right, top and bottom are treated alike where the tiles divide the image
    if h % gh == 0 and w % gw == 0:
        v.eq("columns reversed", f(T.flip(x, [-1])), T.flip(f(x), [-1]), tol=2e-4)
        v.eq("rows reversed", f(T.flip(x, [-2])), T.flip(f(x), [-2]), tol=2e-4)
