"""C23 Wigner d values and spherical harmonic transforms"""
import math
from vc.contract import unit
from .spec import *

W = "ebsdtorch.harmonics.wigner_d_logspace:"
X = "ebsdtorch.harmonics.wigner_d_xnum:"
S = "ebsdtorch.harmonics.sht:"
CC = "ebsdtorch.harmonics.sht_cc:"
META = dict(level="proof")


# ------------------------------------------------------------------ numbers of a wide range
@unit("C23", "renormalised numbers", [X + "xnum_norm"])
def _(v):
    """mantissa times radix to the exponent does not change, mantissas within 690 bits come within 230 bits"""
    T = v.T
    x, k = v.real("x", ["b"], special=(0.0, 1e200, -1e200, 1e-200, 2.0**230, 2.0**-230)), v.integer("k", ["b"], -9, 9)
    y, j = v.fn(X + "xnum_norm")((x.clone(), k.clone()))
    big = 2.0**460
    if v.sym:
        big = v.const(2) ** 460
    up, down = (j == k + 1) & (y * big == x), (j == k - 1) & (y == x * big)
    v.holds("value kept", ((j == k) & (y == x)) | up | down)
    lim = v.const(2) ** 230 if v.sym else 2.0**230
    ok = (x.abs() < lim * big) & (x.abs() * lim * big >= 1)
    v.holds("mantissa in range", ~ok | ((y.abs() < lim) & (y.abs() * lim >= 1)))


@unit("C23", "wide numbers to floats", [X + "xnum_to_fp"], modes=("sym",))
def _(v):
    """exponents of -1, 0 and 1 (others are below the smallest and above the largest float)"""
    x, k = v.real("x", ["b"]), v.integer("k", ["b"], -1, 1)
    y = v.fn(X + "xnum_to_fp")((x, k))
    big = v.const(2) ** 460
    v.holds("value", ((k == 0) & (y == x)) | ((k == 1) & (y == x * big)) | ((k == -1) & (y * big == x)))


@unit("C23", "linear combination of wide numbers", [X + "xnum_sum"], modes=("sym",))
def _(v):
    """all mantissas, factors and exponents: the value is a x + b y, where a term of a mantissa smaller by two exponents is dropped"""
    x, y = v.real("x", ["b"]), v.real("y", ["b"])
    i, j = v.integer("i", ["b"]), v.integer("j", ["b"])
    a, b = v.pyreal("a"), v.pyreal("b")
    z, k = v.fn(X + "xnum_sum")((x, i), (y, j), a, b)
    big = v.const(2) ** 460
    lim = v.const(2) ** 230

    def val(label, cond, want, e):
        # want * big**e is z * big**k
        v.holds(label, ~cond | ((k == e) & (z == want)) | ((k == e + 1) & (z * big == want)) | ((k == e - 1) & (z == want * big)))

    val("same exponent", i == j, a * x + b * y, i)
    val("first larger", i == j + 1, a * x + b * y / big, i)
    val("second larger", j == i + 1, b * y + a * x / big, j)
    val("first much larger", i > j + 1, a * x, i)
    val("second much larger", j > i + 1, b * y, j)


@unit("C23", "powers as wide numbers", [X + "trig_powers_xnum", X + "half_powers_xnum"], modes=("conc",), bounded="powers up to 4000", nsamp=12)
def _(v):
    T = v.T
    beta = v.pyreal("beta", 1e-6, math.pi, special=(math.pi, math.pi / 2, 0.01, 3.13))
    n = v.pyint("n", 0, 4000)
    b = T.tensor(beta, dtype=T.float64)
    c, s = v.fn(X + "trig_powers_xnum")(n, b, T.device("cpu"))
    h = v.fn(X + "half_powers_xnum")(n, T.device("cpu"))
    p = T.arange(n + 1, dtype=T.float64)
    for label, (m, e), base in (("cosine", c, math.cos(beta / 2)), ("sine", s, math.sin(beta / 2)), ("half", h, 0.5)):
        v.holds(label + " shape", tuple(m.shape) == (n + 1,) and tuple(e.shape) == (n + 1,))
        v.holds(label + " exponent type", e.dtype == T.int32)
        v.le(label + " powers", (T.log2(m) + 460.0 * e - p * math.log2(base)).abs(), 1e-12 * (p * abs(math.log2(base)) + 1) + 1e-9)
        v.holds(label + " normalised", (m < 2.0**230) & (m >= 2.0**-230))


@unit("C23", "signed sum of exponentials", [W + "signedlogsumexp"], modes=("conc",), nsamp=40, bounded="sampled")
def _(v):
    T = v.T
    a, b = v.real("a", ["b"], -300, 300, special=(-math.inf, 0.0, 1.0)), v.real("b", ["b"], -300, 300, special=(-math.inf, 0.0, 1.0))
    s, t = v.boolean("s", ["b"]), v.boolean("t", ["b"])
    m, q = v.fn(W + "signedlogsumexp")(a, b, s, t)
    f = lambda z, p: T.where(p, T.ones_like(z), -T.ones_like(z)) * z.exp()
    want = f(a.double(), s) + f(b.double(), t)
    top = T.maximum(a.double(), b.double()).exp()
    v.le("sum", (f(m.double(), q) - want).abs(), (1e-12 if v.dname == "float64" else 1e-4) * top)


# ------------------------------------------------------------------ the table
@unit("C23", "index of (l, m, n)", [W + "index_from_coords", X + "index_from_coords"], modes=("sym",), params=[dict(f=f, r=r) for f in (W, X) for r in range(6)])
def _(v, f, r):
    """all l >= m >= n >= 0: the table is consecutive, so different coordinates have different places and there are no gaps"""
    T = v.T
    c = v.integer("c", ["b", 3], 0)
    l, m, n = T.unbind(c, -1)
    l = 6 * l + r
    c = T.stack([l, m, n], -1)
    g = v.fn(f + "index_from_coords")
    i = g(c)
    v.require(l >= m)
    v.require(m >= n)
    z = T.zeros_like(l)
    v.eq("first", g(T.stack([z, z, z], -1)), 0)
    v.eq("next n", g(T.stack([l, m, n + 1], -1)), i + 1)
    v.eq("next m", g(T.stack([l, m + 1, z], -1)), g(T.stack([l, m, m], -1)) + 1)
    v.eq("next l", g(T.stack([l + 1, z, z], -1)), g(T.stack([l, l, l], -1)) + 1)


@unit("C23", "coordinates of an index", [W + "coords_from_index", W + "index_from_coords", X + "index_from_coords"], modes=("conc",), nsamp=8, bounded="all below 200000, samples up to 2**31")
def _(v):
    T = v.T
    lo = v.pyint("lo", 0, 2**31 - 60000, special=(0, 2**28 - 25000, 2**28, 100000))
    n = 200000 if lo == 0 else 50000
    i = T.arange(lo, lo + n, dtype=T.int64)
    if lo + n < 2**28 and v.pyint("narrow", 0, 1):
        i = i.to(T.int32)
    c = v.fn(W + "coords_from_index")(i)
    l, m, k = c.to(T.int64).unbind(-1)
    v.holds("ordered", (l >= m) & (m >= k) & (k >= 0))
    v.holds("round trip", l * (l + 1) * (l + 2) // 6 + m * (m + 1) // 2 + k == i)
    for f in (W, X):
        v.holds("index", v.fn(f + "index_from_coords")(c.to(T.int64)) == i)


def wigner(v, l, beta):
    """d^l_{mn}(beta) = <m| exp(-i beta J_y) |n>, rows and columns -l..l, in Fukushima's sign convention"""
    T = v.T
    m = T.arange(-l, l + 1, dtype=T.float64)
    up = T.diag((l * (l + 1) - m[:-1] * (m[:-1] + 1)).clamp(min=0).sqrt(), -1)
    jy = T.complex(T.zeros_like(up), -(up - up.T) / 2)
    w, V = T.linalg.eigh(jy)
    w = w.round()
    d = ((V * T.complex(T.cos(beta * w), -T.sin(beta * w))) @ V.conj().T).real
    return d * (1 - 2 * ((m[:, None] - m[None, :]).abs() % 2))


def coords(v, L):
    T = v.T
    r = T.arange(L + 1)
    l, m, n = T.meshgrid(r, r, r, indexing="ij")
    ok = (l >= m) & (m >= n)
    return T.stack([l[ok], m[ok], n[ok]], -1)


def angle(v, lo, hi):
    return v.pyreal("beta", lo, hi, special=tuple(x for x in (0.0, 1e-6, 0.01, math.pi / 2 - 1e-9, math.pi / 2, math.pi / 2 + 1e-9, 3.1315926, math.pi - 1e-6, math.pi) if lo <= x <= hi))



@unit("C23", "d values", [W + "wigner_d_lt_half_pi", W + "wigner_d_eq_half_pi", W + "wigner_d_gt_half_pi", X + "wigner_d_xnum"], modes=("conc",), params=[dict(f=f) for f in ("lt", "eq", "gt", "xnum")], nsamp=14,
      bounded="degrees up to 40")
def _(v, f):
    """the values of the textbook, all orders"""
    T = v.T
    L = v.pyint("L", 0, 40, special=(0, 1, 2, 3))
    beta = {"lt": lambda: angle(v, 0.0, math.pi / 2 - 1e-9), "eq": lambda: math.pi / 2, "gt": lambda: angle(v, math.pi / 2 + 1e-9, math.pi), "xnum": lambda: angle(v, 0.0, math.pi)}[f]()
    cpu = T.device("cpu")
    single = v.dname == "float32" and f != "xnum"
    dt = T.float32 if single else T.float64
    if f == "xnum":
        t = v.fn(X + "wigner_d_xnum")(T.tensor(beta, dtype=T.float64), L, cpu)
    elif f == "eq":
        t = v.fn(W + "wigner_d_eq_half_pi")(L, dt, cpu)
    else:
        t = v.fn(W + f"wigner_d_{f}_half_pi")(beta, L, dt, cpu)
    c = coords(v, L)
    v.holds("shape", tuple(t.shape) == (len(c),) and t.dtype == dt)
    want = T.cat([wigner(v, l, beta)[l:, l:][T.tril(T.ones(l + 1, l + 1, dtype=T.bool))] for l in range(L + 1)])
    v.le("values", (t.double() - want).abs(), (2e-3 if beta > 1e-3 else 2e-2) if single else 2e-11)


@unit("C23", "entries of all signs", [W + "read_lmn_wigner_d_half_pi_table", W + "read_mn_wigner_d_half_pi_table", X + "retrieve_wigner_d"], modes=("conc",), params=[dict(swap=s) for s in (False, True)], nsamp=3,
      bounded="degrees up to 12")
def _(v, swap):
    """the matrices of pi / 2: textbook values for all signs and both index orders, orthogonal"""
    T = v.T
    L = v.pyint("L", 1, 12)
    t = v.fn(W + "wigner_d_eq_half_pi")(L, T.float64, T.device("cpu"))
    for l in range(L + 1):
        r = T.arange(-l, l + 1)
        m, n = T.meshgrid(r, r, indexing="ij")
        d = wigner(v, l, math.pi / 2)
        if swap:
            d = d.T
        c = T.stack([T.full_like(m, l), m, n], -1)
        for g, a in ((W + "read_lmn_wigner_d_half_pi_table", lambda h: h(t, c, swap)), (W + "read_mn_wigner_d_half_pi_table", lambda h: h(t, m, n, l, swap)), (X + "retrieve_wigner_d", lambda h: h(t, c, swap))):
            e = a(v.fn(g))
            v.holds("shape", tuple(e.shape) == (2 * l + 1, 2 * l + 1))
            v.le(g.split(":")[1], (e - d).abs(), 1e-12)
            v.le("orthogonal", (e @ e.T - T.eye(2 * l + 1, dtype=T.float64)).abs(), 1e-12)


# ------------------------------------------------------------------ transforms
@unit("C23", "directions of the grid", [S + "theta_phi_to_xyz"])
def _(v):
    T = v.T
    a = v.real("a", ["b", 2], -10, 10)
    p = v.fn(S + "theta_phi_to_xyz")(a)
    t, f = T.unbind(a, -1)
    v.eq("x", p[..., 0], T.cos(t) * T.sin(f))
    v.eq("y", p[..., 1], T.sin(t) * T.sin(f))
    v.eq("z", p[..., 2], T.cos(f))
    v.eq("on the sphere", (p * p).sum(-1), 1)


def harmonic_basis(v, L, g, real):
    """orthonormal harmonics on the grid, [orders, degrees, azimuth, polar]"""
    T = v.T
    az, po = g[..., 0].double(), g[0, :, 1].double().tolist()
    lo = 0 if real else -(L - 1)
    Y = T.zeros(L - lo, L, 2 * L, 2 * L, dtype=T.complex128)
    for l in range(L):
        d = T.stack([wigner(v, l, b)[:, l] for b in po], -1)
        for m in range(lo, L):
            if abs(m) <= l:
                # the sign of the convention is undone
                Y[m - lo, l] = (-1) ** (m % 2) * math.sqrt((2 * l + 1) / (4 * math.pi)) * d[m + l][None, :] * T.complex(T.cos(m * az), T.sin(m * az))
    return Y


@unit("C23", "spherical harmonic transforms", [S + "CSHT", S + "RSHT", S + "DLT", S + "RDLT", S + "weightedDCST", S + "grid_DriscollHealy", S + "dltWeightsDH", S + "normCm", S + "rnormCm", W + "csht_weights_half_pi", W + "rsht_weights_half_pi"], modes=("conc",), params=[dict(kind=k) for k in ("RSHT", "CSHT")], nsamp=10, bounded="bandwidths 1 to 11")
def _(v, kind):
    """every basis function and random sums: the samples of the function, and back to the coefficients"""
    T = v.T
    L = v.pyint("L", 1, 11)
    double = v.dname == "float64"
    dt = T.float64 if double else T.float32
    cpu = T.device("cpu")
    s = getattr(v.mod("ebsdtorch.harmonics.sht"), kind)(L, cpu, "double" if double else "single")
    g = v.fn(S + "grid_DriscollHealy")(L, dt)
    k = T.arange(2 * L, dtype=T.float64)
    v.holds("grid shape", tuple(g.shape) == (2 * L, 2 * L, 2))
    v.le("azimuths", (g[..., 0].double() - (math.pi * k / L)[:, None]).abs(), 1e-6)
    v.le("polar angles", (g[..., 1].double() - (math.pi * (2 * k + 1) / (4 * L))[None, :]).abs(), 1e-6)
    real = kind == "RSHT"
    lo = 0 if real else -(L - 1)
    m, l = T.meshgrid(T.arange(lo, L), T.arange(L), indexing="ij")
    ok = m.abs() <= l
    re, im = v.real("re", ["b", L - lo, L]).double(), v.real("im", ["b", L - lo, L]).double()
    c = T.complex(re, T.where(m == 0, T.zeros_like(im), im) if real else im) * ok
    # the whole basis as well
    n = int(ok.sum())
    e = T.zeros(n, L - lo, L, dtype=T.complex128)
    e[T.arange(n), m[ok] - lo, l[ok]] = 1
    i = e * (1j * ((m != 0) | (not real)))
    c = T.cat([c, e, i])
    # the grid in double precision
    g = T.stack(T.meshgrid(math.pi * k / L, math.pi * (2 * k + 1) / (4 * L), indexing="ij"), -1)
    Y = harmonic_basis(v, L, g, real)
    f = T.einsum("bml,mlxy->bxy", c, Y)
    if real:
        f = (2 * f - T.einsum("bl,lxy->bxy", c[:, 0], Y[0])).real
    cd = T.complex128 if double else T.complex64
    out = s.isht(c.to(cd))
    tol = (1e-12 if double else 1e-4) * (1 + c.abs().amax(dim=(1, 2)))[:, None, None]
    v.holds("shape of samples", tuple(out.shape) == (len(c), 2 * L, 2 * L))
    v.holds("type of samples", out.dtype == ((dt if real else cd)))
    v.le("samples", (out.to(f.dtype) - f).abs(), tol * L)
    back = s.fsht(f.to(dt if real else cd))
    v.holds("shape of coefficients", tuple(back.shape) == (len(c), L - lo, L))
    v.le("coefficients", (back.to(c.dtype) - c).abs(), tol * L)
    v.le("there and back", (s.fsht(out).to(c.dtype) - c).abs(), tol * L)
    if not real:
        v.le("coefficients of a real signal", (s.fsht(f.real.to(dt)).to(c.dtype) - s.fsht(f.real.to(cd)).to(c.dtype)).abs(), tol * L)


@unit("C23", "cross correlation of functions on the sphere", [CC + "rs2cc_", CC + "rs2cc_fast_", CC + "cs2cc_"], modes=("conc",), nsamp=8, bounded="bandwidths 1 to 5")
def _(v):
    """all three against the sum over degrees and orders of the docstring"""
    T = v.T
    B = v.pyint("B", 1, 5)
    cpu = T.device("cpu")
    one = v.pyint("one", 0, 2)
    m, l = T.meshgrid(T.arange(B), T.arange(B), indexing="ij")

    def real(name, b):
        re, im = v.real(name + "r", ["b", B, B])[:b].double(), v.real(name + "i", ["b", B, B])[:b].double()
        return T.complex(re, T.where(m == 0, T.zeros_like(im), im)) * (m <= l)

    def full(c):
        s = (1 - 2 * (T.arange(1, B) % 2))[None, :, None]
        return T.cat([(c[:, 1:].conj() * s).flip(1), c], 1)

    f, g = real("f", 1 if one == 1 else None), real("g", 1 if one == 2 else None)
    F, G = full(f), full(g)
    n = 2 * B - 1
    D = T.zeros(B, n, n, dtype=T.float64)
    for k in range(B):
        D[k, B - 1 - k : B + k, B - 1 - k : B + k] = wigner(v, k, math.pi / 2)
    r = T.arange(-(B - 1), B, dtype=T.float64)
    E = T.exp(2j * math.pi / n * r[:, None] * T.arange(n)[None, :])
    Dc = D.to(T.complex128)
    want = T.einsum("bml,bnl,lmk,lkn,mx,ky,nz->bxyz", F, G.conj(), Dc, Dc, E, E, E)
    tol = 1e-4 * (1 + want.abs().max())
    table = v.fn(W + "wigner_d_eq_half_pi")(B + 1, T.float32, cpu)
    c64 = T.complex64
    y = v.fn(CC + "rs2cc_")(B, f.to(c64), g.to(c64), table)
    v.holds("shape", tuple(y.shape) == tuple(want.shape))
    v.le("real functions", (y.double() - want.real).abs(), tol)
    v.le("real", want.imag.abs(), tol)
    y = v.fn(CC + "rs2cc_fast_")(B, f.to(c64), g.to(c64), Dc.to(c64))
    v.holds("shape (fast)", tuple(y.shape) == tuple(want.shape))
    v.le("real functions (fast)", (y.double() - want.real).abs(), tol)
    re, im = v.real("hr", ["b", n, B]).double(), v.real("hi", ["b", n, B]).double()
    M, Lq = T.meshgrid(T.arange(-(B - 1), B), T.arange(B), indexing="ij")
    H = T.complex(re, im) * (M.abs() <= Lq)
    want = T.einsum("bml,bnl,lmk,lkn,mx,ky,nz->bxyz", H, G.conj(), Dc, Dc, E, E, E).abs()
    y = v.fn(CC + "cs2cc_")(B, H.to(c64), G.to(c64), table)
    v.holds("shape (complex)", tuple(y.shape) == tuple(want.shape))
    v.le("complex functions", (y.double() - want).abs(), 1e-4 * (1 + want.max()))
