"""C24 binned mutual information and the nearly square factorisation"""
import itertools
from vc.contract import unit
from .spec import *

M = "ebsdtorch.utils.mutual_information:"
F = "ebsdtorch.utils.factorize:"
META = dict(level="bounded", assumptions=[
    "symmetry, nonnegativity, maximality at the image itself and invariance under a common shuffle are theorems of information theory about the mutual information of the binned images, which the contract equates the result with; they are also executed directly"])


@unit("C24", "product of the two factors", [F + "nearly_square_factors"], params=[dict(n=n) for n in range(0, 8)],
      overrides={("ebsdtorch.utils.factorize", "FactorECM"): lambda v: (lambda n: list(FACTORS))}, modes=("sym",),
      bounded="prime factorisations of up to 7 factors; FactorECM by its contract: a list of factors with product n")
def _(v, n):
    FACTORS[:] = [v.pyint(f"p{i}", 2) for i in range(n)]
    prod = 1
    for p in FACTORS:
        prod = prod * p
    a, b = v.fn(F + "nearly_square_factors")(prod)
    T = v.T
    v.eq("product", T.tensor(a * b), T.tensor(prod))
    v.holds("positive", T.tensor(1 <= a) & T.tensor(1 <= b))


FACTORS = []


@unit("C24", "factorisation", [F + "nearly_square_factors", F + "FactorECM"], params=[dict(lo=lo) for lo in (1, 5001, 60000, 10**6, 10**9)], modes=("conc",), nsamp=1, cbudget=60,
      bounded="every integer in 1..10000 and 60000..70000, 200 integers about 1e6 and 1e9, products of two primes")
def _(v, lo):
    f, fac = v.fn(F + "nearly_square_factors"), v.fn(F + "FactorECM")
    if lo <= 60000:
        ns = range(lo, lo + (10000 if lo == 60000 else 5000))
    else:
        ns = list(range(lo, lo + 200)) + [1009 * 1013, 65537, 65537 * 3, 2**17, 2**20, 257**2 * 3]
    for n in ns:
        p = fac(n)
        prod = 1
        for z in p:
            prod *= z
        v.holds("factors multiply to the number", v.T.tensor(prod == n), margin=None) if prod != n else None
        if n < 70000 and any(z < 2 or any(z % d == 0 for d in range(2, int(z**0.5) + 1)) for z in p):
            v.holds(f"factors of {n} are prime", v.T.tensor(False))
        a, b = f(n)
        if a * b != n or a < 1 or b < 1:
            v.holds(f"two factors of {n}", v.T.tensor(False))
        # the greedy split puts every factor on the smaller side: no prime of the larger side can exceed the ratio
        big, small = max(a, b), min(a, b)
        if big > small * max(p, default=1):
            v.holds(f"nearly square: {n} -> {a} x {b}", v.T.tensor(False))
    v.holds("all numbers done", v.T.tensor(True))


def counts(T, a, b, na, nb):
    h = T.zeros(na, nb, dtype=T.float64)
    for i, j in zip(a.tolist(), b.tolist()):
        h[i, j] += 1
    return h


def entropy(T, p):
    p = p[p > 0]
    return -(p * T.log(p)).sum()


def textbook(T, a, b, na, nb, low=False):
    h = counts(T, a, b, na, nb)
    if low:
        h = h[1:, 1:]
    p = h / h.sum()
    ea, eb, ej = entropy(T, p.sum(1)), entropy(T, p.sum(0)), entropy(T, p.reshape(-1))
    return ea + eb - ej, ea, eb, ej


def bins(v, a, n):
    """bins of equal width over the range of the image, the maximum in the last one"""
    T = v.T
    r = a.max() - a.min()
    if float(r) == 0:
        return T.zeros_like(a, dtype=T.int64)
    return T.clamp(((a - a.min()) / r * n * 0.999999).long(), max=n - 1)


def image(v, name, B, P, kind):
    x = v.real(name, [B, P])
    if kind == "few":  # few levels
        x = v.T.floor(x.abs() * 2) / 4
    if kind == "constant":
        x = x * 0 + 0.25
    return x


MI = [dict(nb=n, B=b, kind=k) for n in (2, 3, 8, 64) for b in ((1, 1), (3, 3), (1, 3), (3, 1)) for k in ("any", "few")] + [dict(nb=4, B=(2, 2), kind="constant")]
TOL = dict(float64=2e-5, float32=2e-5)


@unit("C24", "mutual information of binned images", [M + "mutual_information"], params=MI, modes=("conc",), nsamp=2,
      bounded="runtime contract: 2 to 64 bins, images of 50 pixels, batches of 1 to 3")
def _(v, nb, B, kind):
    T = v.T
    f = v.fn(M + "mutual_information")
    a, b = image(v, "a", B[0], 50, kind), image(v, "b", B[1], 50, "any" if kind == "constant" else kind)
    r = f(a, b, nb)
    n = max(B)
    row = lambda x, i: x[i if x.shape[0] > 1 else 0]
    ref = T.stack([textbook(T, bins(v, row(a, i), nb), bins(v, row(b, i), nb), nb, nb)[0] for i in range(n)])
    v.eq("mutual information of the binned images", r.double(), ref, tol=TOL)
    v.eq("symmetric", f(b, a, nb), r, tol=TOL)
    v.le("nonnegative", T.zeros_like(r), r, slack=1e-5)
    v.le("largest with itself", r, f(a, a, nb).expand_as(r), slack=1e-5)
    o = T.argsort(v.real("o", [50]))
    v.eq("same after one shuffle of both", f(a[:, o], b[:, o], nb), r, tol=TOL)
    u = (a - a.min()) / (a.max() - a.min() + 1e-3)
    w = (b - b.min()) / (b.max() - b.min() + 1e-3)
    r = f(u, w, nb, False)
    cut = lambda x: (x * nb * 0.999999).long()
    ref = T.stack([textbook(T, cut(row(u, i)), cut(row(w, i)), nb, nb)[0] for i in range(n)])
    v.eq("without rescaling", r.double(), ref, tol=TOL)


NORMS = {
    "none": lambda T, m, a, b, j: m,
    "Kvalseth Sum": lambda T, m, a, b, j: 2 * m / (a + b),
    "Kvalseth Min": lambda T, m, a, b, j: m / min(a, b),
    "Kvalseth Max": lambda T, m, a, b, j: m / max(a, b),
    "Yao": lambda T, m, a, b, j: m / j,
    "Strehl-Ghosh": lambda T, m, a, b, j: m / T.sqrt(a * b),
    "Logarithmic": lambda T, m, a, b, j: m / (b if abs(a - b) < 1e-6 else (a - b) / (T.log(a) - T.log(b))),
}


@unit("C24", "normalised mutual information of images in [0, 1]", [M + "binned_nmi", M + "batch_binned_nmi"],
      params=[dict(n=n, B=b, norm=m, low=l) for n in ((2, 2), (5, 3), (3, 8), (16, 16)) for b, m in zip([(1, 1), (3, 3), (1, 3), (3, 1), (2, 2), (2, 1), (2, 2)], NORMS) for l in (False, True)],
      modes=("conc",), nsamp=2, bounded="runtime contract: 2 to 16 bins, images of 6 x 20 pixels, batches of 1 to 3")
def _(v, n, B, norm, low):
    T = v.T
    one, batch = v.fn(M + "binned_nmi"), v.fn(M + "batch_binned_nmi")
    unit_ = lambda x: (x - x.min()) / (x.max() - x.min())  # both ends are reached
    a, b = unit_(v.real("a", [B[0], 6, 20])), unit_(v.real("b", [B[1], 6, 20]))
    b = unit_(b + a[:1] * 0.7)
    cut = lambda x, k: T.clamp(T.floor(x.reshape(-1) * k), max=k - 1).long()
    row = lambda x, i: x[i if x.shape[0] > 1 else 0]
    same = n[0] == n[1]
    r = batch(a, b, n[0], n[1], norm_mode=norm, exclude_lowest_bin=low)
    bits = batch(a, b, n[0], n[1], mode="bits", norm_mode=norm, exclude_lowest_bin=low)
    for i in range(max(B)):
        x, y = row(a, i), row(b, i)
        m, ea, eb, ej = textbook(T, cut(x, n[0]), cut(y, n[1]), n[0], n[1], low)
        if min(float(ea), float(eb), float(ej)) < 1e-3:
            continue
        ref = NORMS[norm](T, m, ea, eb, ej)
        v.eq("information of the binned images", r[i].double(), ref, tol=TOL)
        v.eq("one pair", T.as_tensor(one(x, y, n[0], n[1], norm_mode=norm, exclude_lowest_bin=low)).double(), ref, tol=TOL)
        if norm == "none":
            v.eq("in bits", bits[i].double(), ref / math.log(2), tol=TOL)
            v.le("nonnegative", T.zeros(()), r[i], slack=1e-5)
        elif norm != "Logarithmic":
            v.eq("a ratio has no unit", bits[i].double(), ref, tol=TOL)
        if same:
            v.eq("symmetric", T.as_tensor(one(y, x, n[0], n[1], norm_mode=norm, exclude_lowest_bin=low)).double(), ref, tol=TOL)
            if not low and norm == "none":
                v.le("largest with itself", r[i], T.as_tensor(one(x, x, n[0], n[1])).to(r.dtype), slack=1e-5)
