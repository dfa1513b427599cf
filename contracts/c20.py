"""C20 streamed covariance: additive state, so the result is the batch covariance for every split"""
from vc.contract import unit
from .spec import *

K = "ebsdtorch.utils.pca_covmat:"
FWD = [K + "OnlineCovMatrix.forward", K + "update_covmat"]
META = dict(level="proof", assumptions=[
    "sum over a batch of symbolic size is linear (lane sums); torch.linalg.eigh returns an orthonormal eigenbasis of the symmetric matrix it is given",
    "every history is a sequence of forward calls: by induction on it, the per-batch contract (count, sum and raw second moment of the state grow by exactly those of the batch) gives the moments of all the data seen"])
FEATS = [dict(F=f) for f in (1, 2, 3)]


def make(v, F, corr=False):
    dt = v.dtype
    return v.fn(K + "OnlineCovMatrix")(F, dt, dt, corr)


def outer(m):
    """m[0] m[0]^T"""
    return m[0, :].unsqueeze(-1) * m[0, :].unsqueeze(-2)


@unit("C20", "empty state", [K + "OnlineCovMatrix.__init__"], params=FEATS)
def _(v, F):
    m = make(v, F)
    v.eq("no observations", m.obs, v.T.zeros(1, dtype=v.T.int64))
    v.eq("zero sum", m.mean, v.T.zeros(1, F, dtype=v.dtype))
    v.eq("zero scatter", m.covmat_aggregate, v.T.zeros(F, F, dtype=v.dtype))


def state(v, m, F, lo=0):
    """an arbitrary state"""
    n = v.integer("n", [1], lo, None if v.sym else 50)
    mu = v.real("mu", [1, F])
    A = v.real("A", [F, F])
    m.obs, m.mean, m.covmat_aggregate = n.clone(), mu.clone(), A.clone()
    return n, mu, A


TOL = dict(float64=1e-8, float32=5e-3)


@unit("C20", "one batch", FWD, params=FEATS)
def _(v, F):
    m = make(v, F)
    n, mu, A = state(v, m, F)
    x = v.real("x", ["p", F])
    m.forward(x)
    N = x.shape[0]
    n0 = n.to(v.dtype)
    n1 = n0 + N
    v.eq("count grows by the batch size", m.obs, n + N)
    v.eq("the sum of the data grows by the sum of the batch", m.mean * n1, mu * n0 + x.sum(0).unsqueeze(0), tol=TOL)
    sec = (x.unsqueeze(-1) * x.unsqueeze(-2)).sum(0)
    v.eq("the second moment grows by that of the batch", m.covmat_aggregate + n1 * outer(m.mean), A + n0 * outer(mu) + sec, tol=TOL)


@unit("C20", "empty batch", FWD, params=FEATS)
def _(v, F):
    m = make(v, F)
    n, mu, A = state(v, m, F)
    m.forward(v.T.zeros(0, F, dtype=v.dtype))
    v.eq("count", m.obs, n)
    v.eq("mean", m.mean, mu)
    v.eq("scatter", m.covmat_aggregate, A)


@unit("C20", "covariance from the state", [K + "OnlineCovMatrix.get_covmat"], params=FEATS)
def _(v, F):
    m = make(v, F)
    n, mu, A = state(v, m, F, 2)
    c = m.get_covmat()
    v.eq("scatter over count minus one", c * (n.to(v.dtype) - 1), A)
    v.eq("state unchanged: scatter", m.covmat_aggregate, A)
    v.eq("state unchanged: count", m.obs, n)


@unit("C20", "correlation from the state", [K + "OnlineCovMatrix.get_covmat"], params=FEATS)
def _(v, F):
    m = make(v, F, True)
    n = v.integer("n", [1], 2, None if v.sym else 50)
    o, d = v.real("o", [F, F]), v.real("d", [F], 1e-3, 5.0)
    I = v.T.eye(F, dtype=v.dtype)
    A = o * (1 - I) + d.unsqueeze(-1) * I
    m.obs, m.covmat_aggregate = n.clone(), A.clone()
    c = m.get_covmat()
    for i in range(F):
        for j in range(F):
            v.eq(f"correlation [{i}, {j}]", c[i, j] * v.T.sqrt(A[i, i]) * v.T.sqrt(A[j, j]), A[i, j], tol=dict(float64=1e-8, float32=1e-3))


@unit("C20", "eigenvectors from the state", [K + "OnlineCovMatrix.get_eigenvectors"], params=[dict(F=f, corr=c) for f in (1, 2, 3, 7) for c in (False, True)], modes=("conc",), nsamp=3,
      bounded="runtime contract on up to 7 features: torch.linalg.eigh is external")
def _(v, F, corr):
    m = make(v, F, corr)
    n = v.integer("n", [1], 2, 50)
    B = v.real("B", [F, F])
    A = B @ B.T + 0.1 * v.T.eye(F, dtype=B.dtype)
    m.obs, m.covmat_aggregate = n.clone(), A.clone()
    c = m.get_covmat()
    e = m.get_eigenvectors()
    t = dict(float64=1e-7, float32=1e-3)
    v.eq("orthonormal", e.T @ e, v.T.eye(F, dtype=B.dtype), tol=t)
    d = e.T @ (c / c.abs().max()) @ e
    v.eq("diagonalise the covariance (correlation) matrix, ascending", d, v.T.diag(v.T.sort(v.T.diagonal(d))[0]), tol=t)


@unit("C20", "any split of a data set", FWD + [K + "OnlineCovMatrix.get_covmat"], params=[dict(F=f, corr=c) for f in (1, 4) for c in (False, True)], modes=("conc",), nsamp=3,
      bounded="runtime contract: up to 40 rows in 2 to 6 batches; the general statement follows from 'empty state' and 'one batch' by induction")
def _(v, F, corr):
    x = v.real("x", [40, F]) + v.real("off", [1, F]) * 3
    ref = v.T.cov(x.T.double()).reshape(F, F)
    if corr:
        s = v.T.sqrt(v.T.diagonal(ref))
        ref = ref / s[:, None] / s[None, :]
    cuts = sorted(int(z) for z in v.integer("cuts", [5], 0, 40).reshape(-1))
    for b in ([], cuts[:1], cuts):
        m = make(v, F, corr)
        for lo, hi in zip([0] + b, b + [40]):
            m(x[lo:hi])
        v.eq("covariance of all rows", m.get_covmat().double() / ref.abs().max(), ref / ref.abs().max(), tol=dict(float64=1e-8, float32=2e-3))
        v.eq("mean of all rows", m.mean, x.mean(0, keepdim=True), tol=dict(float64=1e-8, float32=2e-3))
        v.eq("count", m.obs, v.T.tensor([40]))
