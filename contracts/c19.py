"""C19 chunked nearest neighbours: every step keeps the best k of everything seen"""
from vc.contract import unit
from .spec import *

K = "ebsdtorch.utils.knn:"
C = K + "ChunkedKNN."
META = dict(level="proof", assumptions=[
    "torch.topk over an axis of symbolic size returns k distinct positions with their elements and no other element is better",
    "every history is a sequence of set_data_chunk / query calls: by induction on it, the per-call contract (new state = best k of the old state and the chunk, with global indices) gives the best k of everything fed",
    "k is bounded (1, 2) in the symbolic units; data, query and chunk sizes are symbolic there"])
METRICS = ("angular", "euclidean", "manhattan")


def dist(v, metric, q, x):
    """every query against every data row"""
    a, b = q.unsqueeze(1), x.unsqueeze(0)
    if metric == "angular":
        return (a * b).sum(-1)
    d = a - b
    return (d * d).sum(-1) if metric == "euclidean" else abs(d).sum(-1)


def better(metric, a, b):
    """a is at least as good a match as b"""
    return b <= a if metric == "angular" else a <= b


TOL = dict(float64=1e-3, float32=1e-3)


def ok(v, metric, label, cond, a, b):
    """cond implies: a is at least as good a match as b"""
    if metric == "angular":
        a, b = b, a
    v.le(label, v.where(cond, a, b), b, slack=0.0 if v.sym else 1e-3)


def any_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r | x
    return r


def make(v, metric, k, data_size, query_size):
    T = v.T
    return v.fn(K + "ChunkedKNN")(data_size, query_size, k, T.device("cpu"), metric, v.dtype, False)


@unit("C19", "nothing seen yet", [C + "__init__"], params=[dict(metric=m, k=k) for m in METRICS for k in (1, 3)])
def _(v, metric, k):
    n = v.pyint("n", 1, None if v.sym else 5000000000)
    q = v.real("q", ["q", 1])
    s = make(v, metric, k, n, q.shape[0])
    s.set_data_chunk(v.real("x", ["m", 1]))
    s = make(v, metric, k, n, q.shape[0])
    v.holds("every placeholder is worse than any match", s.knn_distances == (-math.inf if metric == "angular" else math.inf))
    v.holds("an index can hold every row number", v.T.tensor(s.knn_indices.dtype == v.T.int64 or n < 2**31))
    for what in ("all", "chunk"):
        r, bad = v.attempt(s.query_all, q) if what == "all" else v.attempt(s.query_chunk, q, 0)
        v.holds(f"a query before any data is refused [{what}]", v.T.tensor(bad))


STEP = [dict(metric=m, D=D, k=1, old=o, whole=w) for m in METRICS for D in (1, 3) for o in (0, 1) for w in ("all", "inside", "outside")]
STEP += [dict(metric=m, D=D, k=2, old=o, whole=w) for m in METRICS for D in (2,) for o in (0, 1, 2) for w in ("all", "inside", "outside")]


@unit("C19", "one chunk against the queries", [C + "set_data_chunk", C + "query_all", C + "query_chunk", K + "knn_batch"], params=STEP, budget=100)
def _(v, metric, D, k, old, whole):
    """whole: query_all; inside / outside: query_chunk, seen from a row in or out of the window of queries.  old of the k slots hold matches with rows seen before (row numbers < s)"""
    T = v.T
    part, whole = whole, whole == "all"
    q, x = v.real("q", ["q", D]), v.real("x", ["m", D])
    Q = q.shape[0] if whole else v.real("all", ["Q", D]).shape[0]
    s = v.pyint("s", old, None if v.sym else 1000)
    lane = ["q" if whole else "Q"]
    st = make(v, metric, k, v.pyint("n", 1, None if v.sym else 10000), Q)
    od = v.real("od", lane + [old]) if old else None
    oi = v.integer("oi", lane + [old], 0, None if v.sym else s - 1) if old else None
    worst = T.full((Q, k - old), -math.inf if metric == "angular" else math.inf, dtype=v.dtype)
    if old:
        oi = oi.clone()
        for e in range(old):
            if v.sym:
                v.require(oi[..., e] < s)
            for f in range(e):
                if v.sym:
                    v.require(oi[..., e] != oi[..., f])
                else:
                    oi[..., e] = (oi[..., f] + 1) % s
        ph = v.integer("ph", lane + [k - old], 0, 5) if k > old else None
        st.knn_distances = T.cat((od, worst), dim=1) if k > old else od.clone()
        st.knn_indices = T.cat((oi, ph), dim=1) if k > old else oi.clone()
    else:
        st.knn_indices = v.integer("ph", lane + [k], 0, 5).clone()
    before_d, before_i = st.knn_distances.clone(), st.knn_indices.clone()
    st.curr_end = s
    st.set_data_chunk(x)
    M = x.shape[0]
    v.eq("rows numbered on from those seen", T.tensor(st.curr_end), T.tensor(s + M))
    if whole:
        st.query_all(q)
        d, i = st.knn_distances, st.knn_indices
        dq = dist(v, metric, q, x)
    else:
        lo = v.pyint("lo", 0, None if v.sym else 40)
        if v.sym:
            v.require(T.tensor(lo + q.shape[0] <= Q))
        elif lo + q.shape[0] > Q:
            lo = Q - q.shape[0]
            if lo < 0:
                v.require(T.tensor(False))
        st.query_chunk(q, lo)
        row = T.arange(Q)
        if part == "outside" or not v.sym:
            out = (row < lo) | (row >= lo + q.shape[0])
            for j in range(k):
                v.eq(f"other queries keep their matches [{j}]", v.where(out, st.knn_indices[:, j], before_i[:, j]), before_i[:, j])
                if j >= old and v.sym:
                    continue  # an infinity is no number
                v.holds(f"other queries keep their values [{j}]", ~out | (st.knn_distances[:, j] == before_d[:, j]))
        if part == "outside":
            return
        if v.sym:  # every row of the window is a row lo.. of the whole
            v.require((row >= lo) & (row < lo + q.shape[0]))
        d, i = st.knn_distances[lo : lo + q.shape[0]], st.knn_indices[lo : lo + q.shape[0]]
        od = od[lo : lo + q.shape[0]] if old else None
        oi = oi[lo : lo + q.shape[0]] if old else None
        dq = dist(v, metric, q, x)
    g = (T.arange(M) + s).unsqueeze(0)
    none = -math.inf if metric == "angular" else math.inf  # value of a slot that holds no match: its row number says nothing
    filled = [(d[:, j] != none).unsqueeze(1) for j in range(k)]
    here = [(i[:, j].unsqueeze(1) == g) & filled[j] for j in range(k)]
    chosen = any_(here)
    full = T.tensor(old + M >= k)
    val = lambda j: v.where(filled[j], d[:, j].unsqueeze(1), T.zeros((), dtype=v.dtype))
    for j in range(k):
        v.holds(f"no slot is empty once k rows are seen [{j}]", filled[j] | ~full)
        v.eq(f"value of a chosen row is its distance [{j}]", v.where(here[j], val(j), dq), dq, tol=TOL)
        ok(v, metric, f"no row left out is better [{j}]", ~chosen & full, val(j), dq)
        seen = [(i[:, j] == oi[:, e]) & (d[:, j] == od[:, e]) for e in range(old)]
        new = (i[:, j] >= s) & (i[:, j] < s + M)
        v.holds(f"every match is an earlier match or a row of the chunk [{j}]", any_(seen + [new]) | ~full)
        for m in range(j):
            v.holds(f"matches are different rows [{m}, {j}]", (i[:, j] != i[:, m]) | ~full)
    v.holds("too few rows so far: all are kept", chosen | full)
    for e in range(old):
        kept = any_([(i[:, j] == oi[:, e]) & (d[:, j] == od[:, e]) for j in range(k)])
        v.holds(f"too few rows so far: earlier matches are kept [{e}]", kept | full)
        for j in range(k):
            ok(v, metric, f"no earlier match left out is better [{e}, {j}]", ~kept & full, d[:, j], od[:, e])
    if not v.sym:
        v.eq("exactly the count of rows so far is filled", T.isfinite(d).sum(1), T.full((d.shape[0],), min(k, old + M), dtype=T.int64))


@unit("C19", "sorted result", [C + "retrieve_topk"], params=[dict(metric=m, k=k) for m in METRICS for k in (1, 2, 3)])
def _(v, metric, k):
    T = v.T
    q = v.real("q", ["q", 1])
    st = make(v, metric, k, 10, q.shape[0])
    d = v.real("d", ["q", k])
    i = v.integer("i", ["q", k], 0, 9)
    st.knn_distances, st.knn_indices = d.clone(), i.clone()
    ri, rd = st.retrieve_topk()
    for j in range(k - 1):
        v.holds(f"best first [{j}]", better(metric, rd[:, j], rd[:, j + 1]))
    for e in range(k):
        v.holds(f"pairs are kept [{e}]", any_([(ri[:, j] == i[:, e]) & (rd[:, j] == d[:, e]) for j in range(k)]))
        v.holds(f"pairs come from the state [{e}]", any_([(ri[:, e] == i[:, j]) & (rd[:, e] == d[:, j]) for j in range(k)]))
    v.eq("the same values", rd.sum(1), d.sum(1))
    v.eq("the same rows", ri.sum(1), i.sum(1))


@unit("C19", "whole searches", [C + "set_data_chunk", C + "query_all", C + "query_chunk", C + "retrieve_topk", K + "knn_batch", K + "topk_quantized_data"],
      params=[dict(metric=m, mode=w) for m in METRICS for w in ("all", "chunks", "quantized", "half")], modes=("conc",), nsamp=4,
      bounded="runtime contract: up to 60 data rows in up to 6 chunks, up to 12 queries in up to 4 batches, k up to 8; quantised and half precision to their rounding only")
def _(v, metric, mode):
    T = v.T
    N, Q, D = v.pyint("N", 8, 60), v.pyint("Q", 1, 12), v.pyint("D", 1, 6)
    k = v.pyint("k", 1, 8)
    x = v.real("x", [N, D])
    q = v.real("q", [Q, D])
    cut = lambda n, nm, c: sorted({0, n} | {z % n for z in (int(y) for y in v.integer(nm, [c], 0, 59).reshape(-1))})
    dc, qc = cut(N, "dc", v.pyint("nd", 1, 5)), cut(Q, "qc", v.pyint("nq", 1, 3))
    dt = T.float16 if mode == "half" else T.float32
    st = v.fn(K + "ChunkedKNN")(N, Q, k, T.device("cpu"), metric, dt, mode == "quantized")
    for a, b in zip(dc, dc[1:]):
        st.set_data_chunk(x[a:b])
        if mode == "all":
            st.query_all(q)
        else:
            for c, e in reversed(list(zip(qc, qc[1:]))):
                st.query_chunk(q[c:e], c)
    i, d = st.retrieve_topk()
    f = dist(v, metric, q.double(), x.double())
    sc = max(1.0, float(f.abs().max()))
    eps = {"all": 1e-4, "chunks": 1e-4, "half": 2e-2, "quantized": 4e-2 if metric == "angular" else 1e-4}[mode] * sc
    ref = T.sort(f, dim=1, descending=metric == "angular")[0][:, :k]
    v.holds("rows exist", (i >= 0) & (i < N))
    v.holds("rows are distinct", T.tensor(all(len(set(r)) == k for r in i.tolist())))
    v.le("values are the best values, in order", (d.double() - ref).abs(), T.full_like(ref, eps))
    v.le("values belong to the rows named", (T.gather(f, 1, i.long()) - d.double()).abs(), T.full_like(ref, eps))
