"""C18 detector geometry: pose, projection, back-projection, pixel centres"""
import math
from vc.contract import unit
from .spec import *

G = "ebsdtorch.ebsd.geometry:"
F = "ebsdtorch.ebsd.fitting:"
META = dict(level="proof")


def double(v):
    """the class builds its tensors in the default dtype"""
    if not v.sym:
        v.T.set_default_dtype(v.T.float64 if v.dname == "float64" else v.T.float32)


TOL = dict(float64=1e-7, float32=2e-3)


def rotation(v, dt, sx):
    """Ry(dt) Rz(sx) B: at zero tilts the detector rows run down the sample z axis, its columns along y, its
    normal along x"""
    T = v.T
    z, o = dt * 0, dt * 0 + 1
    m = lambda rows: T.stack([T.stack(r, dim=-1) for r in rows], dim=-2)
    c, s, cs, ss = T.cos(dt), T.sin(dt), T.cos(sx), T.sin(sx)
    Ry = m([[c, z, s], [z, o, z], [-s, z, c]])
    Rz = m([[cs, -ss, z], [ss, cs, z], [z, z, o]])
    B = m([[z, z, o], [z, o, z], [-o, z, z]])
    return matmul(Ry, matmul(Rz, B))


def transpose(v, R):
    return v.T.stack([R[..., :, i] for i in range(3)], dim=-2)


def rigid(v, label, R):
    I = v.const([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
    v.eq(label + ": orthonormal", matmul(transpose(v, R), R), R * 0 + I, tol=TOL)
    d = lambda i, j, k: R[..., 0, i] * (R[..., 1, j] * R[..., 2, k] - R[..., 1, k] * R[..., 2, j])
    v.eq(label + ": right-handed", d(0, 1, 2) + d(1, 2, 0) + d(2, 0, 1), R[..., 0, 0] * 0 + 1, tol=TOL)


def rad(v, deg):
    return deg * (v.T.pi / 180)


def params(v, ax, gimbal=False):
    pc = v.real("pc", ax + [3], 0.0, 1.0, lo_open=True)
    d = v.real("dt", ax, -180, 180, lo_open=True, special=(-70.0, 70.0, 0.0, 90.0, -90.0, 180.0))
    s = v.real("sx", ax, -90, 90, lo_open=True, hi_open=True, special=(0.0, 20.0, -20.0))
    return pc, d, s


def shape(v):
    return v.pyint("H", 1, None if v.sym else 200), v.pyint("W", 1, None if v.sym else 200)


@unit("C18", "pose from parameters and back", [G + "bruker_geometry_to_SE3", G + "bruker_geometry_from_SE3", F + "bruker_geometries_to_SE3", F + "bruker_geometry_from_SE3"],
      params=[dict(mod=m, **r) for m in "GF" for r in RANKS1])
def _(v, mod, ax):
    """all tilts (primary in (-180, 180], secondary in (-90, 90)), pattern centres and detector sizes"""
    to, fro = (G + "bruker_geometry_to_SE3", G + "bruker_geometry_from_SE3") if mod == "G" else (F + "bruker_geometries_to_SE3", F + "bruker_geometry_from_SE3")
    pc, d, s = params(v, ax)
    H, W = shape(v)
    R, t = v.fn(to)(pc, d, s, (H, W))
    v.eq("rotation", R, rotation(v, rad(v, d), rad(v, s)), tol=TOL)
    rigid(v, "pose", R)
    o = -matvec(transpose(v, R), t)
    v.eq("source point: row", o[..., 0], pc[..., 1] * H - 0.5, tol=TOL)
    v.eq("source point: column", o[..., 1], pc[..., 0] * W - 0.5, tol=TOL)
    v.eq("source point: distance", o[..., 2], -pc[..., 2] * H, tol=TOL)
    keep = R * 1
    p2, d2, s2 = v.fn(fro)(R, t, (H, W))
    v.eq("pattern centre recovered", p2, pc, tol=TOL)
    if v.sym:
        v.eq("primary tilt recovered", d2, d)
    else:
        v.eq("primary tilt recovered (direction)", v.T.stack([v.T.cos(rad(v, d2)), v.T.sin(rad(v, d2))], -1), v.T.stack([v.T.cos(rad(v, d)), v.T.sin(rad(v, d))], -1), tol=TOL)
    v.eq("secondary tilt recovered", s2, s, tol=dict(float64=1e-6, float32=2e-2))
    v.eq("the pose given is not changed", R, keep)


def geometry(v, R, t):
    C = v.fn(G + "EBSDGeometry")
    g = C.__new__(C)
    object.__setattr__(g, "get_detector2sample", lambda: (R, t))
    return g


@unit("C18", "projection and back-projection", [G + "EBSDGeometry.project2sample", G + "EBSDGeometry.backproject2detector"],
      params=[dict(px=["p"], sc=None), dict(px=["p", 1], sc=[1, "s"]), dict(px=["p"], sc=["p"]), dict(px=["p0", "p1"], sc=None), dict(px=["p0", "p1", 1, 1], sc=[1, 1, "s0", "s1"])])
def _(v, px, sc):
    """any rigid pose whose source point is off the detector plane, any pixel, any scan position"""
    q = v.quat("q", [1])
    R = quat_to_matrix(v, q)
    t = v.real("t", [1, 3], scale=50.0)
    x = v.real("x", px + [2], scale=100.0)
    s = v.real("s", sc + [2], scale=20.0) if sc is not None else None
    T = v.T
    oz = (R[..., :, 2] * t).sum(-1)
    if s is not None:
        o = t - T.cat([s, s[..., :1] * 0], dim=-1)
        oz = (R[..., :, 2] * o).sum(-1)
    v.require((oz != 0) if v.sym else (abs(oz) > 1.0))
    g = geometry(v, R, t)
    y = g.project2sample(x, s) if s is not None else g.project2sample(x)
    want = matvec(R, T.cat([x, x[..., :1] * 0], dim=-1)) + t
    if s is not None:
        want = want - T.cat([s, s[..., :1] * 0], dim=-1)
    v.eq("pixel in the sample frame", y, want, tol=TOL)
    b = g.backproject2detector(y, s) if s is not None else g.backproject2detector(y)
    full = x + (y[..., :2] * 0)
    v.eq("back on the same pixel", b.reshape(full.shape), full, tol=dict(float64=1e-6, float32=5e-2))
    # any multiple of the ray hits the same pixel
    k = v.pyreal("k", 0.1, 10)
    b = g.backproject2detector(y * k, s) if s is not None else g.backproject2detector(y * k)
    v.eq("only the direction of the ray matters", b.reshape(full.shape), full, tol=dict(float64=1e-6, float32=5e-2))


_HOLD = {}


def _exp_contract(orig):
    """contract of se3_exp_map_om (C06): a rigid motion"""

    def f(x):
        from vc.contract import CUR

        v = CUR[0]
        v.eq("the masked tuning vector is exponentiated", x, _HOLD["x"])
        return _HOLD["E"]

    return f


MASKS = [((a, b, c), (d, e, f)) for a, b, c, d, e, f in ((0, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 1), (1, 0, 0, 0, 0, 0), (0, 1, 0, 0, 0, 1), (0, 0, 0, 1, 1, 0))]


@unit("C18", "pose of the geometry object", [G + "EBSDGeometry.__init__", G + "EBSDGeometry.get_detector2sample", G + "EBSDGeometry.set_optimizable_se3_params"],
      params=[dict(mask=m, later=l) for m in range(len(MASKS)) for l in (False, True)], overrides={("ebsdtorch.lie_algebra.se3", "se3_exp_map_om"): _exp_contract})
def _(v, mask, later):
    """the pose is the pattern-centre pose after the (masked) tuning motion, and rigid"""
    double(v)
    try:
        T = v.T
        rots, shifts = (tuple(bool(b) for b in z) for z in MASKS[mask])
        H, W = shape(v)
        tilts = tuple(v.pyreal(n, -90, 90) for n in ("tx", "ty", "td"))
        pc = tuple(v.pyreal(n, 0.05, 1.0) for n in ("pcx", "pcy", "pcz"))
        vec = v.real("vec", [1, 6], scale=0.3)
        C = v.fn(G + "EBSDGeometry")
        if later:
            g = C((H, W), tilts, pc, vec)
            g.set_optimizable_se3_params(rots, shifts)
        else:
            g = C((H, W), tilts, pc, vec, rots, shifts)
        m = v.const([[1.0 if b else 0.0 for b in rots + shifts]])
        if not v.sym:
            m = T.tensor([[1.0 if b else 0.0 for b in rots + shifts]])
        x = vec * m
        if v.sym:
            q = v.quat("q", [1])
            E_R, E_t = quat_to_matrix(v, q), v.real("et", [1, 3])
            bot = E_t.unsqueeze(-2)[..., :1] * 0 + v.const([[0.0, 0, 0, 1.0]])
            _HOLD.update(x=x, E=T.cat([T.cat([E_R, E_t.unsqueeze(-1)], dim=-1), bot], dim=-2))
        else:
            S = T.zeros(4, 4)
            w = x[0]
            S[0, 1], S[0, 2], S[1, 2], S[1, 0], S[2, 0], S[2, 1] = -w[2], w[1], -w[0], w[2], -w[1], w[0]
            S[:3, 3] = w[3:]
            E = T.matrix_exp(S)
            E_R, E_t = E[None, :3, :3], E[None, :3, 3]
        R, t = g.get_detector2sample()
        one = lambda a: vec[:, 0] * 0 + a
        R0 = rotation(v, rad(v, one(tilts[2] - tilts[1])), rad(v, one(tilts[0])))
        R0, o = R0.reshape(1, 3, 3), T.stack([one(pc[1] * H - 0.5), one(pc[0] * W - 0.5), one(-pc[2] * H)], dim=-1)
        v.eq("rotation of the pose", R, matmul(R0, E_R), tol=TOL)
        v.eq("translation of the pose", t, matvec(R0, E_t - o), tol=TOL)
        rigid(v, "pose", R)
    finally:
        if not v.sym:
            v.T.set_default_dtype(v.T.float32)


@unit("C18", "default pose", [G + "EBSDGeometry.__init__", G + "EBSDGeometry.get_detector2sample"])
def _(v):
    double(v)
    try:
        H, W = shape(v)
        g = v.fn(G + "EBSDGeometry")((H, W))
        R, t = g.get_detector2sample()
        one = lambda a: t[:, 0] * 0 + a
        R0 = rotation(v, rad(v, one(-70.0)), rad(v, one(0.0))).reshape(1, 3, 3)
        v.eq("rotation of the pose", R, R0, tol=TOL)
        v.eq("translation of the pose", t, -matvec(R0, v.T.stack([one(0.5 * H - 0.5), one(0.5 * W - 0.5), one(-0.5 * H)], dim=-1)), tol=TOL)
    finally:
        if not v.sym:
            v.T.set_default_dtype(v.T.float32)


def centres(v, hl, wl, bh, bw, off=(0, 0)):
    """pixel-centre coordinates of the binned detector, first index slowest; binned pixel k covers rows
    k b .. k b + b - 1 (row 0 is the top of the detector; off pads with more binned pixels)"""
    T = v.T
    i = (T.arange(hl) - off[0]) * bh + (bh - 1) / 2
    j = (T.arange(wl) - off[1]) * bw + (bw - 1) / 2
    i, j = T.meshgrid(i, j, indexing="ij")
    return T.stack([i, j], dim=-1).reshape(-1, 2)


def sizes(v):
    """binned detector sizes and binning factors: any"""
    z = v.real("z", ["h", "w"])
    return z.shape[0], z.shape[1]


@unit("C18", "pixel centres of the geometry object", [G + "EBSDGeometry.get_coords_sample_frame"])
def _(v):
    """any detector size the binning divides, any binning"""
    h, w = sizes(v)
    b = v.pyint("bh", 1, None if v.sym else 8), v.pyint("bw", 1, None if v.sym else 8)
    q = v.quat("q", [1])
    R, t = quat_to_matrix(v, q), v.real("t", [1, 3])
    g = geometry(v, R, t)
    object.__setattr__(g, "detector_shape", (h * b[0], w * b[1]))
    object.__setattr__(g, "pc_SE3_matrix", t)
    r = g.get_coords_sample_frame(b, dtype=v.T.float64)
    x = centres(v, h, w, *b)
    x = v.T.cat([x, x[..., :1] * 0], dim=-1).to(v.T.float64)
    if not v.sym:
        R, t = R.to(r.dtype), t.to(r.dtype)
    v.eq("pixel centres in the sample frame", r, matvec(R, x) + t, tol=TOL)


@unit("C18", "binning that does not divide", [G + "EBSDGeometry.get_coords_sample_frame"], modes=("conc",), bounded="detector sizes 4 to 60")
def _(v):
    t = v.real("t", [1, 3])
    H, W, bh, bw = v.pyint("H", 4, 60), v.pyint("W", 4, 60), v.pyint("bh", 1, 7), v.pyint("bw", 1, 7)
    g = geometry(v, quat_to_matrix(v, v.quat("q", [1])), t)
    object.__setattr__(g, "detector_shape", (H, W))
    object.__setattr__(g, "pc_SE3_matrix", t)
    r, bad = v.attempt(lambda: g.get_coords_sample_frame((bh, bw), dtype=t.dtype))
    v.holds("rejected exactly when the binning does not divide", bad == bool(H % bh or W % bw))
    if not bad:
        v.holds("one row per binned pixel", tuple(r.shape) == ((H // bh) * (W // bw), 3))


@unit("C18", "pixel centres of the fitter", [F + "get_3D_pixel_coords"])
def _(v):
    h, w = sizes(v)
    b = v.pyint("b", 1, None if v.sym else 8)
    r = v.fn(F + "get_3D_pixel_coords")((h * b, w * b), v.T.device("cpu"), b, v.T.float64)
    x = centres(v, h, w, b, b)
    x = v.T.cat([x, x[..., :1] * 0], dim=-1).to(v.T.float64)
    v.eq("pixel centres", r, x, tol=TOL)


@unit("C18", "pixel centres with periphery", [F + "get_3D_pixel_coords_with_periphery"], modes=("conc",), bounded="detectors of 1 to 12 binned pixels, binning 1 to 8", nsamp=30)
def _(v):
    h, w, b = v.pyint("h", 1, 12), v.pyint("w", 1, 12), v.pyint("b", 1, 8)
    lo = [v.pyreal(n, 0.0, 0.5) for n in ("x0", "y0")]
    hi = [v.pyreal(n, 0.5, 1.0) for n in ("x1", "y1")]
    r, pad, shp = v.fn(F + "get_3D_pixel_coords_with_periphery")((h * b, w * b), v.T.device("cpu"), lo[0], hi[0], lo[1], hi[1], b, v.T.float64)
    want = (int((0.5 - lo[0]) * w), int((hi[0] - 0.5) * w), int((0.5 - lo[1]) * h), int((hi[1] - 0.5) * h))
    v.holds("padding covers the pattern-centre range", all(abs(a - c) <= 1 for a, c in zip(pad, want)))
    v.holds("padded shape", tuple(shp) == (h + pad[2] + pad[3], w + pad[0] + pad[1]))
    x = centres(v, shp[0], shp[1], b, b, off=(pad[2], pad[0]))
    x = v.T.cat([x, x[..., :1] * 0], dim=-1).to(v.T.float64)
    v.eq("pixel centres", r, x, tol=TOL)


P = "ebsdtorch.ebsd.project_hrebsd:"


@unit("C18", "directions of the fitter", [F + "apply_geometry"])
def _(v):
    """unit vectors along the projected pixels"""
    q = v.quat("q", [1])
    R = quat_to_matrix(v, q)
    t = v.real("t", [1, 3], scale=50.0)
    x = v.real("x", ["p", 3], scale=100.0)
    y = matvec(R, x) + t
    v.require((sq(y) > 0) if v.sym else (sq(y) > 1.0))
    r = v.fn(F + "apply_geometry")(x, R, t)
    v.eq("unit length", sq(r), sq(r) * 0 + 1, tol=TOL)
    v.eq("along the projected pixel", r * v.T.sqrt(sq(y)).unsqueeze(-1), y, tol=TOL)


@unit("C18", "coordinates of the high-resolution projector", [P + "hrebsd_coords"], modes=("conc",), bounded="detectors of up to 6 x 6 binned pixels, batches of up to 4", nsamp=12)
def _(v):
    T = v.T
    h, w, b = v.pyint("h", 1, 6), v.pyint("w", 1, 6), v.pyint("b", 1, 4)
    mask = T.tensor([1.0, 1, 0, 1, 1, 1]).to(getattr(T, v.dname))
    vec = v.real("vec", ["B", 6], scale=0.3)
    vec = vec + T.tensor([0, 0, 0, 0, 0, 60.0]).to(vec.dtype)
    q = v.quat("q", ["B"])
    Fi = v.real("F", ["B", 3, 3], scale=0.02) + T.eye(3).to(vec.dtype)
    r = v.fn(P + "hrebsd_coords")(mask, vec, q, Fi, (h * b, w * b), b, T.device("cpu"), vec.dtype)
    x = centres(v, h, w, b, b).to(vec.dtype)
    x = T.cat([x, x[..., :1] * 0], dim=-1)
    S = T.zeros(len(vec), 4, 4, dtype=vec.dtype)
    m = vec * mask
    S[:, 0, 1], S[:, 0, 2], S[:, 1, 2] = -m[:, 2], m[:, 1], -m[:, 0]
    S[:, 1, 0], S[:, 2, 0], S[:, 2, 1] = m[:, 2], -m[:, 1], m[:, 0]
    S[:, :3, 3] = m[:, 3:]
    E = T.matrix_exp(S)
    y = T.einsum("bij,pj->bpi", E[:, :3, :3], x) + E[:, None, :3, 3]
    y = T.einsum("bij,bjk,bpk->bpi", Fi, quat_to_matrix(v, q), y)
    y = y / T.linalg.norm(y, dim=-1, keepdim=True)
    v.eq("deformed crystal directions of the pixel centres", r, y, tol=dict(float64=1e-6, float32=2e-3))
