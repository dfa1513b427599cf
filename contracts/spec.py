"""specification vocabulary shared by the contracts (written in plain tensor operations,
so the same text is read symbolically and concretely)"""
import math

RANKS = [dict(ax=[]), dict(ax=["b"]), dict(ax=["b0", "b1"])]
RANKS1 = [dict(ax=["b"])]
RANKS3 = RANKS + [dict(ax=["b0", "b1", "b2"])]
RANKS2 = [
    dict(ra=[], rb=[]),
    dict(ra=["b"], rb=["b"]),
    dict(ra=["b"], rb=[]),
    dict(ra=["b0", 1], rb=[1, "b1"]),
    dict(ra=["b0", "b1"], rb=["b0", "b1"]),
]


def sq(x):
    """sum of squares along the last axis"""
    return (x * x).sum(-1)


def hamilton(v, a, b):
    """the quaternion product, i^2=j^2=k^2=ijk=-1"""
    T = v.T
    w = a[..., 0] * b[..., 0] - a[..., 1] * b[..., 1] - a[..., 2] * b[..., 2] - a[..., 3] * b[..., 3]
    x = a[..., 0] * b[..., 1] + a[..., 1] * b[..., 0] + a[..., 2] * b[..., 3] - a[..., 3] * b[..., 2]
    y = a[..., 0] * b[..., 2] + a[..., 2] * b[..., 0] + a[..., 3] * b[..., 1] - a[..., 1] * b[..., 3]
    z = a[..., 0] * b[..., 3] + a[..., 3] * b[..., 0] + a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]
    return T.stack([w, x, y, z], dim=-1)


def conj(v, q):
    return v.T.stack([q[..., 0], -q[..., 1], -q[..., 2], -q[..., 3]], dim=-1)


def quat_to_matrix(v, q):
    """rotation matrix of the unit quaternion q (active, column vectors)"""
    w, x, y, z = q[..., 0], q[..., 1], q[..., 2], q[..., 3]
    T = v.T
    r0 = T.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], dim=-1)
    r1 = T.stack([2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], dim=-1)
    r2 = T.stack([2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], dim=-1)
    return T.stack([r0, r1, r2], dim=-2)


def matvec(m, p):
    return (m * p.unsqueeze(-2)).sum(-1)


def matmul(a, b):
    return (a.unsqueeze(-1) * b.unsqueeze(-3)).sum(-2)


def bunge_quat(v, b):
    """conjugate of Rz(phi1) Rx(Phi) Rz(phi2): the passive Bunge rotation"""
    T = v.T
    s = (b[..., 0] + b[..., 2]) / 2
    d = (b[..., 0] - b[..., 2]) / 2
    c, t = T.cos(b[..., 1] / 2), T.sin(b[..., 1] / 2)
    return T.stack([c * T.cos(s), -t * T.cos(d), -t * T.sin(d), -c * T.sin(s)], dim=-1)


def bunge_matrix(v, b):
    """transpose of Rz(phi1) Rx(Phi) Rz(phi2) (passive)"""
    T = v.T
    c1, s1, c, s, c2, s2 = (f(b[..., i]) for i in range(3) for f in (T.cos, T.sin))
    r0 = T.stack([c1 * c2 - s1 * s2 * c, s1 * c2 + c1 * s2 * c, s2 * s], dim=-1)
    r1 = T.stack([-c1 * s2 - s1 * c2 * c, -s1 * s2 + c1 * c2 * c, c2 * s], dim=-1)
    r2 = T.stack([s1 * s, -c1 * s, c], dim=-1)
    return T.stack([r0, r1, r2], dim=-2)
