"""C01 quaternion algebra"""
from vc.contract import unit
from .spec import *

M = "ebsdtorch.s2_and_so3.quaternions:"
META = dict(level="proof")


@unit("C01", "hamilton_product", [M + "qu_prod_raw"], params=RANKS2)
def _(v, ra, rb):
    a, b = v.real("a", ra + [4]), v.real("b", rb + [4])
    r = v.fn(M + "qu_prod_raw")(a, b)
    v.eq("product", r, hamilton(v, a, b))
    v.dtype_is("product", r, a)


@unit("C01", "product_norm_multiplicative", [M + "qu_prod_raw"], params=RANKS)
def _(v, ax):
    a, b = v.real("a", ax + [4]), v.real("b", ax + [4])
    r = v.fn(M + "qu_prod_raw")(a, b)
    v.eq("norm", sq(r), sq(a) * sq(b))


@unit("C01", "product_associative", [M + "qu_prod_raw"], params=RANKS)
def _(v, ax):
    a, b, c = (v.real(n, ax + [4]) for n in "abc")
    f = v.fn(M + "qu_prod_raw")
    v.eq("assoc", f(f(a, b), c), f(a, f(b, c)))


@unit("C01", "conjugate_reverses_products", [M + "qu_prod_raw", M + "qu_conj"], params=RANKS)
def _(v, ax):
    a, b = v.real("a", ax + [4]), v.real("b", ax + [4])
    f, g = v.fn(M + "qu_prod_raw"), v.fn(M + "qu_conj")
    v.eq("conj(ab)", g(f(a, b)), f(g(b), g(a)))
    v.eq("conj conj", g(g(a)), a)
    v.eq("a conj(a) real part", f(a, g(a))[..., 0], sq(a))
    v.eq("a conj(a) vector part", f(a, g(a))[..., 1:], 0.0)
    v.dtype_is("conj", g(a), a)


@unit("C01", "standardise", [M + "qu_std"], params=RANKS)
def _(v, ax):
    a = v.real("a", ax + [4], special=(0.0,))
    r = v.fn(M + "qu_std")(a)
    v.le("real part nonnegative", 0.0, r[..., 0], slack=0.0)
    v.signeq("same up to sign", r, a)
    v.eq("idempotent", v.fn(M + "qu_std")(r), r)


@unit("C01", "standardised_product", [M + "qu_prod"], params=RANKS2)
def _(v, ra, rb):
    a, b = v.real("a", ra + [4]), v.real("b", rb + [4])
    r = v.fn(M + "qu_prod")(a, b)
    v.le("real part nonnegative", 0.0, r[..., 0], slack=0.0)
    v.signeq("product up to sign", r, hamilton(v, a, b))


@unit("C01", "normalise", [M + "qu_norm", M + "qu_norm_std"], params=RANKS)
def _(v, ax):
    a = v.real("a", ax + [4])
    if v.sym:
        v.require(sq(a) > 0)
    r = v.fn(M + "qu_norm")(a)
    v.eq("unit norm", sq(r), 1.0)
    v.eq("same direction", r * v.T.sqrt(sq(a)).unsqueeze(-1), a)
    s = v.fn(M + "qu_norm_std")(a)
    v.eq("unit norm (std)", sq(s), 1.0)
    v.le("real part nonnegative (std)", 0.0, s[..., 0], slack=0.0)
    v.signeq("same rotation (std)", s, r)


@unit("C01", "partial_products", [M + "qu_prod_axis", M + "qu_prod_pos_real", M + "qu_triple_prod_pos_real"], params=RANKS2)
def _(v, ra, rb):
    a, b = v.real("a", ra + [4]), v.real("b", rb + [4])
    h = hamilton(v, a, b)
    v.eq("vector part", v.fn(M + "qu_prod_axis")(a, b), h[..., 1:])
    v.eq("real magnitude", v.fn(M + "qu_prod_pos_real")(a, b), h[..., 0].abs())
    c = v.real("c", rb + [4])
    v.eq("triple real magnitude", v.fn(M + "qu_triple_prod_pos_real")(a, b, c), hamilton(v, a, hamilton(v, b, c))[..., 0].abs())
