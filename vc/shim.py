"""A symbolic stand-in for `torch`: tensors whose entries are exact symbolic terms.

Axes are products of concrete extents and *lanes*.  A lane is an axis of symbolic size N
of which one generic element is kept: everything the code does to that element it does
to every element, for every N.  Operations that mix lanes are either handled by a sound
rule (any/all/sum, mask selection, masked assignment) or rejected (Unsupported).
"""
from fractions import Fraction
import itertools
import math as _math
import numpy as np
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, const
from .path import Unsupported, PathEnd, decide, cur
from .poly import Ctx

_py_int, _py_float, _py_len, _py_range, _py_abs, _py_max, _py_min, _py_sum = int, float, len, range, abs, max, min, sum


# ---------------------------------------------------------------- dtypes
class DT:
    def __init__(self, name, rank, kind):
        self.name, self.rank, self.kind = name, rank, kind
        self.is_floating_point = kind == "f"
        self.is_complex = kind == "c"
        self.itemsize = {"float64": 8, "int64": 8, "float32": 4, "int32": 4, "float16": 2, "int16": 2}.get(name, 1)

    def __repr__(self):
        return "torch." + self.name

    def __deepcopy__(self, m):
        return self


bool_ = DT("bool", 0, "b")
uint8 = DT("uint8", 1, "i")
int8 = DT("int8", 2, "i")
int16 = DT("int16", 3, "i")
int32 = DT("int32", 4, "i")
int64 = DT("int64", 5, "i")
float16 = DT("float16", 6, "f")
bfloat16 = DT("bfloat16", 6, "f")
float32 = DT("float32", 7, "f")
float64 = DT("float64", 8, "f")
complex64 = DT("complex64", 9, "c")
complex128 = DT("complex128", 10, "c")
DEFAULT_F = float32


class Device:
    def __init__(self, s="cpu", index=None):
        self.type = str(s).split(":")[0]
        self.index = index

    def __eq__(self, o):
        return (o.type if isinstance(o, Device) else str(o)) == self.type

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return f"device({self.type})"


CPU = Device("cpu")


# ---------------------------------------------------------------- symbolic ints
class SymInt:
    """integer-valued term (tensor sizes, python ints derived from them)"""

    __slots__ = ("t",)

    def __new__(cls, t):
        if t.op == "const":
            return _py_int(t.val)
        o = object.__new__(cls)
        o.t = t
        return o

    def _c(self, o):
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, (int, np.integer)):
            return const(_py_int(o))
        return None

    def _bin(self, o, f):
        if isinstance(o, float):
            return SymTensor.scalar(f(self.t, const(o)), float64, pynum=True)
        if isinstance(o, SymTensor):
            return NotImplemented
        c = self._c(o)
        if c is None:
            return NotImplemented
        return SymInt(canon_int(f(self.t, c)))

    def __add__(self, o):
        return self._bin(o, tm.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, tm.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: tm.sub(b, a))

    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            raise Unsupported("sequence * symbolic int")
        return self._bin(o, tm.mul)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(tm.neg(self.t))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: tm.fn("floor", canon_int(tm.div(a, b))))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: tm.fn("floor", canon_int(tm.div(b, a))))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: tm.sub(a, tm.mul(b, tm.fn("floor", canon_int(tm.div(a, b))))))

    def __truediv__(self, o):
        c = self._c(o)
        if c is None:
            if isinstance(o, float):
                c = const(o)
            else:
                return NotImplemented
        return SymTensor.scalar(tm.div(self.t, c), float64, pynum=True)

    def __rtruediv__(self, o):
        c = self._c(o) if not isinstance(o, float) else const(o)
        return SymTensor.scalar(tm.div(c, self.t), float64, pynum=True)

    def __pow__(self, n):
        if isinstance(n, int):
            return SymInt(tm.ipow(self.t, n))
        return SymTensor.scalar(tm.powr(self.t, _expo(n)), float64, pynum=True)

    def _cmp(self, o, f):
        if isinstance(o, float):
            return SymBool(f(self.t, const(o)))
        c = self._c(o)
        if c is None:
            return NotImplemented
        return SymBool(f(self.t, c))

    def __lt__(self, o):
        return self._cmp(o, tm.lt)

    def __le__(self, o):
        return self._cmp(o, tm.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tm.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tm.le(b, a))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        r = self._cmp(o, tm.eq)
        return r

    def __ne__(self, o):
        if o is None:
            return True
        r = self._cmp(o, lambda a, b: tm.not_(tm.eq(a, b)))
        return r

    def __hash__(self):
        return hash(self.t.id)

    def __bool__(self):
        return decide(tm.not_(tm.eq(self.t, ZERO)))

    def __index__(self):
        raise Unsupported(f"symbolic integer {self.t} used as a concrete index")

    def __int__(self):
        raise Unsupported("symbolic integer made concrete")

    def item(self):
        return self

    def __repr__(self):
        return f"SymInt({self.t})"


_STR = {}


class SymStr:
    """an arbitrary string, known only through comparisons with literals"""

    __slots__ = ("t",)
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return SymBool(tm.eq(self.t, o.t))
        if isinstance(o, str):
            return SymBool(tm.eq(self.t, const(_STR.setdefault(o, len(_STR)))))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else True

    def __getattr__(self, k):
        raise Unsupported(f"str.{k} of an arbitrary string")

    def __len__(self):
        raise Unsupported("length of an arbitrary string")

    def __iter__(self):
        raise Unsupported("characters of an arbitrary string")


class SymBool:
    __slots__ = ("t",)

    def __new__(cls, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        o = object.__new__(cls)
        o.t = t
        return o

    def __bool__(self):
        return decide(self.t)

    def __invert__(self):
        return SymBool(tm.not_(self.t))

    def __and__(self, o):
        return SymBool(tm.and_(self.t, o.t if isinstance(o, SymBool) else const(bool(o))))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(tm.or_(self.t, o.t if isinstance(o, SymBool) else const(bool(o))))

    __ror__ = __or__


def canon_int(t):
    c = Ctx()
    try:
        return c.canon(t)
    except Exception:
        return t


def symint_of(t):
    return SymInt(canon_int(t))


# ---------------------------------------------------------------- axes
class Lane:
    """axis atom of symbolic extent; one generic element (phys=1) unless a selection"""

    _reg = {}

    def __init__(self, name, size, phys=1, guard=None, parents=(), conc=None):
        self.name, self.size, self.phys, self.guard, self.parents = name, size, phys, guard, parents

    def __repr__(self):
        return f"<{self.name}>"


_lanes = {}


def lane(name):
    """the lane called `name`, of size N_name >= 1"""
    if name not in _lanes:
        _lanes[name] = Lane(name, tm.ivar("N_" + name))
    return _lanes[name]


def lane_facts(names):
    return [tm.le(ONE, tm.ivar("N_" + n)) for n in names]


_sels = {}


def _asize(a):
    return const(a) if isinstance(a, int) else a.size


def _aphys(a):
    return a if isinstance(a, int) else a.phys


def ax_int(n):
    return (n,)


def ax_phys(ax):
    p = 1
    for a in ax:
        p *= _aphys(a)
    return p


def ax_lanes(ax):
    return [a for a in ax if isinstance(a, Lane)]


def ax_norm(ax):
    r = []
    for a in ax:
        if isinstance(a, int):
            if a == 1:
                continue
            if r and isinstance(r[-1], int):
                r[-1] *= a
                continue
        r.append(a)
    return tuple(r) if r else (1,)


def ax_size(ax):
    t = ONE
    for a in ax:
        t = tm.mul(t, _asize(a))
    return SymInt(canon_int(t)) if any(isinstance(a, Lane) for a in ax) else _py_int(t.val)


def ax_is1(ax):
    return ax == (1,)


class Size(tuple):
    def numel(self):
        r = 1
        for s in self:
            r = r * s
        return r

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return Size(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))

    def __radd__(self, o):
        return Size(tuple(o) + tuple(self))


class ShapeError(RuntimeError):
    pass


def broadcast_axes(*axss):
    n = _py_max([_py_len(a) for a in axss], default=0)
    out = []
    for i in _py_range(n):
        cur_ = (1,)
        for axs in axss:
            j = i - (n - _py_len(axs))
            if j < 0:
                continue
            a = axs[j]
            if ax_is1(a) or a == cur_:
                continue
            if ax_is1(cur_):
                cur_ = a
                continue
            if _same_ax(a, cur_):
                continue
            raise ShapeError(f"The size of tensor a ({ax_size(cur_)}) must match the size of tensor b ({ax_size(a)}) at dimension {i}")
        out.append(cur_)
    return out


def _same_ax(a, b):
    if a == b:
        return True
    return False


def obj(a):
    r = np.empty(np.shape(a), dtype=object)
    r[...] = a
    return r


def to_term(x):
    if isinstance(x, T):
        return x
    if isinstance(x, SymTensor):
        if x.data.size != 1:
            raise ShapeError("only one element tensors can be converted to scalars")
        return x.data.reshape(-1)[0]
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, np.integer)):
        return const(_py_int(x))
    if isinstance(x, (float, np.floating)):
        return const(_py_float(x))
    if isinstance(x, Fraction):
        return const(x)
    raise Unsupported(f"value of type {type(x).__name__}")


def num(t):
    """boolean term -> 0/1 real term"""
    if t.isbool:
        return tm.ite(t, ONE, ZERO)
    return t


def truth(t):
    if t.isbool:
        return t
    return tm.not_(tm.eq(t, ZERO))


def _vec(f, *arrs):
    arrs = np.broadcast_arrays(*arrs, subok=False) if _py_len(arrs) > 1 else arrs
    out = np.empty(arrs[0].shape, dtype=object)
    if out.size:
        fl = [a.reshape(-1) if a.flags.c_contiguous else a.flatten() for a in arrs]
        o = out.reshape(-1)
        for i in _py_range(o.size):
            o[i] = f(*[z[i] for z in fl])
    return out


def promote(*xs):
    """result dtype of mixing tensors / python scalars"""
    best = None
    dimmed = [x for x in xs if isinstance(x, SymTensor) and not x.pynum and x.ndim > 0]
    zerod = [x for x in xs if isinstance(x, SymTensor) and not x.pynum and x.ndim == 0]
    scal = [x for x in xs if not isinstance(x, SymTensor) or x.pynum]
    cat = {"b": 0, "i": 1, "f": 2, "c": 3}

    def skind(s):
        if isinstance(s, SymTensor):
            return s.dtype.kind
        if isinstance(s, (bool, np.bool_, SymBool)):
            return "b"
        if isinstance(s, (int, np.integer, SymInt)):
            return "i"
        if isinstance(s, complex):
            return "c"
        return "f"

    for x in dimmed:
        if best is None or x.dtype.rank > best.rank:
            best = x.dtype
    z = None
    for x in zerod:
        if z is None or x.dtype.rank > z.rank:
            z = x.dtype
    if best is None:
        best = z
    elif z is not None and cat[z.kind] > cat[best.kind]:
        best = z
    for s in scal:
        k = skind(s)
        d = {"b": bool_, "i": int64, "f": DEFAULT_F, "c": complex64}[k]
        if best is None or cat[k] > cat[best.kind]:
            best = d
    return best


class SymTensor:
    """see module docstring"""

    __array_priority__ = 1000

    def __init__(self, data, axes, dtype, pynum=False):
        self.data = data
        self.axes = [ax_norm(a) for a in axes]
        self.dtype = dtype
        self.pynum = pynum
        self.device = CPU
        self.requires_grad = False
        if data.shape != tuple(ax_phys(a) for a in self.axes):
            raise AssertionError(f"internal: {data.shape} vs {self.axes}")

    # ------------------------------------------------ construction
    @staticmethod
    def scalar(t, dtype, pynum=False):
        a = np.empty((), dtype=object)
        a[()] = t
        return SymTensor(a, [], dtype, pynum)

    @staticmethod
    def of(x, dtype=None):
        if isinstance(x, SymTensor):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            return SymTensor(x, [(n,) for n in x.shape], dtype or float32)
        t = to_term(x)
        if dtype is None:
            dtype = bool_ if t.isbool else int64 if isinstance(x, (int, np.integer, SymInt)) else float64
        return SymTensor.scalar(t, dtype, pynum=True)

    def like(self, data, axes=None, dtype=None):
        return SymTensor(data, self.axes if axes is None else axes, dtype or self.dtype)

    # ------------------------------------------------ shape
    @property
    def ndim(self):
        return _py_len(self.axes)

    def dim(self):
        return _py_len(self.axes)

    def ndimension(self):
        return _py_len(self.axes)

    @property
    def shape(self):
        return Size(ax_size(a) for a in self.axes)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def numel(self):
        return self.shape.numel()

    nelement = numel

    def __len__(self):
        s = self.shape[0]
        if isinstance(s, int):
            return s
        raise Unsupported("len of symbolic axis")

    def lanes(self):
        return [l for a in self.axes for l in ax_lanes(a)]

    def is_floating_point(self):
        return self.dtype.kind == "f"

    def is_complex(self):
        return False

    @property
    def is_cuda(self):
        return False

    def __deepcopy__(self, memo):
        return self.clone()

    # ------------------------------------------------ elementwise core
    def _bin(self, o, f, dtype=None, asnum=True, cmp=False):
        if isinstance(o, complex):
            raise Unsupported("complex arithmetic")
        if isinstance(o, (list, tuple)):
            return NotImplemented
        b = SymTensor.of(o)
        axes = broadcast_axes(self.axes, b.axes)
        x, y = self.data, b.data
        n = _py_max(x.ndim, y.ndim)
        x = x.reshape((1,) * (n - x.ndim) + x.shape)
        y = y.reshape((1,) * (n - y.ndim) + y.shape)
        if asnum:
            g = lambda p, q: f(num(p), num(q))
        else:
            g = f
        d = _vec(g, x, y)
        if cmp:
            dt = bool_
        else:
            dt = dtype or promote(self, o if isinstance(o, SymTensor) else o)
        r = SymTensor(d, axes, dt)
        if self.pynum and b.pynum:
            r.pynum = True
        return r

    def _un(self, f, dtype=None):
        return SymTensor(_vec(lambda p: f(num(p)), self.data), self.axes, dtype or self.dtype, self.pynum)

    def _fl(self):
        return self.dtype if self.dtype.kind == "f" else DEFAULT_F

    def __add__(self, o):
        return self._bin(o, tm.add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: tm.add(b, a))

    def __sub__(self, o):
        return self._bin(o, tm.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: tm.sub(b, a))

    def __mul__(self, o):
        return self._bin(o, tm.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = self._bin(o, tm.div)
        if r is NotImplemented:
            return r
        if r.dtype.kind in "bi":
            r.dtype = DEFAULT_F
        return r

    def __rtruediv__(self, o):
        r = self._bin(o, lambda a, b: tm.div(b, a))
        if r.dtype.kind in "bi":
            r.dtype = DEFAULT_F
        return r

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: tm.fn("floor", tm.div(a, b)))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: tm.fn("floor", tm.div(b, a)))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: tm.sub(a, tm.mul(b, tm.fn("floor", tm.div(a, b)))))

    def __neg__(self):
        return self._un(tm.neg)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._un(tm.abs_)

    def __pow__(self, n):
        if isinstance(n, SymTensor) and not (n.ndim == 0 and n.data[()].op == "const"):
            def pw(a, b):
                if b.op == "const":
                    return tm.powr(a, b.val)
                # real exponent: exp(b*log a)
                raise Unsupported("symbolic exponent")
            return self._bin(n, pw)
        e = _expo(n)
        r = self._un(lambda a: tm.powr(a, e))
        if e.denominator != 1 and r.dtype.kind != "f":
            r.dtype = DEFAULT_F
        return r

    def __rpow__(self, b):
        base = to_term(b)
        def f(e):
            if e.op == "const":
                return tm.powr(base, e.val)
            raise Unsupported("symbolic exponent")
        return self._un(f)

    # comparisons
    def __lt__(self, o):
        return self._bin(o, tm.lt, cmp=True)

    def __le__(self, o):
        return self._bin(o, tm.le, cmp=True)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: tm.lt(b, a), cmp=True)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: tm.le(b, a), cmp=True)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, tm.eq, cmp=True)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, lambda a, b: tm.not_(tm.eq(a, b)), cmp=True)

    __hash__ = object.__hash__

    def _bool(self, o, f):
        b = SymTensor.of(o)
        if self.dtype.kind != "b" or b.dtype.kind != "b":
            raise Unsupported("bitwise operation on integers")
        return self._bin(b, f, dtype=bool_, asnum=False)

    def __and__(self, o):
        return self._bool(o, tm.and_)

    __rand__ = __and__

    def __or__(self, o):
        return self._bool(o, tm.or_)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bool(o, lambda a, b: tm.or_(tm.and_(a, tm.not_(b)), tm.and_(tm.not_(a), b)))

    def __invert__(self):
        if self.dtype.kind != "b":
            raise Unsupported("bitwise not on integers")
        return SymTensor(_vec(tm.not_, self.data), self.axes, bool_)

    # in place
    def _inplace(self, r):
        if r is NotImplemented:
            raise Unsupported("in-place with unsupported operand")
        b = _expand(r, self.axes)
        self.data[...] = b
        return self

    def __iadd__(self, o):
        if self.pynum:
            return self + o
        return self._inplace(self + o)

    def __isub__(self, o):
        if self.pynum:
            return self - o
        return self._inplace(self - o)

    def __imul__(self, o):
        if self.pynum:
            return self * o
        return self._inplace(self * o)

    def __itruediv__(self, o):
        if self.pynum:
            return self / o
        return self._inplace(self / o)

    def __ior__(self, o):
        return self._inplace(self | o)

    def __iand__(self, o):
        return self._inplace(self & o)

    def __bool__(self):
        if self.data.size != 1 or self.lanes():
            if self.data.size == 0:
                return False
            raise Unsupported("truth value of a batched tensor")
        return decide(truth(self.data.reshape(-1)[0]))

    def __index__(self):
        t = self.data.reshape(-1)[0]
        if self.data.size == 1 and t.op == "const" and t.val.denominator == 1:
            return _py_int(t.val)
        raise Unsupported("symbolic value used as an index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        t = self.data.reshape(-1)[0]
        if self.data.size == 1 and t.op == "const":
            return _py_float(t.val)
        v = tm.numconst(t)
        if v is not None:
            return _py_float(v)
        raise Unsupported("symbolic value made a python float")

    def item(self):
        if self.data.size != 1 or self.lanes():
            raise Unsupported("item of a batched tensor")
        t = self.data.reshape(-1)[0]
        if self.dtype.kind == "b":
            return SymBool(t)
        if self.dtype.kind == "i":
            return symint_of(t)
        return SymTensor.scalar(t, float64, pynum=True)

    def tolist(self):
        if self.lanes():
            raise Unsupported("tolist of a batched tensor")
        def go(a):
            if a.ndim == 0:
                return SymTensor.scalar(a[()], self.dtype).item()
            return [go(z) for z in a]
        return go(self.data)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        for i in _py_range(_py_len(self)):
            yield self[i]

    def __repr__(self):
        return f"SymTensor(shape={tuple(self.shape)}, {self.dtype})"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    # ------------------------------------------------ reshape
    def reshape(self, *shape):
        if _py_len(shape) == 1 and isinstance(shape[0], (tuple, list, Size)):
            shape = tuple(shape[0])
        return _reshape(self, shape)

    def view(self, *shape):
        if _py_len(shape) == 1 and isinstance(shape[0], DT):
            raise Unsupported("view as dtype")
        return self.reshape(*shape)

    def view_as(self, o):
        return self.reshape(*o.shape)

    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        n = self.ndim
        if n == 0:
            return self.reshape(1)
        s, e = start_dim % n, end_dim % n
        ax = tuple(a for x in self.axes[s : e + 1] for a in x)
        new = self.axes[:s] + [ax] + self.axes[e + 1 :]
        return SymTensor(self.data.reshape([ax_phys(ax_norm(a)) for a in new]), new, self.dtype)

    def ravel(self):
        return self.flatten()

    def squeeze(self, dim=None):
        if dim is None:
            keep = []
            for i in _py_range(self.ndim):
                ax = self.axes[i]
                if ax_is1(ax):
                    continue
                if ax_lanes(ax):
                    # the lane extent may be one: both behaviours are possible
                    if decide(tm.eq(ax_size(ax).t, ONE)):
                        continue
                keep.append(i)
        else:
            dims = [d % self.ndim for d in (dim if isinstance(dim, (tuple, list)) else [dim])] if self.ndim else []
            keep = []
            for i in _py_range(self.ndim):
                if i in dims:
                    ax = self.axes[i]
                    if ax_is1(ax):
                        continue
                    if ax_lanes(ax) and decide(tm.eq(ax_size(ax).t, ONE)):
                        continue
                keep.append(i)
        new = [self.axes[i] for i in keep]
        idx = tuple(slice(None) if i in keep else 0 for i in _py_range(self.ndim))
        if any(i not in keep and ax_phys(self.axes[i]) != 1 for i in _py_range(self.ndim)):
            raise Unsupported("squeeze")
        d = self.data[idx] if idx else self.data
        if not isinstance(d, np.ndarray):
            d = obj(d)
        return SymTensor(d, new, self.dtype)

    def unsqueeze(self, dim):
        d = dim % (self.ndim + 1)
        return SymTensor(np.expand_dims(self.data, d), self.axes[:d] + [(1,)] + self.axes[d:], self.dtype)

    def expand(self, *shape):
        if _py_len(shape) == 1 and isinstance(shape[0], (tuple, list, Size)):
            shape = tuple(shape[0])
        n = _py_len(shape)
        axes = []
        for i, s in enumerate(shape):
            j = i - (n - self.ndim)
            own = self.axes[j] if j >= 0 else (1,)
            if isinstance(s, int) and s == -1:
                axes.append(own)
            else:
                axes.append(own if (not ax_is1(own)) else axis_of_size(s))
                if not ax_is1(own) and not _size_eq(ax_size(own), s):
                    raise ShapeError("expand: size mismatch")
        d = np.broadcast_to(self.data.reshape((1,) * (n - self.ndim) + self.data.shape), [ax_phys(a) for a in axes])
        return SymTensor(d, axes, self.dtype)

    def expand_as(self, o):
        return self.expand(*o.shape) if not o.lanes() else SymTensor(_expand(self, o.axes), o.axes, self.dtype)

    def broadcast_to(self, *s):
        return self.expand(*s)

    def repeat(self, *shape):
        if _py_len(shape) == 1 and isinstance(shape[0], (tuple, list, Size)):
            shape = tuple(shape[0])
        n = _py_len(shape)
        d = self.data.reshape((1,) * (n - self.ndim) + self.data.shape)
        axes = [(1,)] * (n - self.ndim) + self.axes
        reps, newaxes = [], []
        for i, s in enumerate(shape):
            if isinstance(s, int):
                reps.append(s)
                newaxes.append(ax_norm((s,) + axes[i]))
            else:
                if not ax_is1(axes[i]):
                    raise Unsupported("repeat by symbolic count")
                reps.append(1)
                newaxes.append(axis_of_size(s))
        return SymTensor(np.tile(d, reps), newaxes, self.dtype)

    def repeat_interleave(self, n, dim=None):
        if not isinstance(n, int) or dim is None:
            raise Unsupported("repeat_interleave")
        d = dim % self.ndim
        axes = list(self.axes)
        axes[d] = ax_norm(axes[d] + (n,))
        return SymTensor(np.repeat(self.data, n, axis=d), axes, self.dtype)

    def permute(self, *dims):
        if _py_len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = tuple(dims[0])
        dims = [d % self.ndim for d in dims]
        return SymTensor(self.data.transpose(dims), [self.axes[d] for d in dims], self.dtype)

    def transpose(self, a, b):
        d = list(_py_range(self.ndim))
        a, b = a % self.ndim, b % self.ndim
        d[a], d[b] = d[b], d[a]
        return self.permute(*d)

    def swapaxes(self, a, b):
        return self.transpose(a, b)

    def movedim(self, a, b):
        d = list(_py_range(self.ndim))
        x = d.pop(a % self.ndim)
        d.insert(b % self.ndim, x)
        return self.permute(*d)

    def t(self):
        return self.transpose(0, 1) if self.ndim == 2 else self

    @property
    def T(self):
        return self.permute(*reversed(_py_range(self.ndim)))

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def unbind(self, dim=0):
        return unbind(self, dim)

    def split(self, n, dim=0):
        return split(self, n, dim)

    def chunk(self, n, dim=0):
        return chunk(self, n, dim)

    def contiguous(self, *a, **k):
        return self.clone()

    def is_contiguous(self, *a, **k):
        return True

    def clone(self, *a, **k):
        return SymTensor(self.data.copy(), self.axes, self.dtype)

    def detach(self):
        return self

    def cpu(self):
        return self

    def cuda(self, *a):
        return self

    def numpy(self):
        raise Unsupported("numpy()")

    def requires_grad_(self, *a):
        return self

    def to(self, *args, **kw):
        dt = kw.get("dtype")
        for a in args:
            if isinstance(a, DT):
                dt = a
            elif isinstance(a, SymTensor):
                dt = a.dtype
        return self._cast(dt) if dt is not None else self

    def type(self, dt=None):
        return self._cast(dt)

    def type_as(self, o):
        return self._cast(o.dtype)

    def _cast(self, dt):
        if dt is self.dtype:
            return self
        if dt.kind == "b":
            return SymTensor(_vec(truth, self.data), self.axes, bool_)
        if dt.kind == "i":
            if self.dtype.kind == "f":
                return SymTensor(_vec(lambda a: tm.ite(tm.le(ZERO, a), tm.fn("floor", a), tm.neg(tm.fn("floor", tm.neg(a)))), self.data), self.axes, dt)
            return SymTensor(_vec(num, self.data), self.axes, dt)
        if dt.kind == "c":
            raise Unsupported("complex")
        return SymTensor(_vec(num, self.data), self.axes, dt)

    def float(self):
        return self._cast(float32)

    def double(self):
        return self._cast(float64)

    def half(self):
        return self._cast(float16)

    def long(self):
        return self._cast(int64)

    def int(self):
        return self._cast(int32)

    def bool(self):
        return self._cast(bool_)

    def byte(self):
        return self._cast(uint8)

    def copy_(self, o):
        self.data[...] = _expand(SymTensor.of(o)._cast(self.dtype) if isinstance(o, SymTensor) else SymTensor.of(o), self.axes)
        return self

    def new_zeros(self, *s, dtype=None, device=None):
        return zeros(*s, dtype=dtype or self.dtype)

    def new_empty(self, *s, dtype=None, device=None):
        return zeros(*s, dtype=dtype or self.dtype)

    def new_ones(self, *s, dtype=None, device=None):
        return ones(*s, dtype=dtype or self.dtype)

    def new_tensor(self, x, **k):
        return tensor(x, dtype=k.get("dtype", self.dtype))

    def fill_(self, v):
        self.data[...] = to_term(v)
        return self

    def zero_(self):
        return self.fill_(0)

    # ------------------------------------------------ indexing
    def __getitem__(self, key):
        return _getitem(self, key)

    def __setitem__(self, key, val):
        _setitem(self, key, val)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.endswith("_") and not name.startswith("_"):
            f = _FUNCS.get(name[:-1])
            if f is not None:
                def inpl(*a, **k):
                    return self._inplace(f(self, *a, **k))
                return inpl
        f = _FUNCS.get(name)
        if f is not None:
            def call(*a, **k):
                return f(self, *a, **k)
            return call
        raise Unsupported(f"Tensor.{name}")


def _expo(n):
    if isinstance(n, SymTensor):
        t = n.data.reshape(-1)[0]
        if t.op != "const":
            raise Unsupported("irrational exponent")
        return t.val
    if isinstance(n, (int, np.integer)):
        return Fraction(_py_int(n))
    t = const(_py_float(n))
    if t.op != "const":
        raise Unsupported("irrational exponent")
    return t.val


def _size_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(b, SymTensor):
        b = b.item()
    ta = const(a) if isinstance(a, int) else a.t
    tb = const(b) if isinstance(b, int) else b.t
    return canon_int(ta) is canon_int(tb)


def axis_of_size(s):
    if isinstance(s, SymTensor):
        s = s.item()
    if isinstance(s, (int, np.integer)):
        return (_py_int(s),)
    # monomial in lane sizes
    n, lanes = _monomial(s.t)
    ax = ((n,) if n != 1 else ()) + tuple(lanes)
    return ax_norm(ax)


def _monomial(t):
    c = Ctx()
    n, d = c.rat(t)
    if len(n.d) != 1 or not d.is_const():
        raise Unsupported(f"size {t} is not a product of lane sizes")
    (m, co), = n.d.items()
    co = co / d.cval()
    if co.denominator != 1:
        raise Unsupported("fractional size")
    out = []
    for k, e in m:
        nm = c.atom_term[k].val
        l = _lane_by_size.get(nm)
        if l is None:
            if isinstance(nm, str) and nm.startswith("N_") and nm[2:] in _lanes:
                l = _lanes[nm[2:]]
            else:
                raise Unsupported(f"axis of symbolic size {nm}")
        if e != 1:
            raise Unsupported("axis with repeated lane")
        out.append(l)
    out.sort(key=lambda l: l.name)
    return _py_int(co), out


_lane_by_size = {}


def _expand(x, axes):
    """physical data of x broadcast to the given axes (x must broadcast to exactly them)"""
    got = broadcast_axes(x.axes, axes)
    if _py_len(got) != _py_len(axes) or any(not _same_ax(p, q) for p, q in zip(got, axes)):
        raise ShapeError(f"shape mismatch: value of shape {tuple(x.shape)} cannot be broadcast to {[ax_size(a) for a in axes]}")
    d = x.data
    n = _py_len(axes)
    d = d.reshape((1,) * (n - d.ndim) + d.shape)
    return np.broadcast_to(d, [ax_phys(a) for a in axes])


def _reshape(x, shape):
    shape = [(s.__index__() if s.data.size == 1 and s.data.reshape(-1)[0].op == "const" else s.item()) if isinstance(s, SymTensor) else s for s in shape]
    atoms = [a for ax in x.axes for a in ax if a != 1]
    total = ONE
    for a in atoms:
        total = tm.mul(total, _asize(a))
    # resolve -1
    if any(isinstance(s, int) and s == -1 for s in shape):
        rest = ONE
        for s in shape:
            if not (isinstance(s, int) and s == -1):
                rest = tm.mul(rest, const(s) if isinstance(s, int) else s.t)
        if rest is ZERO:
            raise ShapeError("cannot reshape tensor of 0 elements: the unspecified dimension -1 can be any value")
        q = canon_int(tm.div(total, rest))
        if q.op == "div":
            raise ShapeError(f"shape {shape} is invalid for input of size {canon_int(total)}")
        if q.op == "const" and q.val.denominator != 1:
            raise ShapeError(f"shape {shape} is invalid for input of size {canon_int(total)}")
        shape = [SymInt(q) if isinstance(s, int) and s == -1 else s for s in shape]
    prod = ONE
    for s in shape:
        prod = tm.mul(prod, const(s) if isinstance(s, int) else s.t)
    if canon_int(prod) is not canon_int(total):
        raise ShapeError(f"shape {shape} is invalid for input of size {canon_int(total)}")
    queue = list(atoms)
    newaxes = []
    for s in shape:
        t = const(s) if isinstance(s, int) else s.t
        need_n, need_l = _mono_sizes(t)
        ax = []
        while need_n != 1 or need_l:
            if not queue:
                raise Unsupported("reshape")
            a = queue[0]
            if isinstance(a, int):
                if need_n % a == 0:
                    need_n //= a
                    ax.append(a)
                    queue.pop(0)
                elif a % need_n == 0 and need_n != 1:
                    # split
                    ax.append(need_n)
                    queue[0] = a // need_n
                    need_n = 1
                else:
                    g = _math.gcd(a, need_n)
                    if g > 1:
                        ax.append(g)
                        queue[0] = a // g
                        need_n //= g
                    else:
                        raise Unsupported(f"reshape mixes lanes: {x.shape} -> {shape}")
            else:
                if isinstance(a.size, T) and a.size.op != "const":
                    sn, sl = _mono_sizes(a.size)
                    ok = need_n % sn == 0
                    nl = list(need_l)
                    for l in sl:
                        if l in nl:
                            nl.remove(l)
                        else:
                            ok = False
                    if not ok:
                        raise Unsupported(f"reshape mixes lanes: {x.shape} -> {shape}")
                    need_n //= sn
                    need_l = nl
                    ax.append(a)
                    queue.pop(0)
                else:
                    raise Unsupported("reshape")
        newaxes.append(ax_norm(tuple(ax)))
    if queue:
        raise Unsupported("reshape leftovers")
    d = x.data.reshape([ax_phys(a) for a in newaxes])
    return SymTensor(d, newaxes, x.dtype)


def _mono_sizes(t):
    c = Ctx()
    n, d = c.rat(t)
    if len(n.d) != 1 or not d.is_const():
        raise Unsupported(f"size {t}")
    (m, co), = n.d.items()
    out = []
    for k, e in m:
        out += [c.atom_term[k].val] * _py_int(e)
    return _py_int(co / d.cval()), out


def selection(mask):
    """the lane of elements selected by the (flattened) mask"""
    flat = mask.data.reshape(-1)
    key = (tuple(t.id for t in flat), tuple(mask.axes))
    s = _sels.get(key)
    if s is None:
        k = _py_len(_sels)
        s = Lane(f"sel{k}", tm.ivar(f"N_sel{k}"), phys=flat.size, guard=list(flat), parents=tuple(mask.axes))
        _sels[key] = s
        _lane_by_size[f"N_sel{k}"] = s
    return s


def _normkey(x, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    nd = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, (SymBool,)):
            raise Unsupported("bool scalar index")
        if isinstance(k, SymTensor) and k.dtype.kind == "b":
            nd += k.ndim
        elif isinstance(k, np.ndarray) and k.dtype == bool:
            nd += k.ndim
        elif isinstance(k, bool):
            raise Unsupported("bool index")
        else:
            nd += 1
    n_fill = x.ndim - nd
    if n_fill < 0:
        raise IndexError("too many indices for tensor")
    seen = False
    for k in key:
        if k is Ellipsis:
            if not seen:
                out.extend([slice(None)] * n_fill)
                seen = True
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * n_fill)
    return out


def _const_index(k):
    """numpy int array for a constant index tensor/list, else None"""
    if isinstance(k, SymTensor):
        if k.dtype.kind != "i" or k.lanes():
            return None
        fl = k.data.reshape(-1)
        if all(t.op == "const" for t in fl):
            return np.array([_py_int(t.val) for t in fl], dtype=np.int64).reshape(k.data.shape)
        return None
    if isinstance(k, (list, np.ndarray)):
        return np.array(k)
    return None


def _pykey(k):
    if isinstance(k, SymInt):
        raise Unsupported("symbolic index")
    if isinstance(k, SymTensor) and k.ndim == 0 and k.dtype.kind == "i":
        return k.__index__()
    if isinstance(k, np.integer):
        return _py_int(k)
    return k


def _lane_slice(ax, sl):
    """x[a:b] along a lane, b - a the size of another lane: (that lane, a, b), else None"""
    if len(ax) != 1 or not isinstance(ax[0], Lane) or ax[0].guard is not None or ax[0].phys != 1:
        return None
    if not any(isinstance(z, SymInt) for z in (sl.start, sl.stop)) or sl.step not in (None, 1):
        return None
    a = to_term(0 if sl.start is None else sl.start)
    b = ax[0].size if sl.stop is None else to_term(sl.stop)
    try:
        new = axis_of_size(SymInt(canon_int(tm.sub(b, a))))
    except Unsupported:
        return None
    if len(new) != 1 or not isinstance(new[0], Lane) or new[0] is ax[0]:
        return None
    return new[0], a, b


def _window(x, key):
    """rows a..b of a tensor with a symbolic number of rows (first axis), or None"""
    k = key[0] if isinstance(key, tuple) and key else key
    rest = key[1:] if isinstance(key, tuple) else ()
    if not isinstance(k, slice) or not x.ndim or any(z != slice(None) and z is not Ellipsis for z in rest if isinstance(z, slice) or z is Ellipsis):
        return None
    if rest and not all(isinstance(z, slice) and z == slice(None) for z in rest):
        return None
    r = _lane_slice(x.axes[0], k)
    if r is None:
        return None
    l, a, b = r
    p = cur()
    p.oblige(tm.and_(tm.le(ZERO, a), tm.le(b, x.axes[0][0].size)), "window inside the tensor")
    return l, x.axes[0][0], a


def _aligned(l, L, a):
    """the generic row of the whole tensor is row a + (generic row of the window), if it lies in the window"""
    p = cur()
    al = p.__dict__.setdefault("aligned", {})
    if al.setdefault(L.name, (l.name, a.id)) != (l.name, a.id):
        raise Unsupported("two windows into one symbolic axis")
    i, I = _bound_index(l), _bound_index(L)
    inside = tm.and_(tm.le(a, I), tm.lt(I, tm.add(a, l.size)))
    p.assume(tm.implies(inside, tm.eq(I, tm.add(a, i))))
    return inside


def _slice_ax(ax, sl):
    """axis after slicing; only concrete or full slices"""
    if sl == slice(None):
        return ax, sl
    st = [_pykey(z) if z is not None else None for z in (sl.start, sl.stop, sl.step)]
    if ax_lanes(ax):
        if st[0] in (None, 0) and st[2] in (None, 1) and (st[1] is None):
            return ax, slice(None)
        raise Unsupported("slice of a symbolic axis")
    n = ax_phys(ax)
    r = _py_range(*slice(*st).indices(n))
    return (_py_len(r),), slice(*st)


def _split_key(x, key):
    """-> (numpy basic key with full slices at advanced positions, resulting axes, adv list)
    adv: list of (position in result axes, kind, object, number of axes)"""
    out = _normkey(x, key)
    npkey = []
    axes = []
    adv = []
    d = 0
    for k in out:
        k = _pykey(k)
        if k is None:
            npkey.append(None)
            axes.append((1,))
        elif isinstance(k, slice):
            sl_ax, sl = _slice_ax(x.axes[d], k)
            npkey.append(sl)
            axes.append(sl_ax)
            d += 1
        elif isinstance(k, int):
            ax = x.axes[d]
            if ax_lanes(ax):
                raise Unsupported("indexing one element of a symbolic axis")
            n = ax_phys(ax)
            if not -n <= k < n:
                raise IndexError(f"index {k} is out of bounds for dimension {d} with size {n}")
            npkey.append(k)
            d += 1
        elif isinstance(k, SymTensor) and k.dtype.kind == "b":
            m = k.ndim
            for j in _py_range(m):
                a = x.axes[d + j]
                if not _same_ax(a, k.axes[j]):
                    raise ShapeError(f"The shape of the mask {tuple(k.shape)} does not match the shape of the indexed tensor {tuple(x.shape)}")
            adv.append((_py_len(axes), "mask", k, m))
            for j in _py_range(m):
                npkey.append(slice(None))
                axes.append(x.axes[d + j])
            d += m
        else:
            ci = _const_index(k)
            if ci is not None:
                if ci.dtype == bool:
                    kk = SymTensor(_vec(lambda z: TRUE if z else FALSE, ci.astype(object)), [(n,) for n in ci.shape], bool_)
                    adv.append((_py_len(axes), "mask", kk, ci.ndim))
                    for j in _py_range(ci.ndim):
                        npkey.append(slice(None))
                        axes.append(x.axes[d + j])
                    d += ci.ndim
                    continue
                if ax_lanes(x.axes[d]):
                    raise Unsupported("integer indexing of a symbolic axis")
                adv.append((_py_len(axes), "int", ci, 1))
                npkey.append(slice(None))
                axes.append(x.axes[d])
                d += 1
            elif isinstance(k, SymTensor) and k.dtype.kind == "i":
                if ax_lanes(x.axes[d]):
                    if getattr(k, "_arange_ax", None) is not None and _same_ax(k._arange_ax, x.axes[d]):
                        adv.append((_py_len(axes), "diag", k, 1))
                        npkey.append(slice(None))
                        axes.append(x.axes[d])
                        d += 1
                        continue
                    raise Unsupported("symbolic integer indexing of a symbolic axis")
                adv.append((_py_len(axes), "sym", k, 1))
                npkey.append(slice(None))
                axes.append(x.axes[d])
                d += 1
            else:
                raise Unsupported(f"index {type(k).__name__}")
    return tuple(npkey), axes, adv


def _mask_const(m):
    return not m.lanes() and all(t in (TRUE, FALSE) for t in m.data.reshape(-1))


BRANCH = [False]


def _branch_mask(k):
    """units may ask for masks without batch axes to be decided element by element (one path per outcome)"""
    if BRANCH[0] and not k.lanes() and k.data.size <= 64:
        return SymTensor(_vec(lambda t: TRUE if decide(truth(t)) else FALSE, k.data), k.axes, k.dtype)
    return k


def _getitem(x, key):
    w = _window(x, key)
    if w is not None:
        # read through the alignment of generic rows (outside the window the value is not used)
        _aligned(*w)
        return SymTensor(x.data.copy(), [(w[0],)] + x.axes[1:], x.dtype)
    npkey, axes, adv = _split_key(x, key)
    d = x.data[npkey] if npkey else x.data
    if not isinstance(d, np.ndarray):
        d = obj(d)
    if not adv:
        return SymTensor(d, axes, x.dtype)
    if _py_len(adv) > 1:
        if all(a[1] == "int" for a in adv):
            full = [slice(None)] * d.ndim
            for pos, _, ci, _ in adv:
                full[pos] = ci
            for pos, _, ci, _ in adv:
                pass
            r = d[tuple(full)]
            poss = [a[0] for a in adv]
            bshape = np.broadcast_shapes(*[a[2].shape for a in adv])
            rest = [axes[i] for i in _py_range(_py_len(axes)) if i not in poss]
            contiguous = poss == list(_py_range(poss[0], poss[0] + _py_len(poss)))
            at = poss[0] if contiguous else 0
            na = rest[:at] + [(n,) for n in bshape] + rest[at:]
            return SymTensor(r, na, x.dtype)
        if all(a[1] in ("sym", "int", "diag") for a in adv):
            return _sym_multi(x, d, axes, adv)
        raise Unsupported("combined advanced indexing")
    pos, kind, k, m = adv[0]
    if kind == "int":
        r = np.take(d, k, axis=pos) if k.size else np.take(d, k.astype(np.int64), axis=pos)
        return SymTensor(r, axes[:pos] + [(n,) for n in k.shape] + axes[pos + 1 :], x.dtype)
    if kind == "sym":
        n = d.shape[pos]
        dm = np.moveaxis(d, pos, 0)
        rest = axes[:pos] + axes[pos + 1 :]
        # result: index axes then rest (index placed at pos)
        def pick(i, sub):
            # value sub[i] for symbolic i
            r = sub[n - 1]
            return r
        out = np.empty(k.data.shape + dm.shape[1:], dtype=object)
        for ii in np.ndindex(*k.data.shape):
            it = k.data[ii]
            if cur() is not None and it.op == "const":
                out[ii] = dm[_py_int(it.val)]
                continue
            acc = dm[n - 1]
            for j in _py_range(n - 2, -1, -1):
                acc = _vec(lambda a, b: tm.ite(tm.eq(it, const(j)), a, b), dm[j] if isinstance(dm[j], np.ndarray) else obj(dm[j]), acc if isinstance(acc, np.ndarray) else obj(acc))
            out[ii] = acc if not (isinstance(acc, np.ndarray) and acc.ndim == 0) else acc[()]
            p = cur()
            if p is not None:
                p.oblige(tm.and_(tm.le(const(-n), it), tm.lt(it, const(n))), "index in bounds")
        out = out.reshape(k.data.shape + dm.shape[1:])
        kd = k.ndim
        # move to pos
        order = list(_py_range(kd, kd + pos)) + list(_py_range(kd)) + list(_py_range(kd + pos, out.ndim))
        out = out.transpose(order)
        # lanes: index lanes must not coincide with lanes of rest unless identical generic element -> outer product; reject
        kl = set(k.lanes())
        rl = set(l for a in rest for l in ax_lanes(a))
        if kl & rl:
            raise Unsupported("advanced indexing pairing lanes")
        return SymTensor(out, rest[:pos] + k.axes + rest[pos:], x.dtype)
    # mask
    k = _branch_mask(k)
    if _mask_const(k):
        mk_ = np.array([t is TRUE for t in k.data.reshape(-1)], dtype=bool).reshape(k.data.shape)
        full = (slice(None),) * pos + (mk_,)
        r = d[full]
        return SymTensor(r, axes[:pos] + [(r.shape[pos],)] + axes[pos + m :], x.dtype)
    s = selection(k)
    sh = d.shape
    r = d.reshape(sh[:pos] + (s.phys,) + sh[pos + m :])
    if np.shares_memory(r, x.data):
        r = r.copy()
    return SymTensor(r, axes[:pos] + [(s,)] + axes[pos + m :], x.dtype)


def _sym_multi(x, d, axes, adv):
    """x[arange(N), i]: one element of each row, the row being the generic one (or enumerated)"""
    if _py_len(adv) != 2 or adv[1][0] != adv[0][0] + 1 or adv[1][1] != "sym":
        raise Unsupported("several symbolic index tensors")
    pos, kind, row, _ = adv[0]
    k = adv[1][2]
    if k.ndim != 1:
        raise Unsupported("several symbolic index tensors")
    if kind == "diag":
        if not _same_ax(k.axes[0], axes[pos]):
            raise Unsupported("row and column index of different length")
    elif kind == "int":
        if row.ndim != 1 or list(row) != list(_py_range(d.shape[pos])) or k.data.shape != row.shape or k.lanes():
            raise Unsupported("several symbolic index tensors")
    else:
        raise Unsupported("several symbolic index tensors")
    dm = np.moveaxis(np.moveaxis(d, pos, 0), pos + 1, 1)
    n = dm.shape[1]
    out = np.empty((dm.shape[0],) + dm.shape[2:], dtype=object)
    box = lambda z: z if isinstance(z, np.ndarray) else obj(z)
    for r in _py_range(dm.shape[0]):
        it = k.data[r]
        if it.op == "const":
            i = _py_int(it.val)
            if not -n <= i < n:
                raise IndexError(f"index {i} is out of bounds for dimension {pos + 1} with size {n}")
            out[r] = dm[r, i]
            continue
        acc = box(dm[r, n - 1])
        for j in _py_range(n - 2, -1, -1):
            acc = _vec(lambda a, b: tm.ite(tm.eq(it, const(j)), a, b), box(dm[r, j]), acc)
        out[r] = acc if acc.ndim else acc[()]
        p = cur()
        if p is not None:
            p.oblige(tm.and_(tm.le(const(0), it), tm.lt(it, const(n))), "index in bounds")
    out = np.moveaxis(out, 0, pos)
    return SymTensor(out, axes[:pos] + [axes[pos]] + axes[pos + 2 :], x.dtype)


def _setitem(x, key, val):
    w = _window(x, key)
    if w is not None:
        v = SymTensor.of(val)
        src = np.array(_expand(_strip(v, [(w[0],)] + x.axes[1:]), [(w[0],)] + x.axes[1:]), dtype=object)
        ins = _aligned(*w)
        cv = truth if x.dtype.kind == "b" else num
        x.data[...] = _vec(lambda n, o: tm.ite(ins, cv(n), o), src, x.data)
        return
    npkey, axes, adv = _split_key(x, key)
    v = SymTensor.of(val) if not isinstance(val, (list, tuple)) else tensor(val)
    if x.dtype.kind == "b":
        cv = truth
    elif x.dtype.kind == "i" and v.dtype.kind == "f":
        cv = lambda a: v_cast_int(a)
    else:
        cv = num
    if not adv:
        w = _strip(v, axes)
        src = _vec(cv, np.array(_expand(w, axes), dtype=object)) if ax_total(axes) else None
        if src is not None:
            x.data[npkey] = src if src.ndim else src[()]
        return
    if _py_len(adv) > 1:
        if all(a[1] == "int" for a in adv) and not [1 for s in npkey if isinstance(s, int)]:
            full = [slice(None)] * x.ndim
            for pos, _, ci, _ in adv:
                full[pos] = ci
            poss = [a[0] for a in adv]
            tgt = x.data[tuple(full)]
            bshape = np.broadcast_shapes(*[a[2].shape for a in adv])
            rest = [axes[i] for i in _py_range(_py_len(axes)) if i not in poss]
            contiguous = poss == list(_py_range(poss[0], poss[0] + _py_len(poss)))
            at = poss[0] if contiguous else 0
            na = rest[:at] + [(n,) for n in bshape] + rest[at:]
            x.data[tuple(full)] = _vec(cv, np.array(_expand(_strip(v, na), na), dtype=object))
            return
        raise Unsupported("combined advanced assignment")
    pos, kind, k, m = adv[0]
    base = x.data[npkey] if npkey else x.data
    if not isinstance(base, np.ndarray):
        raise Unsupported("assignment")
    if kind == "int":
        na = axes[:pos] + [(n,) for n in k.shape] + axes[pos + 1 :]
        src = _vec(cv, np.array(_expand(_strip(v, na), na), dtype=object))
        idx = (slice(None),) * pos + (k,)
        base[idx] = src
        return
    if kind == "sym":
        raise Unsupported("assignment at symbolic index")
    k = _branch_mask(k)
    if _mask_const(k):
        mk_ = np.array([t is TRUE for t in k.data.reshape(-1)], dtype=bool).reshape(k.data.shape)
        cnt = _py_int(mk_.sum())
        na = axes[:pos] + [(cnt,)] + axes[pos + m :]
        src = _vec(cv, np.array(_expand(_strip(v, na), na), dtype=object))
        base[(slice(None),) * pos + (mk_,)] = src
        return
    s = selection(k)
    na = axes[:pos] + [(s,)] + axes[pos + m :]
    w = _strip(v, na)
    src = np.array(_expand(w, na), dtype=object)
    sh = base.shape
    src = src.reshape(sh[:pos] + k.data.shape + sh[pos + m :])
    mm = k.data.reshape((1,) * pos + k.data.shape + (1,) * (base.ndim - pos - m))
    base[...] = _vec(lambda c, a, b: tm.ite(c, cv(a), b), np.broadcast_to(mm, base.shape), src, base)


def v_cast_int(a):
    return tm.ite(tm.le(ZERO, a), tm.fn("floor", a), tm.neg(tm.fn("floor", tm.neg(a))))


def ax_total(axes):
    p = 1
    for a in axes:
        p *= ax_phys(a)
    return p


def _strip(v, axes):
    """drop leading size-1 axes of the value beyond the target rank (torch allows it)"""
    while v.ndim > _py_len(axes) and ax_is1(v.axes[0]):
        v = v.squeeze(0)
    return v


# ================================================================ functions
_FUNCS = {}


def reg(*names):
    def deco(f):
        for n in names:
            _FUNCS[n] = f
        return f

    return deco


def _shape_args(size):
    if _py_len(size) == 1 and isinstance(size[0], (tuple, list, Size)):
        size = tuple(size[0])
    return [axis_of_size(s) for s in size]


def full_axes(axes, t, dtype):
    d = np.empty([ax_phys(ax_norm(a)) for a in axes], dtype=object)
    d[...] = t
    return SymTensor(d, axes, dtype)


def zeros(*size, dtype=None, device=None, **k):
    if "size" in k:
        size = (k["size"],)
    dt = dtype or DEFAULT_F
    return full_axes(_shape_args(size), FALSE if dt.kind == "b" else ZERO, dt)


def ones(*size, dtype=None, device=None, **k):
    dt = dtype or DEFAULT_F
    return full_axes(_shape_args(size), TRUE if dt.kind == "b" else ONE, dt)


def empty(*size, dtype=None, device=None, **k):
    """uninitialised memory: a fresh arbitrary value (marked undefined) so reading it is caught"""
    return full_axes(_shape_args(size), tm.UNDEF, dtype or DEFAULT_F)


def full(size, fill_value, dtype=None, device=None, **k):
    t = to_term(fill_value)
    dt = dtype or (bool_ if t.isbool else int64 if isinstance(fill_value, int) else DEFAULT_F)
    if isinstance(size, int) or isinstance(size, SymInt):
        raise TypeError("full(): argument 'size' must be tuple of ints, not int")
    return full_axes(_shape_args((tuple(size),)), t if dt.kind != "b" else truth(t), dt)


@reg("zeros_like")
def zeros_like(x, dtype=None, device=None, **k):
    dt = dtype or x.dtype
    return full_axes(x.axes, FALSE if dt.kind == "b" else ZERO, dt)


@reg("ones_like")
def ones_like(x, dtype=None, device=None, **k):
    dt = dtype or x.dtype
    return full_axes(x.axes, TRUE if dt.kind == "b" else ONE, dt)


@reg("empty_like")
def empty_like(x, dtype=None, device=None, **k):
    return full_axes(x.axes, tm.UNDEF, dtype or x.dtype)


@reg("full_like")
def full_like(x, v, dtype=None, device=None, **k):
    return full_axes(x.axes, to_term(v), dtype or x.dtype)


def tensor(x, dtype=None, device=None, requires_grad=False):
    if isinstance(x, SymTensor):
        return x.clone() if dtype is None else x.clone()._cast(dtype)
    kinds = set()
    fts = []
    if isinstance(x, Size) and not x and dtype is None:
        dtype = int64  # TorchScript: List[int]

    def conv(v):
        if isinstance(v, (list, tuple)):
            return [conv(z) for z in v]
        if isinstance(v, np.ndarray):
            return conv(v.tolist())
        if isinstance(v, SymTensor):
            if v.ndim:
                raise Unsupported("tensor of tensors")
            kinds.add(v.dtype.kind)
            if v.dtype.kind == "f" and not v.pynum:
                fts.append(v.dtype)
            return v.data[()]
        if isinstance(v, (bool, np.bool_, SymBool)):
            kinds.add("b")
        elif isinstance(v, (int, np.integer, SymInt)):
            kinds.add("i")
        else:
            kinds.add("f")
        return to_term(v)

    y = conv(x)

    def shp(v):
        if isinstance(v, list):
            return (_py_len(v),) + (shp(v[0]) if v else ())
        return ()

    sh = shp(y)
    d = np.empty(sh, dtype=object)

    def fill(ix, v):
        if isinstance(v, list):
            for i, z in enumerate(v):
                fill(ix + (i,), z)
        else:
            d[ix] = v

    fill((), y)
    if dtype is None:
        dtype = float64 if any(t is float64 for t in fts) else DEFAULT_F if ("f" in kinds or not kinds) else int64 if "i" in kinds else bool_
    if dtype.kind == "b":
        d = _vec(truth, d)
    else:
        d = _vec(num, d)
    return SymTensor(d, [(n,) for n in sh], dtype)


as_tensor = tensor


def from_numpy(a):
    return tensor(a.tolist(), dtype={"float64": float64, "float32": float32, "int64": int64}.get(str(a.dtype), float32))


def eye(n, m=None, dtype=None, device=None):
    m = m or n
    if not isinstance(n, int):
        raise Unsupported("eye of symbolic size")
    d = np.empty((n, m), dtype=object)
    for i in _py_range(n):
        for j in _py_range(m):
            d[i, j] = ONE if i == j else ZERO
    return SymTensor(d, [(n,), (m,)], dtype or DEFAULT_F)


def _bound_index(l):
    """the generic position along a lane lies in it"""
    i = tm.ivar("i_" + l.name)
    p = cur()
    p.assume(tm.le(ZERO, i))
    p.assume(tm.le(i, tm.sub(l.size, ONE)))
    return i


def arange(*a, dtype=None, device=None, **k):
    a = [z.item() if isinstance(z, SymTensor) else z for z in a]
    if any(isinstance(z, SymInt) for z in a):
        if _py_len(a) == 1 or (_py_len(a) == 2 and isinstance(a[0], int) and a[0] == 0):
            n = a[-1]
            try:
                ax = axis_of_size(n)
            except Unsupported:
                ax = ()
            if _py_len(ax) == 1 and isinstance(ax[0], Lane):
                _bound_index(ax[0])
                r = full_axes([ax], tm.ivar("i_" + ax[0].name), dtype or int64)
                r._arange_ax = ax
                return r
            if ax and all(isinstance(z, Lane) for z in ax):
                r = full_axes([ax], tm.ivar("i_" + "_".join(z.name for z in ax)), dtype or int64)
                r._arange_ax = ax
                return r
        if _py_len(a) <= 2 and not any(isinstance(z, (float, SymTensor)) for z in a):
            return int_range(*a, dtype=dtype)
        raise Unsupported("arange with symbolic bound")
    if any(isinstance(z, SymTensor) for z in a):
        raise Unsupported("arange with symbolic real bound")
    isf = any(isinstance(z, float) for z in a)
    if isf:
        fr = [tm.const(z).val if isinstance(z, float) else Fraction(z) for z in a]
        lo, hi, st = (Fraction(0), fr[0], Fraction(1)) if _py_len(fr) == 1 else (fr[0], fr[1], fr[2] if _py_len(fr) > 2 else Fraction(1))
        vals = []
        v = lo
        n = _math.ceil((hi - lo) / st)
        vals = [const(lo + i * st) for i in _py_range(n)]
    else:
        vals = [const(z) for z in _py_range(*a)]
    return SymTensor(obj_list(vals), [(_py_len(vals),)], dtype or (DEFAULT_F if isf else int64))


_ranges = {}


def int_range(lo, hi=None, dtype=None):
    """arange between symbolic integers: a new lane whose generic element is lo + i, 0 <= i < hi - lo"""
    if hi is None:
        lo, hi = 0, lo
    L, H = to_term(lo), to_term(hi)
    if not decide(tm.lt(L, H)):
        raise Unsupported("possibly empty arange")
    p = cur()
    nm = p.freshname("rng")
    l = Lane(nm, tm.ivar("N_" + nm))
    _lanes[nm] = l
    x = tm.ivar("x_" + nm)
    p.assume(tm.eq(l.size, tm.sub(H, L)))
    p.assume(tm.le(L, x))
    p.assume(tm.lt(x, H))
    _ranges["x_" + nm] = (L, H)
    return full_axes([(l,)], x, dtype or int64)


def obj_list(vals):
    d = np.empty(_py_len(vals), dtype=object)
    for i, v in enumerate(vals):
        d[i] = v
    return d


def rand(*size, dtype=None, device=None, generator=None, **k):
    """uniform random numbers: arbitrary elements of [0, 1)"""
    from .contract import CUR

    if _py_len(size) == 1 and isinstance(size[0], (list, tuple)):
        size = tuple(size[0])
    ax = []
    for n in size:
        n = n.item() if isinstance(n, SymTensor) else n
        ax.append((n,) if isinstance(n, int) and not isinstance(n, SymInt) else axis_of_size(n))
    h = CUR[0].havoc(ax, [], dtype or DEFAULT_F, base="rand")
    CUR[0].require((h >= 0) & (h < 1))
    return h


def linspace(start, end, steps, dtype=None, device=None, **k):
    if isinstance(steps, SymTensor):
        steps = steps.item()
    a, b = to_term(start), to_term(end)
    if not isinstance(steps, int):
        ax = axis_of_size(steps)
        if _py_len(ax) == 1 and isinstance(ax[0], Lane):
            i = _bound_index(ax[0])
            return full_axes([ax], tm.add(a, tm.mul(i, tm.ite(tm.eq(ax[0].size, ONE), ZERO, tm.div(tm.sub(b, a), tm.sub(ax[0].size, ONE))))), dtype or DEFAULT_F)
        raise Unsupported("linspace with symbolic steps")
    n = steps
    vals = [tm.add(a, tm.mul(const(Fraction(i, n - 1)), tm.sub(b, a))) if n > 1 else a for i in _py_range(n)]
    return SymTensor(obj_list(vals), [(n,)], dtype or DEFAULT_F)


def meshgrid(*ts, indexing="ij"):
    if _py_len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = tuple(ts[0])
    n = _py_len(ts)
    if indexing == "xy" and n >= 2:
        r = meshgrid(*([ts[1], ts[0]] + list(ts[2:])), indexing="ij")
        r = [r[1].clone(), r[0].clone()] + list(r[2:])
        return tuple(r)
    axes = [t.axes[0] if t.ndim else (1,) for t in ts]
    out = []
    for i, t in enumerate(ts):
        d = t.data.reshape((1,) * i + (-1,) + (1,) * (n - i - 1))
        out.append(SymTensor(np.array(np.broadcast_to(d, [ax_phys(a) for a in axes]), dtype=object), axes, t.dtype))
    return tuple(out)


def cartesian_prod(*ts):
    g = meshgrid(*ts)
    return stack([z.reshape(-1) for z in g], dim=-1)


def stack(ts, dim=0):
    ts = [SymTensor.of(t) for t in ts]
    axes = broadcast_axes(*[t.axes for t in ts])
    for t in ts:
        if _py_len(t.axes) != _py_len(axes) or any(not _same_ax(p, q) for p, q in zip(t.axes, axes)):
            raise ShapeError("stack expects each tensor to be equal size")
    d = dim % (_py_len(axes) + 1)
    dt = _py_max((t.dtype for t in ts), key=lambda z: z.rank)
    return SymTensor(np.stack([t.data for t in ts], axis=d), axes[:d] + [(_py_len(ts),)] + axes[d:], dt)


def cat(ts, dim=0):
    ts = [t for t in ts]
    ts2 = [t for t in ts if not (t.ndim == 1 and t.data.size == 0)]
    if not ts2:
        return ts[0]
    n = ts2[0].ndim
    d = dim % n
    axes = []
    for i in _py_range(n):
        if i == d:
            axes.append(None)
            continue
        a = ts2[0].axes[i]
        for t in ts2:
            if not _same_ax(t.axes[i], a):
                raise ShapeError("Sizes of tensors must match except in dimension %d" % d)
        axes.append(a)
    if any(ax_lanes(t.axes[d]) for t in ts2):
        if _py_len(ts2) == 1:
            return ts2[0]
        raise Unsupported("concatenation along a symbolic axis")
    axes[d] = (_py_sum(ax_phys(t.axes[d]) for t in ts2),)
    dt = _py_max((t.dtype for t in ts2), key=lambda z: z.rank)
    return SymTensor(np.concatenate([t.data for t in ts2], axis=d), axes, dt)


concat = concatenate = cat


def hstack(ts):
    return cat(ts, 0 if ts[0].ndim == 1 else 1)


def vstack(ts):
    return cat([t if t.ndim > 1 else t.unsqueeze(0) for t in ts], 0)


def unbind(x, dim=0):
    d = dim % x.ndim
    n = x.shape[d]
    if not isinstance(n, int):
        raise Unsupported("unbind of a symbolic axis")
    return tuple(x[(slice(None),) * d + (i,)] for i in _py_range(n))


def split(x, n, dim=0):
    d = dim % x.ndim
    L = x.shape[d]
    if not isinstance(L, int):
        raise Unsupported("split of symbolic axis")
    sizes = n if isinstance(n, (list, tuple)) else [_py_min(n, L - i) for i in _py_range(0, L, n)]
    out, o = [], 0
    for s in sizes:
        out.append(x[(slice(None),) * d + (slice(o, o + s),)])
        o += s
    return tuple(out)


def chunk(x, n, dim=0):
    L = x.shape[dim % x.ndim]
    if not isinstance(L, int):
        raise Unsupported("chunk of symbolic axis")
    return split(x, -(-L // n), dim)


_FUNCS.update(dict(unbind=unbind, split=split, chunk=chunk))


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c, as_tuple=True)
    c = SymTensor.of(c)
    A, B = SymTensor.of(a), SymTensor.of(b)
    axes = broadcast_axes(c.axes, A.axes, B.axes)
    dt = promote(a, b)
    isb = dt.kind == "b"
    f = (lambda k, p, q: tm.ite(truth(k), truth(p), truth(q))) if isb else (lambda k, p, q: tm.ite(truth(k), num(p), num(q)))
    return SymTensor(_vec(f, _expand(c, axes), _expand(A, axes), _expand(B, axes)), axes, dt)


_FUNCS["where"] = lambda self, c, other: where(c, self, other)


def nonzero(x, as_tuple=False):
    if x.lanes():
        raise Unsupported("nonzero of a batched tensor")
    m = _vec(truth, x.data)
    idx = []
    for ii in np.ndindex(*m.shape):
        if decide(m[ii]):
            idx.append(ii)
    if as_tuple:
        return tuple(tensor([i[d] for i in idx], dtype=int64) if idx else zeros(0, dtype=int64) for d in _py_range(x.ndim))
    if not idx:
        return zeros(0, x.ndim, dtype=int64)
    return tensor([list(i) for i in idx], dtype=int64)


_FUNCS["nonzero"] = nonzero


def _unary(name, f, fl=True):
    def g(x, *a, out=None, **k):
        if not isinstance(x, SymTensor):
            x = SymTensor.of(x)
        return x._un(f, x._fl() if fl else None)

    _FUNCS[name] = g
    return g


for _n in ("sin", "cos", "tan", "acos", "asin", "atan", "exp", "log"):
    _unary(_n, (lambda nm: lambda a: tm.fn(nm, a))(_n))
_FUNCS["arccos"], _FUNCS["arcsin"], _FUNCS["arctan"] = _FUNCS["acos"], _FUNCS["asin"], _FUNCS["atan"]
_unary("sqrt", tm.sqrt)
_unary("rsqrt", lambda a: tm.div(ONE, tm.sqrt(a)))
_unary("abs", tm.abs_, False)
_FUNCS["absolute"] = _FUNCS["abs"]
_unary("sign", tm.sign, False)
_unary("sgn", tm.sign, False)
_unary("neg", tm.neg, False)
_FUNCS["negative"] = _FUNCS["neg"]
_unary("square", lambda a: tm.ipow(a, 2), False)
_unary("reciprocal", lambda a: tm.div(ONE, a))
_unary("floor", lambda a: tm.fn("floor", a), False)
_unary("ceil", lambda a: tm.neg(tm.fn("floor", tm.neg(a))), False)
_unary("trunc", v_cast_int, False)
_unary("deg2rad", lambda a: tm.mul(a, tm.div(tm.PI, const(180))))
_unary("rad2deg", lambda a: tm.mul(a, tm.div(const(180), tm.PI)))
_unary("log2", lambda a: tm.div(tm.fn("log", a), tm.fn("log", const(2))))
_unary("log10", lambda a: tm.div(tm.fn("log", a), tm.fn("log", const(10))))
_unary("frac", lambda a: tm.sub(a, v_cast_int(a)))


@reg("round")
def round_(x, *a, **k):
    # torch rounds half to even; ties are left to the floor(x+1/2) reading
    return x._un(lambda a: tm.fn("floor", tm.add(a, const(Fraction(1, 2)))))


def _binary(name, f, cmp=False):
    def g(x, y, *a, **k):
        if not isinstance(x, SymTensor):
            x = SymTensor.of(x)
        return x._bin(y, f, cmp=cmp)

    _FUNCS[name] = g
    return g


_binary("atan2", lambda y, x: tm.fn("atan2", y, x))
_FUNCS["arctan2"] = _FUNCS["atan2"]
_binary("copysign", tm.copysign)
_binary("minimum", tm.min_)
_binary("maximum", tm.max_)
_binary("eq", tm.eq, True)
_binary("ne", lambda a, b: tm.not_(tm.eq(a, b)), True)
_binary("lt", tm.lt, True)
_binary("le", tm.le, True)
_binary("gt", lambda a, b: tm.lt(b, a), True)
_binary("ge", lambda a, b: tm.le(b, a), True)
_FUNCS["less"], _FUNCS["greater"] = _FUNCS["lt"], _FUNCS["gt"]
_FUNCS["less_equal"], _FUNCS["greater_equal"] = _FUNCS["le"], _FUNCS["ge"]
_binary("floor_divide", lambda a, b: tm.fn("floor", tm.div(a, b)))
_binary("remainder", lambda a, b: tm.sub(a, tm.mul(b, tm.fn("floor", tm.div(a, b)))))
_binary("hypot", lambda a, b: tm.sqrt(tm.add(tm.ipow(a, 2), tm.ipow(b, 2))))


def _fmod(a, b):
    q = tm.div(a, b)
    return tm.sub(a, tm.mul(b, v_cast_int(q)))


_binary("fmod", _fmod)


@reg("add")
def add(x, y, alpha=1):
    return SymTensor.of(x) + (y if alpha == 1 else y * alpha)


@reg("sub", "subtract")
def sub(x, y, alpha=1):
    return SymTensor.of(x) - (y if alpha == 1 else y * alpha)


@reg("mul", "multiply")
def mul(x, y):
    return SymTensor.of(x) * y


@reg("div", "divide", "true_divide")
def div(x, y, rounding_mode=None):
    r = SymTensor.of(x) / y
    if rounding_mode == "floor":
        return _FUNCS["floor"](r)
    if rounding_mode == "trunc":
        return _FUNCS["trunc"](r)
    return r


@reg("pow")
def pow_(x, n):
    return SymTensor.of(x) ** n


@reg("addcmul")
def addcmul(x, a, b, value=1):
    return x + a * b * value


@reg("lerp")
def lerp(a, b, w):
    return a + (b - a) * w


@reg("logical_not")
def logical_not(x):
    return ~x._cast(bool_)


@reg("logical_and")
def logical_and(x, y):
    return x._cast(bool_) & y._cast(bool_)


@reg("logical_or")
def logical_or(x, y):
    return x._cast(bool_) | y._cast(bool_)


@reg("logical_xor")
def logical_xor(x, y):
    return x._cast(bool_) ^ y._cast(bool_)


@reg("clamp", "clip")
def clamp(x, min=None, max=None):
    r = x
    if min is not None:
        r = r._bin(min, tm.max_)
    if max is not None:
        r = r._bin(max, tm.min_)
    r.dtype = promote(x, *(z for z in (min, max) if z is not None))
    return r


@reg("clamp_min")
def clamp_min(x, m):
    return clamp(x, min=m)


@reg("clamp_max")
def clamp_max(x, m):
    return clamp(x, max=m)


@reg("isnan")
def isnan(x):
    return SymTensor(_vec(lambda a: tm.not_(tm.isdef(num(a))) if not a.isbool else FALSE, x.data), x.axes, bool_)


@reg("isinf")
def isinf(x):
    def f(a):
        if a.op == "inf" or (a.op == "mul" and a.args[1].op == "inf"):
            return TRUE
        if a.op == "ite":
            return tm.ite(a.args[0], f(a.args[1]), f(a.args[2]))
        # a finite real, or undefined (NaN): not infinite
        return FALSE

    return SymTensor(_vec(f, x.data), x.axes, bool_)


@reg("isfinite")
def isfinite(x):
    return SymTensor(_vec(tm.isdef, x.data), x.axes, bool_)


@reg("nan_to_num")
def nan_to_num(x, nan=0.0, posinf=None, neginf=None):
    return x._un(lambda a: tm.ite(tm.isdef(a), a, to_term(nan)))


# ---------------------------------------------------------------- reductions
def _dims(x, dim):
    if dim is None:
        return list(_py_range(x.ndim))
    if isinstance(dim, (tuple, list)):
        return sorted(d % x.ndim for d in dim)
    if x.ndim == 0:
        return []
    if not -x.ndim <= dim < x.ndim:
        raise IndexError(f"Dimension out of range (expected to be in range of [{-x.ndim}, {x.ndim-1}], but got {dim})")
    return [dim % x.ndim]


def _reduce(x, dim, keepdim, f, init, dtype, conv=num, lane_rule=None):
    ds = _dims(x, dim)
    d = _vec(conv, x.data)
    axes = list(x.axes)
    for k in reversed(ds):
        ls = ax_lanes(axes[k])
        mv = np.moveaxis(d, k, 0)
        if mv.shape[0] == 0:
            acc = np.empty(mv.shape[1:], dtype=object)
            acc[...] = init
        else:
            acc = mv[0] if isinstance(mv[0], np.ndarray) else obj(mv[0])
            for i in _py_range(1, mv.shape[0]):
                acc = _vec(f, acc, mv[i] if isinstance(mv[i], np.ndarray) else obj(mv[i]))
        if ls:
            if lane_rule is None:
                raise Unsupported("reduction over a symbolic axis")
            for l in ls:
                acc = _vec(lambda t: lane_rule(l, t), acc if isinstance(acc, np.ndarray) else obj(acc))
        d = acc if isinstance(acc, np.ndarray) else obj(acc)
        if keepdim:
            d = np.expand_dims(d, k)
            axes[k] = (1,)
        else:
            axes.pop(k)
    return SymTensor(d, axes, dtype)


def _sum_rule(l, t):
    """sum over all elements of a lane: linear, every lane-free factor taken out, the remaining monomials in the
    generic element becoming values of an unknown functional (trusted: linearity of finite sums)"""
    from . import poly

    t = num(t)
    d = tm.isdef(t)
    if d is not TRUE:
        p = cur()
        if p is not None:
            p.oblige(d, "summands are defined")
    c = poly.Ctx()
    n, den = c.rat(t)

    def dep(k):
        return not isinstance(k, str) and depends(c.atom_term[k], l)

    for m in den.d:
        if any(dep(k) for k, _ in m):
            raise Unsupported("sum over a symbolic axis of a quotient")
    one = poly.Poly({(): Fraction(1)})
    acc = ZERO
    for m, co in n.key():
        a = tuple(z for z in m if dep(z[0]))
        b = tuple(z for z in m if not dep(z[0]))
        rest = c.toterm(poly.Poly({b: co}), one)
        g = c.toterm(poly.Poly({a: Fraction(1)}), one)
        acc = tm.add(acc, tm.mul(rest, tm.uf("sum over " + l.name, g) if a else l.size))
    return acc if den.is_const() and den.cval() == 1 else tm.div(acc, c.toterm(den, one))


VAR_LANES = {}  # variable -> the lanes it varies along (absent: unknown, assumed to vary along every lane)
_dep_memo = {}


def depends(t, l):
    """may the term vary along the lane?  (a sum over the lane binds its generic element)"""
    bound = "sum over " + l.name
    for x in tm.postorder([t]):
        k = (x.id, l.name)
        if k in _dep_memo:
            continue
        if x.op in ("var", "ivar", "bvar"):
            ls = VAR_LANES.get(x.val)
            _dep_memo[k] = not x.val.startswith("N_") and (ls is None or l.name in ls)
        elif x.op == "uf" and x.val == bound:
            _dep_memo[k] = False
        else:
            _dep_memo[k] = any(_dep_memo[(a.id, l.name)] for a in x.args)
    return _dep_memo[(t.id, l.name)]


@reg("sum")
def sum_(x, dim=None, keepdim=False, dtype=None, axis=None, **k):
    if axis is not None:
        dim = axis
    if isinstance(x, (list, tuple)):
        raise Unsupported("sum of list")
    if x.lanes() and x.dtype.kind == "b" and any(ax_lanes(x.axes[d]) for d in _dims(x, dim)):
        return _count(x, dim, keepdim)
    dt = dtype or (int64 if x.dtype.kind in "bi" else x.dtype)
    return _reduce(x, dim, keepdim, tm.add, ZERO, dt, lane_rule=_sum_rule)


def _count(x, dim, keepdim):
    p = cur()

    def rule(l, t):
        n = tm.ivar(p.freshname("cnt"))
        p.assume(tm.le(ZERO, n))
        p.assume(tm.implies(tm.eq(n, ZERO), tm.or_(tm.not_(truth(t)), tm.not_(tm.isdef(t)))))
        return n

    return _reduce(x, dim, keepdim, tm.add, ZERO, int64, lane_rule=rule)


@reg("mean")
def mean(x, dim=None, keepdim=False, dtype=None, axis=None):
    if axis is not None:
        dim = axis
    s = sum_(x, dim, keepdim)
    n = 1
    for d in _dims(x, dim):
        n = n * x.shape[d]
    r = s / n
    r.dtype = dtype or x.dtype
    return r


@reg("prod")
def prod(x, dim=None, keepdim=False, dtype=None):
    return _reduce(x, dim, keepdim, tm.mul, ONE, dtype or (int64 if x.dtype.kind in "bi" else x.dtype))


def _everywhere(goal):
    """does the goal follow, for every element of the batch, from the precondition alone?"""
    from . import prove as pv
    from .contract import CUR

    p = cur()
    old = pv.TIMEOUT[0]
    pv.TIMEOUT[0] = min(old, 3000)
    try:
        v = CUR[0]
        return pv.prove_top(list(p.universal()), goal, v.rules if v is not None else []).status == "proved"
    except RecursionError:
        return False
    finally:
        pv.TIMEOUT[0] = old


def _any_rule(l, t):
    p = cur()
    if t is FALSE:
        return FALSE
    if _everywhere(tm.and_(tm.isdef(t), tm.not_(t))):
        return FALSE
    b = tm.bvar(p.freshname("any"))
    if l.guard is not None:
        pass
    p.assume(tm.implies(tm.not_(b), tm.or_(tm.not_(t), tm.not_(tm.isdef(t)))))
    return b


def _all_rule(l, t):
    p = cur()
    if t is TRUE or _everywhere(tm.and_(tm.isdef(t), t)):
        return TRUE
    b = tm.bvar(p.freshname("all"))
    p.assume(tm.implies(b, tm.or_(t, tm.not_(tm.isdef(t)))))
    return b


@reg("unique")
def unique(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    if x.lanes() or dim is not None or any(t.op != "const" for t in x.data.reshape(-1)):
        raise Unsupported("unique of symbolic values")
    vals, inv, cnt = np.unique(np.array([t.val for t in x.data.reshape(-1)], dtype=object), return_inverse=True, return_counts=True)
    out = np.array([const(z) for z in vals] + [None], dtype=object)[:-1]
    r = SymTensor(out, [(_py_len(vals),)], x.dtype)
    if not (return_inverse or return_counts):
        return r
    res = [r]
    if return_inverse:
        res.append(SymTensor(np.array([const(_py_int(z)) for z in inv.reshape(-1)] + [None], dtype=object)[:-1].reshape(x.data.shape), x.axes, int64))
    if return_counts:
        res.append(SymTensor(np.array([const(_py_int(z)) for z in cnt] + [None], dtype=object)[:-1], [(_py_len(vals),)], int64))
    return tuple(res)


@reg("any")
def any_(x, dim=None, keepdim=False, axis=None):
    return _reduce(x, axis if axis is not None else dim, keepdim, tm.or_, FALSE, bool_, conv=truth, lane_rule=_any_rule)


@reg("all")
def all_(x, dim=None, keepdim=False, axis=None):
    return _reduce(x, axis if axis is not None else dim, keepdim, tm.and_, TRUE, bool_, conv=truth, lane_rule=_all_rule)


def norm(x, p=2, dim=None, keepdim=False, ord=None, dtype=None, **k):
    if ord is not None:
        p = ord
    if p not in (2, "fro", None, 2.0):
        raise Unsupported("norm order")
    s = sum_(x._un(lambda a: tm.ipow(a, 2)), dim, keepdim)
    return s._un(tm.sqrt)


_FUNCS["norm"] = norm


def linalg_norm(x, ord=None, dim=None, keepdim=False, **k):
    return norm(x, 2 if ord is None else ord, dim, keepdim)


def normalize(x, p=2.0, dim=1, eps=1e-12):
    n = norm(x, 2, dim, True)
    return x / clamp(n, min=eps)


@reg("dot", "inner", "vdot")
def dot(a, b):
    return sum_(a * b, -1)


@reg("cross")
def cross(a, b, dim=-1):
    axes = broadcast_axes(a.axes, b.axes)
    a = SymTensor(np.array(_expand(a, axes), dtype=object), axes, a.dtype)
    b = SymTensor(np.array(_expand(b, axes), dtype=object), axes, b.dtype)
    d = dim % a.ndim
    a0, a1, a2 = unbind(a, d)
    b0, b1, b2 = unbind(b, d)
    return stack((a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0), dim=d)


def matmul(a, b):
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = a.unsqueeze(0)
    if vb:
        b = b.unsqueeze(-1)
    if not _same_ax(a.axes[-1], b.axes[-2]):
        raise ShapeError(f"mat1 and mat2 shapes cannot be multiplied ({tuple(a.shape)} and {tuple(b.shape)})")
    r = sum_(a.unsqueeze(-1) * b.unsqueeze(-3), -2)
    if va:
        r = r.squeeze(-2)
    if vb:
        r = r.squeeze(-1)
    return r


_FUNCS["matmul"] = matmul
_FUNCS["mm"] = matmul
_FUNCS["bmm"] = matmul
_FUNCS["mv"] = matmul
SymTensor.__matmul__ = lambda a, b: matmul(a, b)


def outer(a, b):
    return a.unsqueeze(-1) * b.unsqueeze(0)


_FUNCS["outer"] = outer
_FUNCS["ger"] = outer


def einsum(eq, *ts):
    if _py_len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = tuple(ts[0])
    eq = eq.replace(" ", "")
    if "->" in eq:
        lhs, rhs = eq.split("->")
    else:
        lhs = eq
        cnt = {}
        for c in lhs.replace(",", "").replace("...", ""):
            cnt[c] = cnt.get(c, 0) + 1
        rhs = ("..." if "..." in lhs else "") + "".join(sorted(c for c in cnt if cnt[c] == 1))
    ins = lhs.split(",")
    nb = 0
    for s, t in zip(ins, ts):
        if "..." in s:
            nb = _py_max(nb, t.ndim - _py_len(s.replace("...", "")))
    bl = [chr(0x100 + i) for i in _py_range(nb)]
    terms = []
    for s, t in zip(ins, ts):
        if "..." in s:
            k = t.ndim - _py_len(s.replace("...", ""))
            s = s.replace("...", "".join(bl[nb - k :]))
        terms.append(s)
    rhs = rhs.replace("...", "".join(bl))
    letters = []
    for s in terms:
        for c in s:
            if c not in letters:
                letters.append(c)
    order = [c for c in rhs] + [c for c in letters if c not in rhs]
    acc = None
    for s, t in zip(terms, ts):
        if _py_len(set(s)) != _py_len(s):
            raise Unsupported("einsum diagonal")
        if t.ndim != _py_len(s):
            raise ShapeError("einsum operand rank")
        present = [c for c in order if c in s]
        u = t.permute(*[s.index(c) for c in present]) if t.ndim else t
        for i, c in enumerate(order):
            if c not in s:
                u = u.unsqueeze(i)
        acc = u if acc is None else acc * u
    extra = list(_py_range(_py_len(rhs), _py_len(order)))
    if extra:
        acc = sum_(acc, extra)
    return acc


@reg("diagonal")
def diagonal(x, offset=0, dim1=0, dim2=1):
    if offset:
        raise Unsupported("diagonal offset")
    a, b = dim1 % x.ndim, dim2 % x.ndim
    if not _same_ax(x.axes[a], x.axes[b]) or ax_lanes(x.axes[a]):
        raise Unsupported("diagonal")
    d = np.diagonal(x.data, 0, a, b)
    axes = [x.axes[i] for i in _py_range(x.ndim) if i not in (a, b)] + [x.axes[a]]
    return SymTensor(np.array(d, dtype=object), axes, x.dtype)


@reg("diag")
def diag(x, k=0):
    if x.ndim == 2:
        return diagonal(x)
    return diag_embed(x)


@reg("diag_embed")
def diag_embed(x, *a):
    n = x.shape[-1]
    return x.unsqueeze(-1) * eye(n, dtype=x.dtype)


@reg("trace")
def trace(x):
    return sum_(diagonal(x))


@reg("det")
def det(x):
    n = x.shape[-1]
    if n == 2:
        return x[..., 0, 0] * x[..., 1, 1] - x[..., 0, 1] * x[..., 1, 0]
    if n == 3:
        return (
            x[..., 0, 0] * (x[..., 1, 1] * x[..., 2, 2] - x[..., 1, 2] * x[..., 2, 1])
            - x[..., 0, 1] * (x[..., 1, 0] * x[..., 2, 2] - x[..., 1, 2] * x[..., 2, 0])
            + x[..., 0, 2] * (x[..., 1, 0] * x[..., 2, 1] - x[..., 1, 1] * x[..., 2, 0])
        )
    raise Unsupported("det")


def inv(x):
    if x.shape[-1] != 3:
        raise Unsupported("inverse of size != 3")
    m = [[x[..., i, j] for j in _py_range(3)] for i in _py_range(3)]
    D = det(x)
    def cof(i, j):
        r = [k for k in _py_range(3) if k != i]
        c = [k for k in _py_range(3) if k != j]
        v = m[r[0]][c[0]] * m[r[1]][c[1]] - m[r[0]][c[1]] * m[r[1]][c[0]]
        return v if (i + j) % 2 == 0 else -v
    return stack([stack([cof(j, i) / D for j in _py_range(3)], -1) for i in _py_range(3)], -2)


_FUNCS["inverse"] = inv


@reg("trapz")
def trapz(*a, **k):
    raise Unsupported("trapz")


@reg("cumsum")
def cumsum(x, dim=0):
    d = dim % x.ndim
    if ax_lanes(x.axes[d]):
        raise Unsupported("cumsum over a symbolic axis")
    mv = np.moveaxis(_vec(num, x.data), d, 0).copy()
    for i in _py_range(1, mv.shape[0]):
        mv[i] = _vec(tm.add, obj(mv[i - 1]), obj(mv[i])) if mv.ndim > 1 else tm.add(mv[i - 1], mv[i])
    return SymTensor(np.moveaxis(mv, 0, d), x.axes, int64 if x.dtype.kind in "bi" else x.dtype)


@reg("logsumexp")
def logsumexp(x, dim, keepdim=False):
    # log sum exp(x_i); exp(log(u)*k) simplified when recognisable
    def ex(t):
        return exp_of(t)
    e = SymTensor(_vec(ex, x.data), x.axes, x.dtype)
    s = sum_(e, dim, keepdim)
    return s._un(lambda a: tm.fn("log", a))


def exp_of(t):
    """exp of t, simplifying exp(q*log u) for rational q"""
    if t.op == "log":
        return t.args[0]
    if t.op == "mul" and t.args[0].op == "const" and t.args[1].op == "log":
        return tm.powr(t.args[1].args[0], t.args[0].val)
    if t.op == "add":
        return tm.mul(exp_of(t.args[0]), exp_of(t.args[1]))
    return tm.fn("exp", t)


_unary("exp", exp_of)


class MinMax(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _argbest(vals, best):
    """case split: index of the best value (ties: any maximiser that is first under >=)"""
    n = _py_len(vals)
    if n == 1:
        return 0
    p = cur()
    conds = []
    for j in _py_range(n):
        cs = []
        for k in _py_range(n):
            if k != j:
                cs.append(best(vals[j], vals[k]))
        conds.append(tm.and_(*cs))
    if p is None:
        for j, c in enumerate(conds):
            if c is TRUE:
                return j
        raise Unsupported("argmax outside exploration")
    return p.choose(n, conds, check=n <= 4)


def _best(x, dim, keepdim, ge, wantval=True):
    d = dim % x.ndim
    if ax_lanes(x.axes[d]):
        raise Unsupported("max/min over a symbolic axis")
    mv = np.moveaxis(_vec(num, x.data), d, -1)
    vi = np.empty(mv.shape[:-1], dtype=object)
    ii = np.empty(mv.shape[:-1], dtype=object)
    for k in np.ndindex(*mv.shape[:-1]):
        j = _argbest(list(mv[k]), ge)
        vi[k] = mv[k][j]
        ii[k] = const(j)
    axes = x.axes[:d] + x.axes[d + 1 :]
    v = SymTensor(vi, axes, x.dtype)
    i = SymTensor(ii, axes, int64)
    if keepdim:
        v, i = v.unsqueeze(d), i.unsqueeze(d)
    return v, i


def _maxval(x, f, dim, keepdim):
    return _reduce(x, dim, keepdim, f, ZERO, x.dtype)


@reg("max")
def max_(x, dim=None, keepdim=False):
    if isinstance(dim, SymTensor):
        return _FUNCS["maximum"](x, dim)
    if dim is None:
        return _maxval(x, tm.max_, None, False)
    return MinMax(_best(x, dim, keepdim, lambda a, b: tm.le(b, a)))


@reg("min")
def min_(x, dim=None, keepdim=False):
    if isinstance(dim, SymTensor):
        return _FUNCS["minimum"](x, dim)
    if dim is None:
        return _maxval(x, tm.min_, None, False)
    return MinMax(_best(x, dim, keepdim, lambda a, b: tm.le(a, b)))


@reg("amax")
def amax(x, dim=None, keepdim=False):
    return _maxval(x, tm.max_, dim, keepdim)


@reg("amin")
def amin(x, dim=None, keepdim=False):
    return _maxval(x, tm.min_, dim, keepdim)


@reg("argmax")
def argmax(x, dim=None, keepdim=False):
    if dim is None:
        x = x.flatten()
        return _best(x, 0, False, lambda a, b: tm.le(b, a))[1]
    return _best(x, dim, keepdim, lambda a, b: tm.le(b, a))[1]


@reg("argmin")
def argmin(x, dim=None, keepdim=False):
    if dim is None:
        x = x.flatten()
        return _best(x, 0, False, lambda a, b: tm.le(a, b))[1]
    return _best(x, dim, keepdim, lambda a, b: tm.le(a, b))[1]


def _sortperm(vals, descending):
    """case split over permutations by insertion"""
    order = [0]
    for i in _py_range(1, _py_len(vals)):
        j = _py_len(order)
        while j > 0:
            a, b = vals[order[j - 1]], vals[i]
            c = tm.le(b, a) if not descending else tm.le(a, b)
            # strict move: b before a
            c = tm.lt(b, a) if not descending else tm.lt(a, b)
            if decide(c):
                j -= 1
            else:
                break
        order.insert(j, i)
    return order


@reg("sort")
def sort(x, dim=-1, descending=False, stable=False):
    d = dim % x.ndim
    if ax_lanes(x.axes[d]):
        raise Unsupported("sort of a symbolic axis")
    mv = np.moveaxis(_vec(num, x.data), d, -1)
    v = np.empty(mv.shape, dtype=object)
    ix = np.empty(mv.shape, dtype=object)
    for k in np.ndindex(*mv.shape[:-1]):
        o = _sortperm(list(mv[k]), descending)
        for j, s in enumerate(o):
            v[k + (j,)] = mv[k][s]
            ix[k + (j,)] = const(s)
    return MinMax((SymTensor(np.moveaxis(v, -1, d), x.axes, x.dtype), SymTensor(np.moveaxis(ix, -1, d), x.axes, int64)))


@reg("argsort")
def argsort(x, dim=-1, descending=False, stable=False):
    return sort(x, dim, descending)[1]


@reg("topk")
def topk(x, k, dim=-1, largest=True, sorted=True):
    d = dim % x.ndim
    if isinstance(k, SymInt):
        k = _enumerate_int(k)
    if ax_lanes(x.axes[d]):
        return _lane_topk(x, k, d, largest, sorted)
    if k > ax_phys(x.axes[d]):
        raise RuntimeError("selected index k out of range")
    v, i = sort(x, dim, descending=largest)
    sl = [slice(None)] * x.ndim
    sl[d] = slice(0, k)
    return MinMax((v[tuple(sl)], i[tuple(sl)]))


def _enumerate_int(k, limit=8):
    """the concrete value of a small symbolic count: one path per value"""
    for c in _py_range(limit):
        if decide(tm.eq(k.t, const(c))):
            return c
    raise Unsupported("symbolic count")


def _lane_topk(x, k, d, largest, sorted):
    """the k best along an axis of symbolic size N (trusted contract of torch.topk): k different positions, each
    carrying the element at that position, and no other element is better than any of them"""
    if len(x.axes[d]) != 1:
        raise Unsupported("top k of a product axis")
    l = x.axes[d][0]
    if decide(tm.lt(l.size, const(k))):
        raise RuntimeError("selected index k out of range")
    p = cur()
    better = (lambda a, b: tm.le(b, a)) if largest else tm.le
    mv = np.moveaxis(_vec(num, x.data), d, -1)
    v = np.empty(mv.shape[:-1] + (k,), dtype=object)
    ix = np.empty(mv.shape[:-1] + (k,), dtype=object)
    pos = _bound_index(l)
    along = frozenset(a.name for j in _py_range(x.ndim) if j != d for a in ax_lanes(x.axes[j]))
    for q in np.ndindex(*mv.shape[:-1]):
        g = mv[q][0]
        V, I = [], []
        for j in _py_range(k):
            nv, ni = p.freshname("top"), p.freshname("topi")
            VAR_LANES[nv] = VAR_LANES[ni] = along
            V.append(tm.var(nv))
            I.append(tm.ivar(ni))
            p.assume(tm.le(ZERO, I[j]))
            p.assume(tm.lt(I[j], l.size))
            for m in _py_range(j):
                p.assume(tm.not_(tm.eq(I[j], I[m])))
            v[q + (j,)], ix[q + (j,)] = V[j], I[j]
        here = [tm.eq(i, pos) for i in I]
        p.oblige(tm.isdef(g), "ranked values are numbers")
        for j in _py_range(k):
            p.assume(tm.implies(here[j], tm.eq(V[j], g)))
            p.assume(tm.or_(*here, better(V[j], g)))
            if sorted and j:
                p.assume(better(V[j - 1], V[j]))
        p.assume(tm.or_(tm.lt(const(k), l.size), *here))
    axes = list(x.axes)
    axes[d] = (k,)
    mk = lambda a, dt: SymTensor(np.moveaxis(a, -1, d), axes, dt)
    return MinMax((mk(v, x.dtype), mk(ix, int64)))


@reg("gather")
def gather(x, dim, index):
    d = dim % x.ndim
    if ax_lanes(x.axes[d]) or ax_lanes(index.axes[d]):
        raise Unsupported("gather over a symbolic axis")
    # other axes: index extent must not exceed; require equal or broadcast physical
    for i in _py_range(x.ndim):
        if i != d and not _same_ax(x.axes[i], index.axes[i]):
            if ax_lanes(x.axes[i]) or ax_lanes(index.axes[i]) or ax_phys(index.axes[i]) > ax_phys(x.axes[i]):
                raise ShapeError("gather: size mismatch")
    out = np.empty(index.data.shape, dtype=object)
    n = x.data.shape[d]
    for k in np.ndindex(*index.data.shape):
        t = index.data[k]
        if t.op == "const":
            kk = list(k)
            v = _py_int(t.val)
            if not 0 <= v < n:
                raise IndexError("gather index out of bounds")
            kk[d] = v
            out[k] = x.data[tuple(kk)]
        else:
            acc = None
            for j in _py_range(n - 1, -1, -1):
                kk = list(k)
                kk[d] = j
                v = x.data[tuple(kk)]
                acc = v if acc is None else tm.ite(tm.eq(t, const(j)), v, acc)
            p = cur()
            if p is not None:
                p.oblige(tm.and_(tm.le(ZERO, t), tm.lt(t, const(n))), "gather index in bounds")
            out[k] = acc
    return SymTensor(out, index.axes, x.dtype)


def take_along_dim(x, index, dim):
    d = dim % x.ndim
    axes = list(x.axes)
    ia = broadcast_axes(x.axes[:d] + [(1,)] + x.axes[d + 1 :], index.axes[:d] + [(1,)] + index.axes[d + 1 :])
    xi = SymTensor(np.array(_expand(x, ia[:d] + [x.axes[d]] + ia[d + 1 :]), dtype=object), ia[:d] + [x.axes[d]] + ia[d + 1 :], x.dtype)
    ii = SymTensor(np.array(_expand(index, ia[:d] + [index.axes[d]] + ia[d + 1 :]), dtype=object), ia[:d] + [index.axes[d]] + ia[d + 1 :], index.dtype)
    return gather(xi, d, ii)


_FUNCS["take_along_dim"] = take_along_dim


@reg("scatter")
def scatter(x, dim, index, src, reduce=None):
    d = dim % x.ndim
    out = x.data.copy()
    S = src if isinstance(src, SymTensor) else None
    for k in np.ndindex(*index.data.shape):
        t = index.data[k]
        v = S.data[k] if S is not None else to_term(src)
        if t.op == "const":
            kk = list(k)
            kk[d] = _py_int(t.val)
            kk = tuple(kk)
            if reduce is None:
                out[kk] = v
            elif reduce == "add":
                out[kk] = tm.add(num(out[kk]), num(v))
            else:
                raise Unsupported("scatter reduce")
        else:
            n = x.data.shape[d]
            for j in _py_range(n):
                kk = list(k)
                kk[d] = j
                kk = tuple(kk)
                nv = v if reduce is None else tm.add(num(out[kk]), num(v))
                out[kk] = tm.ite(tm.eq(t, const(j)), nv, out[kk])
            p = cur()
            if p is not None:
                p.oblige(tm.and_(tm.le(ZERO, t), tm.lt(t, const(n))), "scatter index in bounds")
    return SymTensor(out, x.axes, x.dtype)


@reg("scatter_add")
def scatter_add(x, dim, index, src):
    return scatter(x, dim, index, src, "add")


@reg("index_select")
def index_select(x, dim, index):
    return x[(slice(None),) * (dim % x.ndim) + (index,)]


@reg("take")
def take(x, index):
    return x.flatten()[index]


@reg("masked_fill")
def masked_fill(x, m, v):
    return where(m, v if isinstance(v, SymTensor) else SymTensor.scalar(to_term(v), x.dtype, True), x)


@reg("masked_select")
def masked_select(x, m):
    return x[m]


@reg("flip")
def flip(x, *dims):
    if _py_len(dims) == 1 and isinstance(dims[0], (list, tuple)):
        dims = dims[0]
    ds = [d % x.ndim for d in dims]
    for d in ds:
        if ax_lanes(x.axes[d]):
            raise Unsupported("flip of a symbolic axis")
    return SymTensor(np.flip(x.data, ds).copy(), x.axes, x.dtype)


@reg("fliplr")
def fliplr(x):
    return flip(x, 1)


@reg("roll")
def roll(x, shifts, dims=None):
    return SymTensor(np.roll(x.data, shifts, dims), x.axes, x.dtype)


@reg("tile")
def tile(x, *a):
    return x.repeat(*a)


@reg("tril")
def tril(x, diagonal=0):
    n, m = x.shape[-2:]
    mask = np.tril(np.ones((n, m)), diagonal)
    d = x.data.copy()
    for i in _py_range(n):
        for j in _py_range(m):
            if not mask[i, j]:
                d[..., i, j] = ZERO
    return SymTensor(d, x.axes, x.dtype)


@reg("triu")
def triu(x, diagonal=0):
    n, m = x.shape[-2:]
    mask = np.triu(np.ones((n, m)), diagonal)
    d = x.data.copy()
    for i in _py_range(n):
        for j in _py_range(m):
            if not mask[i, j]:
                d[..., i, j] = ZERO
    return SymTensor(d, x.axes, x.dtype)


@reg("var")
def var_(x, dim=None, unbiased=True, keepdim=False, correction=None):
    c = 1 if unbiased else 0
    if correction is not None:
        c = correction
    m = mean(x, dim, True)
    n = 1
    for d in _dims(x, dim):
        n = n * x.shape[d]
    return sum_((x - m) ** 2, dim, keepdim) / (n - c)


@reg("std")
def std(x, dim=None, unbiased=True, keepdim=False, correction=None):
    return var_(x, dim, unbiased, keepdim, correction)._un(tm.sqrt)


@reg("softmax")
def softmax(x, dim=-1, dtype=None):
    e = x._un(exp_of)
    return e / sum_(e, dim, True)


@reg("allclose")
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(all_((a - b).abs() <= atol + rtol * b.abs()))


@reg("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return (a - b).abs() <= atol + rtol * SymTensor.of(b).abs()


@reg("equal")
def equal(a, b):
    return bool(all_(a == b))


class finfo:
    def __init__(self, dt=None):
        f = np.finfo({"float64": np.float64, "float32": np.float32, "float16": np.float16}[(dt or DEFAULT_F).name])
        self.eps, self.max, self.min, self.tiny = _py_float(f.eps), _py_float(f.max), _py_float(f.min), _py_float(f.tiny)
        self.smallest_normal = self.tiny


class iinfo:
    def __init__(self, dt):
        f = np.iinfo(dt.name)
        self.max, self.min = _py_int(f.max), _py_int(f.min)


class NoGrad:
    def __call__(self, f=None):
        return f if f is not None else self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Module:
    def __init__(self, *a, **k):
        object.__setattr__(self, "training", False)

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def register_buffer(self, name, t, persistent=True):
        object.__setattr__(self, name, t)

    def register_parameter(self, name, t):
        object.__setattr__(self, name, t)

    def to(self, *a, **k):
        return self

    def eval(self):
        return self

    def train(self, *a):
        return self

    def parameters(self):
        return []


def _unsup(name):
    def f(*a, **k):
        raise Unsupported(f"torch.{name}")

    f.__name__ = name
    return f


class NS:
    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__dict__["__name__"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _unsup(self.__dict__["__name__"] + "." + k)


class JitNS:
    def script(self, f=None, *a, **k):
        return f if f is not None else (lambda g: g)

    def ignore(self, f=None, **k):
        return f if f is not None else (lambda g: g)

    def export(self, f):
        return f

    def unused(self, f):
        return f

    def is_scripting(self):
        return False

    def annotate(self, t, v):
        return v

    def trace(self, f, *a, **k):
        return f


def pad(x, p, mode="constant", value=0.0):
    if mode != "constant":
        npm = {"reflect": "reflect", "replicate": "edge"}.get(mode)
        if npm is None:
            raise Unsupported("pad mode " + mode)
    w = [(0, 0)] * x.ndim
    for i in _py_range(_py_len(p) // 2):
        w[x.ndim - 1 - i] = (p[2 * i], p[2 * i + 1])
    for i, (a, b) in enumerate(w):
        if (a or b) and ax_lanes(x.axes[i]):
            raise Unsupported("padding a symbolic axis")
    if any(a < 0 or b < 0 for a, b in w):
        raise Unsupported("negative padding")
    if mode == "constant":
        d = np.pad(x.data, w, constant_values=to_term(value))
    else:
        idx = [np.pad(np.arange(x.data.shape[i]), w[i], mode=npm) for i in _py_range(x.ndim)]
        d = x.data[np.ix_(*idx)]
    axes = [(x.data.shape[i] + w[i][0] + w[i][1],) if (w[i][0] or w[i][1]) else x.axes[i] for i in _py_range(x.ndim)]
    return SymTensor(d, axes, x.dtype)


def make_torch():
    d = dict(_FUNCS)
    g = globals()
    for n in (
        "zeros ones empty full tensor as_tensor from_numpy eye arange rand linspace meshgrid cartesian_prod stack cat concat "
        "concatenate hstack vstack where matmul outer einsum finfo iinfo norm"
    ).split():
        d[n] = g[n]
    d.update(
        Tensor=SymTensor,
        float=float32,
        float32=float32,
        float64=float64,
        double=float64,
        half=float16,
        float16=float16,
        bfloat16=bfloat16,
        int=int32,
        int32=int32,
        int64=int64,
        long=int64,
        int16=int16,
        short=int16,
        int8=int8,
        uint8=uint8,
        bool=bool_,
        complex64=complex64,
        complex128=complex128,
        cfloat=complex64,
        cdouble=complex128,
        dtype=DT,
        device=Device,
        Size=Size,
        pi=SymTensor.scalar(tm.PI, float64, pynum=True),
        inf=_py_float("inf"),
        nan=_py_float("nan"),
        jit=JitNS(),
        no_grad=NoGrad(),
        inference_mode=NoGrad(),
        is_tensor=lambda x: isinstance(x, SymTensor),
        is_floating_point=lambda x: x.dtype.kind == "f",
        get_default_dtype=lambda: DEFAULT_F,
        unsqueeze=lambda x, d: x.unsqueeze(d),
        squeeze=lambda x, *a, **k: x.squeeze(*a, **k),
        reshape=lambda x, s: x.reshape(*s),
        flatten=lambda x, *a, **k: x.flatten(*a, **k),
        transpose=lambda x, a, b: x.transpose(a, b),
        swapaxes=lambda x, a, b: x.transpose(a, b),
        permute=lambda x, d: x.permute(*d),
        movedim=lambda x, a, b: x.movedim(a, b),
        clone=lambda x: x.clone(),
        t=lambda x: x.t(),
        numel=lambda x: x.numel(),
        broadcast_tensors=lambda *ts: tuple(
            SymTensor(_expand(t, broadcast_axes(*[z.axes for z in ts])), broadcast_axes(*[z.axes for z in ts]), t.dtype) for t in ts
        ),
        broadcast_shapes=_unsup("broadcast_shapes"),
        repeat_interleave=lambda x, *a, **k: x.repeat_interleave(*a, **k),
    )
    lin = NS("linalg", dict(norm=linalg_norm, vector_norm=linalg_norm, inv=inv, det=det, cross=cross, matmul=matmul))
    def avg_pool2d(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
        k = kernel_size if isinstance(kernel_size, (tuple, list)) else (kernel_size, kernel_size)
        if _py_len(k) == 1:
            k = (k[0], k[0])
        if stride not in (None, kernel_size) or padding or ceil_mode or divisor_override or ax_lanes(x.axes[-1]) or ax_lanes(x.axes[-2]):
            raise Unsupported("avg_pool2d")
        if x.ndim not in (3, 4):
            raise RuntimeError("avg_pool2d: expected a 3D or 4D input")
        h, w = ax_phys(x.axes[-2]) // k[0], ax_phys(x.axes[-1]) // k[1]
        if not h or not w:
            raise RuntimeError("avg_pool2d: output size is too small")
        x = x[..., : h * k[0], : w * k[1]]
        r = None
        for i in _py_range(k[0]):
            for j in _py_range(k[1]):
                t = x[..., i :: k[0], j :: k[1]]
                r = t if r is None else r + t
        return r / (k[0] * k[1])

    def conv2d(x, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
        if stride not in (1, (1, 1)) or dilation not in (1, (1, 1)) or padding not in (0, (0, 0)) or x.ndim != 4:
            raise Unsupported("conv2d")
        if any(ax_lanes(a) for a in list(x.axes[1:]) + list(weight.axes)):
            raise Unsupported("conv2d over a symbolic axis")
        O, I, kh, kw = [ax_phys(a) for a in weight.axes]
        C, H, W = [ax_phys(a) for a in x.axes[1:]]
        if C != I * groups or O % groups:
            raise RuntimeError("conv2d: channel mismatch")
        if H < kh or W < kw:
            raise RuntimeError("conv2d: kernel larger than the input")
        out = []
        for o in _py_range(O):
            g = o // (O // groups)
            r = None
            for c in _py_range(I):
                for i in _py_range(kh):
                    for j in _py_range(kw):
                        t = x[:, g * I + c, i : i + H - kh + 1, j : j + W - kw + 1] * weight[o, c, i, j]
                        r = t if r is None else r + t
            out.append(r if bias is None else r + bias[o])
        return stack(out, 1)

    def adaptive_avg_pool2d(x, output_size):
        if ax_lanes(x.axes[-1]) or ax_lanes(x.axes[-2]):
            raise Unsupported("adaptive_avg_pool2d")
        h, w = (_py_int(o) if not isinstance(o, SymTensor) else o.__index__() for o in output_size)
        H, W = ax_phys(x.axes[-2]), ax_phys(x.axes[-1])
        if not h or not w:
            raise RuntimeError("adaptive_avg_pool2d: output size is too small")
        rng = lambda i, n, N: (i * N // n, -(-(i + 1) * N // n))
        rows = []
        for i in _py_range(h):
            a, b = rng(i, h, H)
            rows.append(stack([x[..., a:b, rng(j, w, W)[0] : rng(j, w, W)[1]].mean((-1, -2)) for j in _py_range(w)], -1))
        return stack(rows, -2)

    def grid_sample(x, grid, mode="bilinear", padding_mode="zeros", align_corners=None):
        """trusted contract: the hat-function form of bilinear interpolation, each grid point on its own"""
        if mode not in ("bilinear", "nearest", "bicubic") or padding_mode not in ("zeros", "border", "reflection"):
            raise ValueError("grid_sample")
        if x.ndim != 4 or grid.ndim != 4 or mode != "bilinear" or padding_mode == "reflection":
            raise Unsupported("grid_sample")
        if any(ax_lanes(a) for a in x.axes[2:]) or ax_phys(grid.axes[3]) != 2 or not _same_ax(x.axes[0], grid.axes[0]):
            raise Unsupported("grid_sample")
        H, W = ax_phys(x.axes[2]), ax_phys(x.axes[3])
        pos = []
        for k, n in ((0, W), (1, H)):
            g = grid[..., k]
            t = (g + 1) * (n - 1) / 2 if align_corners else ((g + 1) * n - 1) / 2
            pos.append(t.clamp(0, n - 1) if padding_mode == "border" else t)
        r = None
        zero = pos[0] * 0
        for i in _py_range(H):
            wy = (1 - abs(pos[1] - i)).clamp(min=0)
            row = None
            for j in _py_range(W):
                t = (1 - abs(pos[0] - j)).clamp(min=0).unsqueeze(1) * x[:, :, i, j].unsqueeze(-1).unsqueeze(-1)
                row = t if row is None else row + t
            t = wy.unsqueeze(1) * row
            r = t if r is None else r + t
        return r

    fnn = NS("nn.functional", dict(pad=pad, avg_pool2d=avg_pool2d, adaptive_avg_pool2d=adaptive_avg_pool2d, conv2d=conv2d, grid_sample=grid_sample, softmax=softmax, normalize=normalize))
    nn = NS("nn", dict(Module=Module, functional=fnn, Parameter=lambda t, **k: t, Linear=Module))
    d["linalg"] = lin
    d["nn"] = nn
    d["fft"] = NS("fft", {})
    d["cuda"] = NS("cuda", dict(is_available=lambda: False, synchronize=lambda: None))
    d["utils"] = NS("utils", {})
    d["ao"] = NS("ao", dict(quantization=NS("ao.quantization", {})))
    d["random"] = NS("random", {})
    d["special"] = NS("special", {})
    d["autograd"] = NS("autograd", {})
    d["optim"] = NS("optim", {})
    d["backends"] = NS("backends", {})
    t = NS("torch", d)
    return t


torch = make_torch()


# ---------------------------------------------------------------- builtins / math for loaded modules
def b_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymTensor):
        t = x.data.reshape(-1)[0]
        if x.data.size != 1 or x.lanes():
            raise Unsupported("int of a batched tensor")
        if x.dtype.kind == "f":
            t = v_cast_int(t)
        v = tm.numconst(t) if t.op != "const" else t.val
        if v is not None:
            return _py_int(v)
        return symint_of(t)
    return _py_int(x, *a)


def b_float(x=0.0):
    if isinstance(x, SymInt):
        return SymTensor.scalar(x.t, float64, pynum=True)
    if isinstance(x, SymTensor):
        return SymTensor.scalar(to_term(x), float64, pynum=True)
    return _py_float(x)


def b_bool(x=False):
    if isinstance(x, (SymInt, SymTensor, SymBool)):
        return x.__bool__()
    return bool(x)


def b_len(x):
    if isinstance(x, SymTensor):
        return x.shape[0]
    return _py_len(x)


def b_range(*a):
    a = [z.item() if isinstance(z, SymTensor) else z for z in a]
    if any(isinstance(z, (SymInt, SymTensor)) for z in a):
        raise Unsupported("loop with a symbolic bound (no invariant given)")
    return _py_range(*a)


def b_abs(x):
    if isinstance(x, SymInt):
        return SymInt(tm.abs_(x.t))
    return _py_abs(x)


def _fold(args, f, py):
    if _py_len(args) == 1:
        args = list(args[0])
    if any(isinstance(a, (SymInt, SymTensor)) for a in args):
        r = args[0]
        for b in args[1:]:
            ints = all(isinstance(z, (int, SymInt)) for z in (r, b))
            t = f(to_term(r), to_term(b))
            r = SymInt(t) if ints else SymTensor.scalar(t, float64, pynum=True)
        return r
    return py(args)


def b_max(*args, **k):
    if k:
        return _py_max(*args, **k)
    return _fold(args, tm.max_, _py_max)


def b_min(*args, **k):
    if k:
        return _py_min(*args, **k)
    return _fold(args, tm.min_, _py_min)


def b_round(x, *a):
    if isinstance(x, (SymInt,)):
        return x
    if isinstance(x, SymTensor):
        raise Unsupported("round of a symbolic number")
    return round(x, *a)


def b_sum(it, start=0):
    r = start
    for z in it:
        r = r + z
    return r


def b_isinstance(x, c):
    if isinstance(x, SymInt):
        cs = c if isinstance(c, tuple) else (c,)
        return any(z in (b_int, _py_int, SymInt) for z in cs)
    if isinstance(x, SymTensor) and x.pynum:
        cs = c if isinstance(c, tuple) else (c,)
        return any(z in (b_float, _py_float) for z in cs)
    cs = c if isinstance(c, tuple) else (c,)
    m = {b_int: _py_int, b_float: _py_float, b_bool: bool, b_range: _py_range}
    cs = tuple(m.get(z, z) for z in cs)
    if bool in cs and isinstance(x, SymBool):
        return True
    return isinstance(x, cs)


def vc_pow(a, b):
    if isinstance(a, (int, float)) and not isinstance(a, bool) and isinstance(b, (int, float)) and not isinstance(b, bool):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a**b
        ta, e = const(a), const(b)
        if e.op == "const" and not (ta.op == "const" and ta.val <= 0):
            try:
                t = tm.powr(ta, e.val)
                return SymTensor.scalar(t, float64, pynum=True)
            except Exception:
                pass
        return a**b
    return a**b


def vc_div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        if b == 0:
            return a / b
        t = tm.div(const(a), const(b))
        if t.op == "const" and t.val.denominator in (1, 2, 4, 8):
            return a / b
        return SymTensor.scalar(t, float64, pynum=True)
    return a / b


class MathNS:
    pi = torch.pi
    inf = _py_float("inf")
    nan = _py_float("nan")
    e = _math.e

    def _f(self, name, x):
        if isinstance(x, (SymTensor, SymInt)):
            r = _FUNCS[name](SymTensor.of(x))
            return SymTensor.scalar(r.data[()], float64, pynum=True)
        if name == "sqrt":
            return SymTensor.scalar(tm.sqrt(const(x)), float64, pynum=True)
        t = tm.fn(name, const(x))
        return SymTensor.scalar(t, float64, pynum=True)

    def sqrt(self, x):
        return self._f("sqrt", x)

    def sin(self, x):
        return self._f("sin", x)

    def cos(self, x):
        return self._f("cos", x)

    def tan(self, x):
        return self._f("tan", x)

    def acos(self, x):
        return self._f("acos", x)

    def asin(self, x):
        return self._f("asin", x)

    def atan(self, x):
        return self._f("atan", x)

    def exp(self, x):
        return self._f("exp", x)

    def log(self, x, *a):
        return self._f("log", x)

    def radians(self, x):
        return self._f("deg2rad", SymTensor.of(x))

    def degrees(self, x):
        return self._f("rad2deg", SymTensor.of(x))

    def floor(self, x):
        if isinstance(x, (SymTensor, SymInt)):
            return b_int(_FUNCS["floor"](SymTensor.of(x)))
        return _math.floor(x)

    def ceil(self, x):
        if isinstance(x, (SymTensor, SymInt)):
            return b_int(_FUNCS["ceil"](SymTensor.of(x)))
        return _math.ceil(x)

    def isqrt(self, n):
        if isinstance(n, SymInt):
            p = cur()
            r = tm.ivar(p.freshname("isqrt"))
            p.oblige(tm.le(ZERO, n.t), "isqrt argument nonnegative")
            p.assume(tm.le(ZERO, r))
            p.assume(tm.le(tm.ipow(r, 2), n.t))
            p.assume(tm.lt(n.t, tm.ipow(tm.add(r, ONE), 2)))
            return SymInt(r)
        return _math.isqrt(n)

    def __getattr__(self, k):
        f = getattr(_math, k)

        def g(*a, **kw):
            if any(isinstance(z, (SymTensor, SymInt)) for z in a):
                raise Unsupported("math." + k)
            return f(*a, **kw)

        return g if callable(f) else f


mathns = MathNS()


class NumpyNS:
    pi = torch.pi
    ndarray = np.ndarray

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in ("sqrt", "sin", "cos", "tan"):
            return getattr(mathns, k)
        return _unsup("numpy." + k)


numpyns = NumpyNS()
