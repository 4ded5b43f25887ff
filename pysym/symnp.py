"""A stand-in for numpy whose array elements are symbolic, and the path explorer behind it.

Only layout (shape, strides, contiguity, views against copies, element types) is concrete;
element values are z3 terms.  A float is a real number plus a "not a number" flag.
"""
import operator
import time
import types
import numpy as real
import z3

F4, F8 = real.dtype(real.float32), real.dtype(real.float64)
RND32 = z3.Function("round_to_f32", z3.RealSort(), z3.RealSort())


def lossy(name, r):
    """a rounding whose result is not modelled (arbitrary, but the same for the same operand)"""
    return z3.Function(name, z3.RealSort(), z3.RealSort())(r)


class Unsupported(BaseException):
    """Something this stand-in does not model; the path is given up, never judged."""


class Cut(BaseException):
    """The path is infeasible."""


class Engine:
    """One execution path; decisions beyond the prefix are recorded for later exploration."""

    def __init__(self, prefix, stats):
        self.s = z3.Solver()
        self.s.set("timeout", 20000)
        self.prefix, self.pos, self.trace, self.todo = prefix, 0, [], []
        self.stats = stats

    def sat(self, *extra):
        t = time.time()
        r = self.s.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            raise Unsupported("the solver gave up")
        return r == z3.sat

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            yes, no = self.sat(c), self.sat(z3.Not(c))
            if not yes and not no:
                raise Cut
            v = yes
            if yes and no:
                self.todo.append(self.trace + [False])
            self.stats["forks"] += yes and no
        self.pos += 1
        self.trace.append(v)
        self.s.add(c if v else z3.Not(c))
        return v


CUR = None  # the engine of the path being executed


def explore(fn, stats, limit=20000, deadline=None):
    """fn(engine) on every feasible path"""
    global CUR
    work = [[]]
    while work:
        if stats["paths"] >= limit or (deadline and time.time() > deadline):
            stats["cut"] += len(work)
            return
        e = Engine(work.pop(), stats)
        CUR = e
        stats["paths"] += 1
        try:
            fn(e)
        except Cut:
            pass
        work += e.todo


def B(x):
    return x.c if isinstance(x, SB) else z3.BoolVal(bool(x))


class SB:
    """symbolic bool"""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CUR.decide(self.c)

    def __and__(self, o):
        return SB(z3.And(self.c, B(o)))

    def __or__(self, o):
        return SB(z3.Or(self.c, B(o)))

    def __invert__(self):
        return SB(z3.Not(self.c))

    def __xor__(self, o):
        return SB(z3.Xor(self.c, B(o)))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __eq__(self, o):
        return SB(self.c == B(o)) if isinstance(o, (SB, bool, real.bool_)) else NotImplemented

    def __ne__(self, o):
        return SB(self.c != B(o)) if isinstance(o, (SB, bool, real.bool_)) else NotImplemented

    def __hash__(self):
        raise Unsupported("hash of a symbolic flag")

    def __add__(self, o):
        raise Unsupported("arithmetic on a symbolic flag")

    __radd__ = __mul__ = __rmul__ = __index__ = __int__ = __float__ = __add__

    def any(self):
        return self

    all = item = any


def mk(c):
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else SB(c)


class SF:
    """symbolic float: value r, not-a-number flag n, element type (None: a Python float)"""

    __slots__ = ("r", "n", "dt", "e")

    def __init__(self, r, n=None, dt=None, e=False):
        self.r, self.n, self.dt = r, z3.BoolVal(False) if n is None else n, dt
        self.e = e or dt == F4  # an f32 value, whatever the type now

    @property
    def dtype(self):
        return self.dt or F8

    size, ndim, shape = 1, 0, ()

    def cast(self, dt):
        if dt.kind != "f":
            raise Unsupported("conversion of a symbolic float to " + str(dt))
        if dt == F4 and self.dt != F4:
            return SF(self.r if self.e or exact32(self.r) else RND32(self.r), self.n, F4)
        if dt.itemsize < 4:
            return SF(lossy("round_to_" + dt.name, self.r), self.n, dt)
        return SF(self.r, self.n, dt, self.e)

    def astype(self, dt):
        return self.cast(real.dtype(dt))

    def item(self):
        return SF(self.r, self.n, None, self.e)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    __int__ = __index__ = __trunc__ = __float__

    def __round__(self, nd=0):
        return SF(lossy(f"round_{nd}", self.r), self.n, self.dt)

    # text of a symbolic value: a literal that stands for it (printing and parsing of doubles by CPython is trusted)
    def __repr__(self):
        return literal(SF(self.r, self.n, None, self.e))

    __str__ = __repr__

    def __format__(self, spec):
        if spec in ("", "r", ".17g", ".17e", ".16e", ".18g", ".20g") or (self.dt == F4 and spec in (".9g", ".8e", ".10g", ".12g", ".15g", ".16g")):
            return repr(self)
        return literal(SF(lossy("format" + spec, self.r), self.n, None))

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __bool__(self):
        return CUR.decide(z3.Or(self.n, self.r != 0))

    def _bin(self, o, f, swap=False):
        if isinstance(o, SymArray):
            return NotImplemented
        o = sf(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return SF(f(a.r, b.r), z3.Or(a.n, b.n), F8 if F8 in (a.dt, b.dt) else F4 if F4 in (a.dt, b.dt) else None)

    def _cmp(self, o, f, nan=False):
        if isinstance(o, SymArray):
            return NotImplemented
        o = sf(o)
        if o is None:
            return NotImplemented
        bad = z3.Or(self.n, o.n)
        return mk(z3.Or(bad, f(self.r, o.r)) if nan else z3.And(z3.Not(bad), f(self.r, o.r)))

    def __add__(self, o):
        return self._bin(o, operator.add)

    def __radd__(self, o):
        return self._bin(o, operator.add, True)

    def __sub__(self, o):
        return self._bin(o, operator.sub)

    def __rsub__(self, o):
        return self._bin(o, operator.sub, True)

    def __mul__(self, o):
        return self._bin(o, operator.mul)

    def __rmul__(self, o):
        return self._bin(o, operator.mul, True)

    def __truediv__(self, o):
        d = sf(o)
        if d is None or not z3.is_rational_value(z3.simplify(d.r)) or z3.is_true(z3.simplify(d.r == 0)):
            raise Unsupported("division by a symbolic value")
        return self._bin(o, operator.truediv)

    def __rtruediv__(self, o):
        raise Unsupported("division by a symbolic value")

    def __neg__(self):
        return SF(-self.r, self.n, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return SF(z3.If(self.r >= 0, self.r, -self.r), self.n, self.dt)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne, True)


LITERALS = {}


def literal(x):
    t = f"7.{len(LITERALS):06d}1e155"
    LITERALS[t] = x
    return t


def unliteral(t):
    """the value a piece of text stands for, or None"""
    return LITERALS.get(t.strip())


def exact32(r):
    r = z3.simplify(r)
    if not z3.is_rational_value(r):
        return False
    q = float(r.numerator_as_long()) / float(r.denominator_as_long())
    return float(real.float32(q)) == q


def sf(x):
    if isinstance(x, SF):
        return x
    if isinstance(x, (bool, int, real.integer, real.bool_)):
        return SF(z3.RealVal(int(x)))
    if isinstance(x, (float, real.floating)):
        f = float(x)
        dt = real.dtype(type(x)) if isinstance(x, (real.float32, real.float64)) and type(x) is not float else None
        if f != f:
            return SF(z3.RealVal(0), z3.BoolVal(True), dt)
        if f in (float("inf"), float("-inf")):
            raise Unsupported("infinity")
        n, d = f.as_integer_ratio()
        return SF(z3.Q(n, d), None, dt)
    return None


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def cstrides(shape):
    st, acc = [], 1
    for d in reversed(shape):
        st.append(acc)
        acc *= max(d, 1)
    return tuple(reversed(st))


class Flags:
    def __init__(self, a):
        self.c_contiguous = self.C_CONTIGUOUS = a.is_c()
        self.f_contiguous = self.F_CONTIGUOUS = a.T.is_c()
        self.contiguous = self.c_contiguous
        self.writeable = True
        self.owndata = a.base is None

    def __getitem__(self, k):
        return getattr(self, {"C": "c_contiguous", "F": "f_contiguous"}.get(k, k.lower()))


class SymArray:
    __array_priority__ = 1000

    def __init__(self, buf, dtype, shape, strides=None, off=0, base=None):
        self.buf, self.dtype, self._shape = buf, real.dtype(dtype), tuple(shape)
        self.st = cstrides(self._shape) if strides is None else tuple(strides)
        self.off, self.base = off, base

    # ---- layout
    shape = property(lambda s: s._shape)
    ndim = property(lambda s: len(s._shape))
    size = property(lambda s: prod(s._shape))
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.size * s.dtype.itemsize)
    strides = property(lambda s: tuple(x * s.dtype.itemsize for x in s.st))
    flags = property(lambda s: Flags(s))
    T = property(lambda s: SymArray(s.buf, s.dtype, s._shape[::-1], s.st[::-1], s.off, s))
    flat = property(lambda s: iter(s.elems()))

    @property
    def data(self):
        return types.SimpleNamespace(contiguous=self.is_c() or self.T.is_c(), c_contiguous=self.is_c(), f_contiguous=self.T.is_c(), shape=self.shape, nbytes=self.nbytes, ndim=self.ndim)

    def is_c(self):
        if self.size == 0:
            return True
        acc = 1
        for d, s in zip(reversed(self._shape), reversed(self.st)):
            if d != 1:
                if s != acc:
                    return False
                acc *= d
        return True

    def index(self):
        """buffer positions in C order"""
        out = [self.off]
        for d, s in zip(self._shape, self.st):
            out = [o + i * s for o in out for i in range(d)]
        return out

    def elems(self):
        return [self.buf[i] for i in self.index()]

    def fill_c(self, vals):
        for i, v in zip(self.index(), vals):
            self.buf[i] = conv(v, self.dtype)

    # ---- copies and views
    def copy(self, order="C"):
        return SymArray(self.elems(), self.dtype, self._shape)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("ndarray." + k)

    def memory_order(self):
        """the axes permuted so that C order is the order in memory"""
        ks = sorted(range(self.ndim), key=lambda i: (-abs(self.st[i]), i))
        return SymArray(self.buf, self.dtype, [self._shape[i] for i in ks], [self.st[i] for i in ks], self.off, self)

    def flatten(self, order="C"):
        if order == "F" or (order == "A" and self.T.is_c()):
            return self.T.flatten()
        if order == "K":
            return self.memory_order().flatten()
        return SymArray(self.elems(), self.dtype, (self.size,))

    def ravel(self, order="C"):
        if order == "F" or (order == "A" and self.T.is_c()):
            return self.T.ravel()
        if order == "K":
            return self.memory_order().ravel()
        return SymArray(self.buf, self.dtype, (self.size,), None, self.off, self) if self.is_c() else self.flatten()

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order == "F":
            return self.T.reshape(*tuple(shape)[::-1]).T
        if order != "C":
            raise Unsupported("reshape order")
        shape = [int(x) for x in shape]
        if -1 in shape:
            k = shape.index(-1)
            shape[k] = self.size // max(1, prod(x for x in shape if x != -1))
        if prod(shape) != self.size:
            raise ValueError("cannot reshape")
        src = self if self.is_c() else self.copy()
        return SymArray(src.buf, self.dtype, shape, None, src.off, self if src is self else None)

    def squeeze(self):
        ks = [i for i, d in enumerate(self._shape) if d != 1]
        return SymArray(self.buf, self.dtype, [self._shape[i] for i in ks], [self.st[i] for i in ks], self.off, self)

    def transpose(self, *ax):
        if len(ax) == 1 and (ax[0] is None or isinstance(ax[0], (tuple, list))):
            ax = ax[0] or ()
        if not ax:
            return self.T
        return SymArray(self.buf, self.dtype, [self._shape[i] for i in ax], [self.st[i] for i in ax], self.off, self)

    def swapaxes(self, i, j):
        ks = list(range(self.ndim))
        ks[i], ks[j] = ks[j], ks[i]
        return self.transpose(*ks)

    def repeat(self, n, axis=None):
        if not isinstance(n, (int, real.integer)) or axis not in (None, 0) or (axis == 0 and self.ndim != 1):
            raise Unsupported("repeat")
        xs = [x for x in self.elems() for _ in range(int(n))]
        return SymArray(xs, self.dtype, (len(xs),))

    def tobytes(self, order="C"):
        raise Unsupported("tobytes")

    def view(self, *a):
        if a:
            raise Unsupported("view")
        return SymArray(self.buf, self.dtype, self._shape, self.st, self.off, self)

    def round(self, decimals=0):
        return np_round(self, decimals)

    def astype(self, dtype, order="K", copy=True, casting="unsafe", subok=True):
        dtype = real.dtype(dtype)
        if not copy and dtype == self.dtype:
            return self
        a = like(self, dtype)
        a.fill_c(self.elems())
        return a

    def tolist(self):
        if self.ndim == 0:
            return self.elems()[0]
        return [x.tolist() if isinstance(x, SymArray) else unbox(x) for x in self]

    def item(self, *a):
        if a:
            return unbox(self.elems()[a[0]])
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return unbox(self.elems()[0])

    def fill(self, v):
        self.fill_c([v] * self.size)

    # ---- element access
    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return self._shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _sub(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (self.ndim - len(key) + 1) + key[i + 1 :]
        if len(key) > self.ndim:
            raise IndexError("too many indices for array")
        off, shape, st = self.off, [], []
        for k, d, s in zip(key, self._shape, self.st):
            if isinstance(k, slice):
                a, b, c = k.indices(d)
                off += a * s if len(range(a, b, c)) else 0
                shape.append(len(range(a, b, c)))
                st.append(s * c)
            elif isinstance(k, (int, real.integer)) and not isinstance(k, bool):
                k = int(k)
                if k < -d or k >= d:
                    raise IndexError(f"index {k} is out of bounds for axis with size {d}")
                off += (k + d if k < 0 else k) * s
            else:
                raise Unsupported(f"index {type(k).__name__}")
        shape += self._shape[len(key) :]
        st += self.st[len(key) :]
        return off, shape, st

    def __getitem__(self, key):
        if isinstance(key, list):
            if self.ndim != 1:
                raise Unsupported("fancy index")
            return SymArray([self[k] for k in key], self.dtype, (len(key),))
        off, shape, st = self._sub(key)
        if not shape and not (isinstance(key, tuple) and Ellipsis in [k for k in key if k is Ellipsis]) and key is not Ellipsis:
            return self.buf[off]
        return SymArray(self.buf, self.dtype, shape, st, off, self)

    def __setitem__(self, key, v):
        off, shape, st = self._sub(key)
        t = SymArray(self.buf, self.dtype, shape, st, off)
        if isinstance(v, (list, tuple)):
            v = np_array(v)
        if isinstance(v, SymArray):
            v = bcast(v, t._shape)
            t.fill_c(v)
        else:
            t.fill_c([v] * t.size)

    def __contains__(self, v):
        return bool(np_any(self == v))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self.elems()[0])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return f"SymArray{self._shape}"

    # ---- elementwise
    def _bin(self, o, f, dt=None):
        if isinstance(o, (list, tuple)):
            o = np_array(o)
        if isinstance(o, SymArray):
            shape = bshape(self._shape, o._shape)
            a, b = bcast(self, shape), bcast(o, shape)
        elif isinstance(o, (SF, SB, int, float, bool, real.generic)):
            shape, a, b = self._shape, self.elems(), [o] * self.size
        else:
            return NotImplemented
        vals = [f(x, y) for x, y in zip(a, b)]
        if dt is None:
            dt = result_dtype(self, o)
        return SymArray([conv(v, real.dtype(dt)) for v in vals], dt, shape) if shape else vals[0]

    def __add__(self, o):
        return self._bin(o, operator.add)

    def __radd__(self, o):
        return self._bin(o, lambda x, y: y + x)

    def __sub__(self, o):
        return self._bin(o, operator.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: y - x)

    def __mul__(self, o):
        return self._bin(o, operator.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, operator.truediv)

    def __neg__(self):
        return SymArray([-x for x in self.elems()], self.dtype, self._shape)

    def __abs__(self):
        return SymArray([abs(x) for x in self.elems()], self.dtype, self._shape)

    def __invert__(self):
        return SymArray([sb_not(x) for x in self.elems()], self.dtype, self._shape)

    def __and__(self, o):
        return self._bin(o, lambda x, y: mk(z3.And(B(x), B(y))), bool)

    def __or__(self, o):
        return self._bin(o, lambda x, y: mk(z3.Or(B(x), B(y))), bool)

    def __lt__(self, o):
        return self._bin(o, operator.lt, bool)

    def __le__(self, o):
        return self._bin(o, operator.le, bool)

    def __gt__(self, o):
        return self._bin(o, operator.gt, bool)

    def __ge__(self, o):
        return self._bin(o, operator.ge, bool)

    def __eq__(self, o):
        return self._bin(o, operator.eq, bool)

    def __ne__(self, o):
        return self._bin(o, operator.ne, bool)

    # ---- reductions
    def all(self, axis=None):
        return np_all(self, axis)

    def any(self, axis=None):
        return np_any(self, axis)

    def prod(self, axis=None):
        return np_prod(self)

    def sum(self, axis=None):
        return np_sum(self)

    def min(self):
        return np_min(self)

    def max(self):
        return np_max(self)


def unsupported(x):
    raise Unsupported(x)


def unbox(x):
    return SF(x.r, x.n, None, x.e) if isinstance(x, SF) else x


def sb_not(x):
    return mk(z3.Not(B(x)))


def conv(v, dt):
    """store v in an array of type dt"""
    if isinstance(v, SymArray):
        if v.size != 1:
            raise ValueError("setting an array element with a sequence")
        v = v.elems()[0]
    if dt.kind == "f":
        if isinstance(v, SB):
            raise Unsupported("flag stored as a float")
        s = sf(v)
        if s is None:
            raise TypeError("float() argument")
        return s.cast(dt)
    if dt.kind == "b":
        if isinstance(v, SF):
            return mk(z3.Or(v.n, v.r != 0))
        return v if isinstance(v, SB) else bool(v)
    if dt.kind in "iu":
        if isinstance(v, (SF, SB)):
            raise Unsupported("symbolic value stored as an integer")
        return int(v)
    raise Unsupported("element type " + str(dt))


def like(a, dtype=None):
    """uninitialised array of the same shape and memory order ("K")"""
    dtype = a.dtype if dtype is None else real.dtype(dtype)
    order = sorted(range(a.ndim), key=lambda i: (-abs(a.st[i]), i))
    st = [0] * a.ndim
    acc = 1
    for i in reversed(order):
        st[i] = acc
        acc *= max(1, a._shape[i])
    return SymArray([conv(0, dtype)] * a.size, dtype, a._shape, None if a.is_c() else st)


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            raise ValueError("operands could not be broadcast together")
    return tuple(max(x, y) if 0 not in (x, y) else 0 for x, y in zip(a, b))


def bcast(a, shape):
    n = len(shape)
    sh, st = (1,) * (n - a.ndim) + a._shape, (0,) * (n - a.ndim) + a.st
    for x, y in zip(sh, shape):
        if x != y and x != 1:
            raise ValueError("could not broadcast input array")
    return SymArray(a.buf, a.dtype, shape, [0 if d == 1 else s for d, s in zip(sh, st)], a.off).elems()


def result_dtype(a, b):
    dts = [x.dtype for x in (a, b) if isinstance(x, SymArray) or (isinstance(x, SF) and x.dt is not None) or isinstance(x, real.generic)]
    r = real.result_type(*dts)
    if r.kind in "iub" and (isinstance(b, float) or isinstance(b, SF)):
        r = F8
    return r


def infer(xs):
    if any(isinstance(x, SF) for x in xs):
        return F4 if all(isinstance(x, SF) and x.dt == F4 for x in xs) else F8
    if any(isinstance(x, SB) for x in xs):
        return real.dtype(bool)
    return real.array(xs).dtype


def np_array(x, dtype=None, copy=True, order="K", ndmin=0, subok=False):
    if isinstance(x, SymArray):
        a = x.astype(x.dtype if dtype is None else dtype, copy=bool(copy))
        if order == "C" and not a.is_c():
            a = a.copy()
    elif isinstance(x, (list, tuple)):
        sub = [np_array(y) if isinstance(y, (list, tuple, SymArray)) else y for y in x]
        if sub and isinstance(sub[0], SymArray):
            if any(s._shape != sub[0]._shape for s in sub):
                raise ValueError("setting an array element with a sequence")
            flat = [e for s in sub for e in s.elems()]
            shape = (len(sub),) + sub[0]._shape
            dt = real.dtype(dtype) if dtype is not None else real.result_type(*[s.dtype for s in sub])
        else:
            flat, shape = sub, (len(sub),)
            dt = real.dtype(dtype) if dtype is not None else infer(sub)
        a = SymArray([conv(v, dt) for v in flat], dt, shape)
    elif isinstance(x, real.ndarray):
        a = np_array(x.tolist(), dtype or x.dtype)
    else:
        dt = real.dtype(dtype) if dtype is not None else infer([x])
        a = SymArray([conv(x, dt)], dt, ())
    if a.ndim < ndmin:
        a = SymArray(a.buf, a.dtype, (1,) * (ndmin - a.ndim) + a._shape, (1,) * (ndmin - a.ndim) + a.st, a.off)
    return a


def np_asarray(x, dtype=None, order=None, copy=None):
    return np_array(x, dtype, copy=False, order=order or "K")


def np_ascontiguousarray(x, dtype=None):
    return np_array(x, dtype, copy=False, order="C", ndmin=1)


def np_zeros(shape, dtype=float, order="C"):
    shape = tuple(int(x) for x in shape) if isinstance(shape, (tuple, list)) else (int(shape),)
    dt = real.dtype(dtype)
    return SymArray([conv(0, dt)] * prod(shape), dt, shape)


def np_full(shape, v, dtype=None):
    a = np_zeros(shape, dtype if dtype is not None else infer([v]))
    a.fill(v)
    return a


def np_zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    return like(np_asarray(a), dtype) if shape is None else np_zeros(shape, dtype or a.dtype)


def np_full_like(a, v, dtype=None):
    b = np_zeros_like(a, dtype)
    b.fill(v)
    return b


def np_diff(a, n=1, axis=-1):
    a = np_asarray(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported("diff of more than one axis")
    return a[1:] - a[:-1]


def np_all(a, axis=None, **k):
    if axis is not None or k:
        raise Unsupported("all along an axis")
    a = np_asarray(a)
    return mk(z3.And([B(conv(x, real.dtype(bool))) for x in a.elems()]))


def np_any(a, axis=None, **k):
    if axis is not None or k:
        raise Unsupported("any along an axis")
    a = np_asarray(a)
    return mk(z3.Or([B(conv(x, real.dtype(bool))) for x in a.elems()]))


def np_prod(a, **k):
    a = np_asarray(a)
    p = 1
    for x in a.elems():
        p = p * x
    return p


def np_sum(a, **k):
    a = np_asarray(a)
    p = 0
    for x in a.elems():
        p = x + p
    return p


def np_min(a, **k):
    xs = [sf(x) for x in np_asarray(a).elems()]
    r, n = xs[0].r, xs[0].n
    for x in xs[1:]:
        r, n = z3.If(x.r < r, x.r, r), z3.Or(n, x.n)
    return SF(r, n, np_asarray(a).dtype)


def np_max(a, **k):
    return -np_min(-np_asarray(a))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = lambda x, y: abs(sf(x) - sf(y)) <= abs(sf(y)) * rtol + atol
    if isinstance(a, SymArray):
        return a._bin(b, f, bool)
    if isinstance(b, SymArray):
        return b._bin(a, lambda y, x: f(x, y), bool)
    return f(a, b)


def np_array_equal(a, b, equal_nan=False):
    a, b = np_asarray(a), np_asarray(b)
    return a._shape == b._shape and np_all(a == b)


def np_concatenate(xs, axis=0):
    xs = [np_asarray(x) for x in xs]
    if any(x.ndim != 1 for x in xs):
        raise Unsupported("concatenate")
    return np_array([e for x in xs for e in x.elems()], real.result_type(*[x.dtype for x in xs]))


class NDArray:
    def __class_getitem__(cls, item):
        return SymArray


def np_copyto(dst, src, **k):
    dst[...] = src


def np_round(a, decimals=0, out=None):
    f = lambda x: conv(SF(lossy(f"round_{decimals}", x.r), x.n, x.dt), x.dtype)
    return SymArray([f(sf(x)) for x in a.elems()], a.dtype, a.shape) if isinstance(a, SymArray) else f(sf(a))


def np_isnan(a):
    f = lambda x: mk(sf(x).n)
    return SymArray([f(x) for x in a.elems()], bool, a.shape) if isinstance(a, SymArray) else f(a)


def np_select(a, b, pick):
    xs, ys = np_asarray(a), np_asarray(b)
    shape = bshape(xs.shape, ys.shape)
    dt = result_dtype(xs, ys)
    out = [pick(sf(x), sf(y)) for x, y in zip(bcast(xs, shape), bcast(ys, shape))]
    return SymArray([conv(x, dt) for x in out], dt, shape)


def smin(x, y):
    return SF(z3.If(x.r <= y.r, x.r, y.r), z3.Or(x.n, y.n))


def smax(x, y):
    return SF(z3.If(x.r >= y.r, x.r, y.r), z3.Or(x.n, y.n))


def np_stack(xs, axis=0):
    xs = [np_asarray(x) for x in xs]
    if axis not in (0, -1):
        raise Unsupported("stack axis")
    a = np_concatenate([x.ravel() for x in xs])
    a = a.reshape((len(xs),) + tuple(xs[0].shape))
    return a if axis == 0 else np_ascontiguousarray(a.T) if xs[0].ndim == 1 else a.transpose(*list(range(1, a.ndim)), 0)


def np_broadcast_to(a, shape):
    a = np_asarray(a)
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    n = len(shape)
    sh, st = (1,) * (n - a.ndim) + a._shape, (0,) * (n - a.ndim) + a.st
    bcast(a, shape)
    return SymArray(a.buf, a.dtype, shape, [0 if d == 1 else s for d, s in zip(sh, st)], a.off, a)


def np_broadcast_arrays(*xs):
    xs = [np_asarray(x) for x in xs]
    shape = ()
    for x in xs:
        shape = bshape(shape, x.shape)
    return [np_broadcast_to(x, shape) for x in xs]


def np_arange(*a, dtype=None):
    r = real.arange(*[int(x) for x in a], dtype=dtype)
    return SymArray([conv(x, r.dtype) for x in r.tolist()], r.dtype, r.shape)


FUNCS = dict(
    minimum=lambda a, b: np_select(a, b, smin), maximum=lambda a, b: np_select(a, b, smax), stack=np_stack, vstack=np_stack, broadcast_to=np_broadcast_to,
    broadcast_arrays=np_broadcast_arrays, arange=np_arange, repeat=lambda a, n, axis=None: np_asarray(a).repeat(n, axis), ediff1d=lambda a: np_diff(np_asarray(a).ravel()),
    asfortranarray=lambda a: np_asarray(a).T.copy().T, isscalar=lambda x: isinstance(x, (SF, int, float)), hstack=lambda xs: np_concatenate([np_asarray(x) for x in xs]),
    expand_dims=lambda a, ax: np_asarray(a)[None] if ax == 0 else unsupported("expand_dims"), iterable=lambda x: hasattr(x, "__iter__"),
    array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_ascontiguousarray, zeros=np_zeros, empty=np_zeros,
    ones=lambda shape, dtype=float: np_full(shape, 1, dtype), full=np_full, zeros_like=np_zeros_like, empty_like=np_zeros_like,
    ones_like=lambda a, dtype=None: np_full_like(a, 1, dtype), full_like=np_full_like, diff=np_diff, all=np_all, any=np_any, prod=np_prod, sum=np_sum,
    min=np_min, max=np_max, amin=np_min, amax=np_max, isclose=np_isclose, allclose=lambda a, b, **k: np_all(np_isclose(a, b, **k)),
    array_equal=np_array_equal, concatenate=np_concatenate, ravel=lambda a, order="C": np_asarray(a).ravel(order),
    reshape=lambda a, s: np_asarray(a).reshape(s), size=lambda a: np_asarray(a).size, shape=lambda a: np_asarray(a).shape, ndim=lambda a: np_asarray(a).ndim,
    copy=lambda a: np_asarray(a).copy(), atleast_1d=lambda a: np_array(a, copy=False, ndmin=1), abs=abs, absolute=abs, copyto=np_copyto, isnan=np_isnan,
    logical_and=lambda a, b: a & b, logical_or=lambda a, b: a | b, logical_not=lambda a: ~a if isinstance(a, SymArray) else sb_not(a),
    greater=lambda a, b: a > b, less=lambda a, b: a < b, greater_equal=lambda a, b: a >= b, less_equal=lambda a, b: a <= b, equal=lambda a, b: a == b, not_equal=lambda a, b: a != b,
    round=np_round, around=np_round, isfinite=lambda a: ~np_isnan(a) if isinstance(a, SymArray) else sb_not(np_isnan(a)),
    subtract=lambda a, b: a - b, add=lambda a, b: a + b, multiply=lambda a, b: a * b, squeeze=lambda a: np_asarray(a).squeeze(), transpose=lambda a: np_asarray(a).T,
    require=lambda a, dtype=None, requirements=None: np_ascontiguousarray(a, dtype),
)
PASS = set("float32 float64 int32 int64 intp uintp uint64 uint32 int_ bool_ bool dtype generic number integer floating signedinteger nan inf pi newaxis finfo iinfo issubdtype result_type float16 single double".split())


class SymNumpy(types.ModuleType):
    ndarray = SymArray
    __version__ = real.__version__

    def __getattr__(self, k):
        if k in FUNCS:
            return FUNCS[k]
        if k in PASS:
            return getattr(real, k)
        if k.startswith("__"):
            raise AttributeError(k)
        if k == "typing":
            return TYPING
        raise Unsupported("numpy." + k)


NP = SymNumpy("numpy")
NP.__path__ = []
TYPING = types.ModuleType("numpy.typing")
TYPING.NDArray = NDArray
TYPING.ArrayLike = object
TYPING.DTypeLike = object
