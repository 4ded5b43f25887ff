"""Symbolic execution of /repo/src/interpn/*.py (C21, C22).

  run.py check PROP TIER OUT.json     explore; candidate counterexamples go into OUT.json
  run.py native FILE                  replay one counterexample with the real numpy

The same harness code runs in both modes.  The compiled module `interpn.interpn`
is replaced by a recording stand-in whose results are arbitrary (C23 covers it).
"""
import importlib.metadata
import importlib.util
import itertools
import json
import math
import os
import random
import sys
import time
import types

sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SRC = "/repo/src/interpn"

SIGS = {}
for _d in ("f64", "f32"):
    for _m in ("linear", "nearest", "cubic"):
        _l = ["linearize_extrapolation"] if _m == "cubic" else []
        SIGS[f"interpn_{_m}_regular_{_d}"] = ["dims", "starts", "steps", "vals"] + _l + ["obs", "out"]
        SIGS[f"interpn_{_m}_rectilinear_{_d}"] = ["grids", "vals"] + _l + ["obs", "out"]
    SIGS[f"check_bounds_regular_{_d}"] = ["dims", "starts", "steps", "obs", "atol", "out"]
    SIGS[f"check_bounds_rectilinear_{_d}"] = ["grids", "obs", "atol", "out"]


class Bad(Exception):
    """a requirement failed"""


class Call:
    def __init__(self, name, args, out):
        self.name, self.args, self.out = name, args, out


class Base:
    """The choices of one run, the stand-in for the compiled module, and the requirements."""

    def __init__(self):
        self.calls = []
        self.checked = 0
        self.failing = ""  # the bindings whose name starts with this raise

    # -- the compiled module
    def binding(self):
        m = types.ModuleType("interpn.interpn")
        for name, sig in SIGS.items():
            setattr(m, name, self.make(name, sig))
        return m

    def make(self, name, sig):
        def f(*a, **k):
            return self.called(name, sig, a, k)

        f.__name__ = name
        return f

    def called(self, name, sig, a, k):
        if len(a) > len(sig):
            raise TypeError(f"{name}() takes {len(sig)} positional arguments but {len(a)} were given")
        args = dict(zip(sig, a))
        for key, v in k.items():
            if key not in sig or key in args:
                raise TypeError(f"{name}() got an unexpected keyword argument {key!r}")
            args[key] = v
        for s in sig:
            if s not in args:
                raise TypeError(f"{name}() missing argument {s!r}")
        if self.failing and name.startswith(self.failing):
            raise AssertionError("raised by the binding")
        dt = "float64" if name.endswith("f64") else "float32"
        rec = {}
        for s in sig:
            v = args[s]
            if s == "dims":
                rec[s] = [int(x) for x in v]
                if any(x < 0 for x in rec[s]):
                    raise OverflowError("can't convert negative int to unsigned")
            elif s in ("starts", "steps", "vals"):
                rec[s] = self.snap(v, dt, s)
            elif s in ("obs", "grids"):
                rec[s] = [self.snap(x, dt, s) for x in v]
            elif s == "out":
                self.snap(v, "bool" if name.startswith("check") else dt, s)
            else:
                rec[s] = v
        out = args["out"]
        if name.startswith("check"):
            res = [self.flagvar(f"flag{len(self.calls)}_{i}") for i in range(len(out))]
        else:
            res = [self.resvar(f"result{len(self.calls)}_{i}", dt) for i in range(len(out))]
        for i in range(len(out)):
            out[i] = res[i]
        self.calls.append(Call(name, rec, res))

    def snap(self, a, dt, what):
        if not isinstance(a, self.np.ndarray):
            raise TypeError(f"argument '{what}': not an array")
        if a.dtype != dt or a.ndim != 1:
            raise TypeError(f"argument '{what}': wrong element type or number of dimensions")
        if not a.flags.c_contiguous:
            raise TypeError("The given array is not contiguous")
        return self.elems(a)


class Symbolic(Base):
    def __init__(self, engine):
        super().__init__()
        import symnp
        import z3

        self.e, self.sn, self.z3, self.np = engine, symnp, z3, symnp.NP
        self.vars = {}
        self.failed = None

    def elems(self, a):
        return a.elems()

    def num(self, name, dt, wide=0):
        """a finite float; grid coordinates are exactly representable, and so are their differences"""
        z3 = self.z3
        if name not in self.vars:
            k = z3.Int(name)
            bits, frac = (43, FRAC[dt][wide]) if dt == "float64" else (23, FRAC[dt][wide])
            self.e.s.add(k >= -(2**bits), k <= 2**bits)
            self.vars[name] = (k, frac)
        k, frac = self.vars[name]
        return self.sn.SF(z3.ToReal(k) / 2**frac if frac > 0 else z3.ToReal(k) * 2**-frac, None, self.np.dtype(dt))

    def array(self, name, shape, dt, layout="C", nan=False, wide=0):
        n = 1
        for d in shape:
            n *= d
        xs = [self.num(f"{name}[{i}]", dt, wide) for i in range(n)]
        if nan:
            for i, x in enumerate(xs):
                b = self.z3.Bool(f"{name}[{i}]!nan")
                self.vars[f"{name}[{i}]!nan"] = (b, None)
                x.n = b
        A = self.sn.SymArray
        if layout == "C":
            return A(xs, dt, shape)
        if layout == "F":
            return A(xs, dt, shape[::-1]).T
        # every other element of a larger buffer
        buf = []
        for x in xs:
            buf += [x, self.num("gap", dt)]
        st = [2 * s for s in self.sn.cstrides(shape)]
        return A(buf, dt, shape, st, 0)

    def flag(self, name):
        b = self.z3.Bool(name)
        self.vars[name] = (b, None)
        return self.sn.SB(b)

    def concrete_flag(self, name):
        return self.e.decide(self.flag(name).c)

    def choice(self, name, options):
        k = self.z3.Int(name)
        if name not in self.vars:
            self.e.s.add(k >= 0, k < len(options))
        self.vars[name] = (k, None)
        for i in range(len(options) - 1):
            if self.e.decide(k == i):
                return options[i]
        return options[-1]

    def flagvar(self, name):
        return self.flag(name)

    def resvar(self, name, dt):
        return self.num(name, dt)

    def assume(self, c):
        self.e.s.add(self.sn.B(c))
        if not self.e.sat():
            raise self.sn.Cut

    def req(self, c, what):
        self.checked += 1
        b = self.z3.simplify(self.sn.B(c))
        if self.z3.is_true(b):
            self.e.stats["trivial"] += 1
            return
        if self.e.sat(self.z3.Not(b)):
            m = self.e.s.model()
            raise Fail(what, self.values(m))
        self.e.stats["proved"] += 1

    def values(self, m):
        out = {}
        for n, (v, frac) in self.vars.items():
            x = m.eval(v, model_completion=True)
            out[n] = bool(self.z3.is_true(x)) if self.z3.is_bool(v) else x.as_long() if frac is None else math.ldexp(x.as_long(), -frac)
        return out

    def fail(self, what):
        if not self.e.sat():
            raise self.sn.Cut
        raise Fail(what, self.values(self.e.s.model()))

    # symbolic comparisons that do not fork
    def same(self, a, b):
        a, b = self.sn.sf(a), self.sn.sf(b)
        return self.sn.SB(self.z3.And(a.n == b.n, self.z3.Or(a.n, a.r == b.r)))

    def sameb(self, a, b):
        return self.sn.SB(self.sn.B(a) == self.sn.B(b))

    def land(self, *xs):
        return self.sn.SB(self.z3.And([self.sn.B(x) for x in xs]))

    def lor(self, *xs):
        return self.sn.SB(self.z3.Or([self.sn.B(x) for x in xs]))

    def lnot(self, x):
        return self.sn.SB(self.z3.Not(self.sn.B(x)))

    def sub(self, a, b):
        return a - b

    def cast(self, a, dt):
        return self.sn.sf(a).cast(self.np.dtype(dt))


# exponents of the symbolic floats: ordinary, very large, very small
FRAC = {"float64": {0: 40, 1: -800, -1: 900}, "float32": {0: 20, 1: -90, -1: 120}}


class Fail(Exception):
    def __init__(self, what, values):
        self.what, self.vals = what, values


class Native(Base):
    def __init__(self, values, shake=None):
        super().__init__()
        import numpy

        self.np, self.v, self.shake = numpy, values, shake

    def elems(self, a):
        return list(a.ravel())

    def num(self, name, dt, wide=0):
        x = self.v.get(name, 0.5)
        if self.shake:
            # other values of the same kind: ordered within an array, with a full significand
            i = int(name.split("[")[1].split("]")[0]) if "[" in name else 0
            x = math.ldexp(i + self.shake.random() / 2 + 0.25, -FRAC[dt][wide]) if wide else i + self.shake.random() / 2 + 0.25
        return self.np.dtype(dt).type(x)

    def array(self, name, shape, dt, layout="C", nan=False, wide=0):
        np = self.np
        n = int(np.prod(shape)) if len(shape) else 1
        xs = np.array([float("nan") if nan and self.v.get(f"{name}[{i}]!nan") else self.num(f"{name}[{i}]", dt, wide) for i in range(n)], dtype=dt)
        if layout == "C":
            return xs.reshape(shape)
        if layout == "F":
            return xs.reshape(shape[::-1]).T
        big = np.zeros(2 * n, dtype=dt)
        big[::2] = xs
        r = big[::2]
        return np.lib.stride_tricks.as_strided(big, shape, [2 * s for s in np.zeros(shape, dtype=dt).strides])

    def flag(self, name):
        return bool(self.v.get(name, False))

    concrete_flag = flag

    def choice(self, name, options):
        return options[int(self.v.get(name, 0))]

    def flagvar(self, name):
        return bool(self.v.get(name, False))

    def resvar(self, name, dt):
        return self.np.dtype(dt).type(self.v.get(name, sum(map(ord, name)) % 1000 / 8))

    def assume(self, c):
        if not c:
            raise Bad("outside the assumptions")

    def req(self, c, what):
        if not bool(c):
            raise Fail(what, {})

    def fail(self, what):
        raise Fail(what, {})

    def same(self, a, b):
        return bool(a == b) or bool(a != a and b != b)

    def sameb(self, a, b):
        return bool(a) == bool(b)

    def land(self, *xs):
        return all(bool(x) for x in xs)

    def lor(self, *xs):
        return any(bool(x) for x in xs)

    def lnot(self, x):
        return not x

    def sub(self, a, b):
        return a - b

    def cast(self, a, dt):
        with self.np.errstate(all="ignore"):
            return self.np.dtype(dt).type(a)


_MODS = {}


def package(I):
    """/repo's Python package on top of I's numpy and I's stand-in for the compiled module"""
    sym = isinstance(I, Symbolic)
    b = _MODS.get("binding")
    if b is None:
        if sym:
            # pydantic and the standard library must not see the stand-in
            import pydantic  # noqa: F401

            sys.modules["numpy"] = I.sn.NP
            sys.modules["numpy.typing"] = I.sn.TYPING
        b = types.ModuleType("interpn.interpn")
        for name in SIGS:
            setattr(b, name, (lambda nm: lambda *a, **k: _MODS["I"].called(nm, SIGS[nm], a, k))(name))
        sys.modules["interpn.interpn"] = b
        importlib.metadata.version = lambda name, _v=importlib.metadata.version: "0" if name == "interpn" else _v(name)
        spec = importlib.util.spec_from_file_location("interpn", os.path.join(SRC, "__init__.py"), submodule_search_locations=[SRC])
        m = importlib.util.module_from_spec(spec)
        sys.modules["interpn"] = m
        spec.loader.exec_module(m)
        _MODS["binding"], _MODS["pkg"] = b, m
        if sym:
            text_shims(I)
    _MODS["I"] = I
    return _MODS["pkg"]


def text_shims(I):
    """json and the conversions to float, inside the package only: text that stands for a symbolic value is that value"""
    sn = I.sn

    def dumps(x, **k):
        return json.dumps(x, **k, default=sym_default) if not has_sym(x) else emit(x)

    def has_sym(x):
        return isinstance(x, sn.SF) or isinstance(x, (list, tuple)) and any(map(has_sym, x)) or isinstance(x, dict) and any(map(has_sym, x.values()))

    def sym_default(x):
        raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")

    def emit(x):
        if isinstance(x, sn.SF):
            if x.dt is not None and x.dt != sn.F8:
                raise TypeError("Object of type float32 is not JSON serializable")
            return repr(x)
        if isinstance(x, (list, tuple)):
            return "[" + ", ".join(map(emit, x)) + "]"
        if isinstance(x, dict):
            return "{" + ", ".join(json.dumps(str(a)) + ": " + emit(b) for a, b in x.items()) + "}"
        return json.dumps(x)

    def number(t):
        v = sn.unliteral(t)
        return float(t) if v is None else v

    def loads(t, **k):
        if isinstance(t, (bytes, bytearray)):
            t = t.decode()
        pf = k.pop("parse_float", None)
        return json.loads(t, parse_float=(lambda s: pf(s)) if pf else number, **k)

    class Float(float):
        def __new__(cls, x=0.0):
            if isinstance(x, sn.SF):
                return sn.SF(x.r, x.n, None, x.e)
            if isinstance(x, str) and sn.unliteral(x) is not None:
                return sn.unliteral(x)
            return float(x)

    shim = types.ModuleType("json")
    shim.__dict__.update({k: v for k, v in json.__dict__.items() if not k.startswith("__")})
    shim.dumps, shim.loads = dumps, loads
    for name, m in list(sys.modules.items()):
        if name == "interpn" or name.startswith("interpn.") and name != "interpn.interpn":
            for k, v in list(m.__dict__.items()):
                if v is json:
                    m.__dict__[k] = shim
                elif v is json.dumps:
                    m.__dict__[k] = dumps
                elif v is json.loads:
                    m.__dict__[k] = loads
            m.__dict__.setdefault("float", Float)


def layout_view(I, a):
    """the elements in C order, before the call (the call may write into views)"""
    return I.elems(a)


def same_list(I, a, b):
    return I.land(len(a) == len(b), *[I.same(x, y) for x, y in zip(a, b)])


# ------------------------------------------------------------------ C21

def h_interpn(I, c):
    pkg = package(I)
    np, dt, d = I.np, c["dt"], "f64" if c["dt"] == "float64" else "f32"
    lens, oshape = c["lens"], tuple(c["oshape"])
    nd = len(lens)
    grids = [I.array(f"g{i}", (n,), dt, c.get("glayout", "C")) for i, n in enumerate(lens)]
    vals = I.array("v", tuple(lens) if c.get("vnd", True) else (prod(lens),), dt, c.get("vlayout", "C"))
    obs = [I.array(f"x{i}", oshape, dt, c["olayout"]) for i in range(nd)]
    g0, v0, x0 = [layout_view(I, g) for g in grids], layout_view(I, vals), [layout_view(I, x) for x in obs]
    method = I.choice("method", ["linear", "cubic", "nearest"])
    assume, check = I.concrete_flag("assume_regular"), I.concrete_flag("check_bounds")
    lin = I.concrete_flag("linearize") if method == "cubic" else c["out"]
    atol = I.num("atol", "float64")
    out = I.array("o", oshape, dt) if c["out"] else None
    kw = {}
    if out is not None:
        kw["out"] = out
    if not c.get("defaults"):
        kw.update(linearize_extrapolation=lin, assume_regular=assume, check_bounds=check, bounds_atol=atol)
        kw["method"] = method
    else:
        method, lin, assume, check = "linear", True, False, False
    seq = tuple if c.get("tuples") else list
    I.failing = c.get("failing", "")
    raised = None
    try:
        r = pkg.interpn(seq(obs), seq(grids), vals, **kw)
    except ValueError as e:
        raised = e
    except Exception as e:
        if isinstance(e, AssertionError) and "raised by the binding" in str(e):
            return
        I.fail(f"{type(e).__name__} raised: {e}"[:200])
    if I.failing == "interpn_":
        I.req(raised is not None, "an error of the binding was swallowed")
    if I.failing == "check_":
        I.req(I.lnot(check), "an error of the bounds check was swallowed")
    checks = [k for k in I.calls if k.name.startswith("check")]
    evals = [k for k in I.calls if not k.name.startswith("check")]
    I.req(I.lor(check, raised is None), "ValueError without bounds checking")
    I.req(I.lor(I.lnot(check), len(checks) == 1), "bounds checking on, but the bounds were not checked exactly once")
    # the kind of grid
    equal = I.land(*[I.land(*[I.sub(g[i + 1], g[i]) == I.sub(g[1], g[0]) for i in range(1, len(g) - 1)]) for g in g0])
    for k in I.calls:
        regular = "_regular_" in k.name
        I.req(k.name.endswith(d), f"{k.name} called for {dt} data")
        if regular:
            I.req(I.lor(assume, equal), "an unevenly spaced grid was treated as regular")
            I.req(k.args["dims"] == list(lens), "wrong dimensions forwarded")
            I.req(same_list(I, k.args["starts"], [g[0] for g in g0]), "wrong grid starts forwarded")
            I.req(same_list(I, k.args["steps"], [I.sub(g[1], g[0]) for g in g0]), "wrong grid steps forwarded")
        else:
            I.req(I.lnot(assume), "assume_regular was ignored")
            I.req(len(k.args["grids"]) == nd, "wrong number of grids forwarded")
            I.req(I.land(*[same_list(I, a, b) for a, b in zip(k.args["grids"], g0)]), "wrong grids forwarded")
        I.req(len(k.args["obs"]) == nd, "wrong number of observation arrays forwarded")
        I.req(I.land(*[same_list(I, a, b) for a, b in zip(k.args["obs"], x0)]), "wrong observations forwarded")
    for k in checks:
        I.req(I.same(k.args["atol"], atol), "wrong tolerance forwarded")
        I.req(len(k.out) == nd, "the bounds check got the wrong number of flags")
        bad = I.lor(*k.out)
        I.req(I.lor(I.lnot(check), I.sameb(raised is not None, bad)), "ValueError does not agree with the bounds check")
    if raised is not None:
        return
    I.req(len(evals) == 1, "the binding was not called exactly once")
    k = evals[0]
    I.req(k.name.split("_")[1] == method, f"{k.name} called for method {method}")
    I.req(same_list(I, k.args["vals"], v0), "wrong values forwarded")
    if method == "cubic":
        I.req(I.sameb(k.args["linearize_extrapolation"], lin), "wrong extrapolation flag forwarded")
    I.req(isinstance(r, np.ndarray) and tuple(r.shape) == oshape and r.dtype == dt, "the result has the wrong shape or type")
    I.req(same_list(I, I.elems(r), k.out), "the result is not what the binding computed")
    if out is not None:
        I.req(same_list(I, I.elems(out), k.out), "the supplied output does not hold the result")
    # the inputs are the caller's
    I.req(I.land(*[same_list(I, I.elems(a), b) for a, b in zip(grids + obs + [vals], g0 + x0 + [v0])]), "an input array was modified")


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def c21(tier):
    base = dict(dt="float64", lens=[3], oshape=[2], olayout="C", out=False)
    cs = []
    for dt in ("float64", "float32"):
        for lens in ([2], [3], [4], [2, 3], [3, 2], [3, 3]) + (([5], [4, 3], [3, 4], [2, 2, 3], [3, 3, 3]) if tier == "thorough" else ()):
            for oshape in ([2], [1], [2, 2]):
                for out in (False, True):
                    if out is False or oshape != [1]:
                        cs.append(dict(base, dt=dt, lens=lens, oshape=oshape, out=out))
        for nd in (3, 4) + ((5, 6, 7, 8) if tier == "thorough" else ()):
            cs.append(dict(base, dt=dt, lens=[2] * (nd - 1) + [3], oshape=[2], out=nd % 2 == 0))
            cs.append(dict(base, dt=dt, lens=[3] + [2] * (nd - 1), oshape=[1], out=nd % 2 == 1))
        for ol in ("F", "S"):
            for oshape in ([2, 3], [3], [2, 1, 2]):
                for out in (False, True):
                    cs.append(dict(base, dt=dt, lens=[3, 2], oshape=oshape, olayout=ol, out=out))
        for vl in ("F", "S"):
            for vnd in (True, False):
                cs.append(dict(base, dt=dt, lens=[2, 3], vlayout=vl, vnd=vnd))
        cs.append(dict(base, dt=dt, lens=[3, 4], glayout="S"))
        cs.append(dict(base, dt=dt, lens=[2, 3], tuples=True))
        cs.append(dict(base, dt=dt, lens=[3, 3], defaults=True))
        cs.append(dict(base, dt=dt, lens=[2, 3], oshape=[], out=True))
        for fl in ("interpn_", "check_"):
            cs.append(dict(base, dt=dt, lens=[3, 2], failing=fl))
        cs.append(dict(base, dt=dt, lens=[3], oshape=[0]))
        cs.append(dict(base, dt=dt, lens=[2, 3], oshape=[2, 0], out=True))
    return [("interpn", h_interpn, c) for c in cs]


# ------------------------------------------------------------------ C22

CLASSES = {
    "MultilinearRegular": ("linear", "regular", 8),
    "MultilinearRectilinear": ("linear", "rectilinear", 8),
    "MulticubicRegular": ("cubic", "regular", 8),
    "MulticubicRectilinear": ("cubic", "rectilinear", 8),
    "NearestRegular": ("nearest", "regular", 6),
    "NearestRectilinear": ("nearest", "rectilinear", 6),
}


def wrap(pkg, a, dt):
    s = sys.modules["interpn.serialization"]
    return (s.ArrayF64 if dt == "float64" else s.ArrayF32)(data=a)


def h_class(I, c):
    """construction, then evaluation and bounds check of what was constructed"""
    pkg = package(I)
    np = I.np
    cls = getattr(pkg, c["cls"])
    method, kind, limit = CLASSES[c["cls"]]
    vdt = c["dt"]
    gdts = c["gdts"]
    d = "f64" if vdt == "float64" else "f32"
    nan = c.get("nan", False)
    kw = {}
    if method == "cubic" and not c.get("default_lin"):
        kw["linearize_extrapolation"] = I.concrete_flag("linearize")
    lin = kw.get("linearize_extrapolation", True)
    vals = I.array("v", (c["nvals"],), vdt, c.get("vlayout", "C"), nan)
    via_new = c["via"] == "new"
    same_types = True
    v0 = layout_view(I, vals)
    if kind == "regular":
        dims, na, nb = list(c["dims"]), c["na"], c["nb"]
        starts, steps = I.array("a", (na,), gdts[0], nan=nan), I.array("s", (nb,), gdts[1], nan=nan)
        a0, s0 = layout_view(I, starts), layout_view(I, steps)
        if via_new:
            a0, s0 = [I.cast(x, vdt) for x in a0], [I.cast(x, vdt) for x in s0]
            args = (dims, starts, steps, vals)
        else:
            same_types = gdts[0] == vdt and gdts[1] == vdt
            kw.update(dims=dims, starts=wrap(pkg, starts, gdts[0]), steps=wrap(pkg, steps, gdts[1]), vals=wrap(pkg, vals, vdt))
        nd = len(dims)
        shapes = na == nd and nb == nd and 1 <= nd <= limit and prod(dims) == c["nvals"]
        good = I.land(*[x > 0 for x in s0])
    else:
        lens = list(c["dims"])
        grids = [I.array(f"g{i}", (n,), gdts[i % len(gdts)], c.get("glayout", "C"), nan) for i, n in enumerate(lens)]
        g0 = [layout_view(I, g) for g in grids]
        if via_new:
            g0 = [[I.cast(x, vdt) for x in g] for g in g0]
            args = (grids, vals)
        else:
            same_types = all(gdts[i % len(gdts)] == vdt for i in range(len(lens)))
            kw.update(grids=[wrap(pkg, g, gdts[i % len(gdts)]) for i, g in enumerate(grids)], vals=wrap(pkg, vals, vdt))
        nd, dims = len(lens), lens
        shapes = 1 <= nd <= limit and prod(lens) == c["nvals"]
        good = I.land(*[I.land(*[I.sub(g[i + 1], g[i]) > 0 for i in range(len(g) - 1)]) for g in g0])
    err = None
    try:
        it = cls.new(*args, **kw) if via_new else cls(**kw)
    except Exception as e:
        err = e
    if err is None:
        I.req(shapes, "constructed although the sizes or the dimension count do not fit")
        I.req(same_types, "constructed although the float types differ")
        I.req(good, "constructed although a step is not positive or an axis is not increasing")
    else:
        I.req(I.lnot(I.land(shapes, same_types, good)), f"a valid grid was rejected: {type(err).__name__} {err}"[:200])
        return
    if not c.get("use"):
        return

    def grid_ok(k):
        I.req(k.name.endswith(f"_{kind}_{d}"), f"{c['cls']} called {k.name} for {vdt} data")
        if kind == "regular":
            I.req(k.args["dims"] == dims, "wrong dimensions forwarded")
            I.req(same_list(I, k.args["starts"], a0), "wrong grid starts forwarded")
            I.req(same_list(I, k.args["steps"], s0), "wrong grid steps forwarded")
        else:
            I.req(I.land(len(k.args["grids"]) == nd, *[same_list(I, a, b) for a, b in zip(k.args["grids"], g0)]), "wrong grids forwarded")

    m = c["nobs"]
    obs = [I.array(f"x{i}", (m,), vdt) for i in range(nd)]
    x0 = [layout_view(I, x) for x in obs]
    for how in ("eval", "eval_unchecked", "check_bounds"):
        I.failing = "check_" if how == "check_bounds" else "interpn_"
        try:
            getattr(it, how)(obs, 1e-8) if how == "check_bounds" else getattr(it, how)(obs)
        except Exception:
            pass
        else:
            I.fail(f"{how} swallowed an error of the binding")
        I.failing = ""
    for how in ("eval", "eval_unchecked"):
        for given in (False, True):
            I.calls.clear()
            out = I.array("o", (m,), vdt) if given else None
            try:
                f = getattr(it, how)
                r = f(obs, out) if given and how == "eval" else f(obs, out=out) if given else f(obs)
            except Exception as e:
                I.fail(f"{how} raised {type(e).__name__}: {e}"[:200])
            I.req(len(I.calls) == 1, f"{how}: the binding was not called exactly once")
            k = I.calls[0]
            I.req(k.name == f"interpn_{method}_{kind}_{d}", f"{how} called {k.name}")
            grid_ok(k)
            I.req(same_list(I, k.args["vals"], v0), "wrong values forwarded")
            I.req(I.land(len(k.args["obs"]) == nd, *[same_list(I, a, b) for a, b in zip(k.args["obs"], x0)]), "wrong observations forwarded")
            if method == "cubic":
                I.req(I.sameb(k.args["linearize_extrapolation"], lin), "wrong extrapolation flag forwarded")
            I.req(isinstance(r, np.ndarray) and tuple(r.shape) == (m,) and r.dtype == vdt, "the result has the wrong shape or type")
            I.req(same_list(I, I.elems(r), k.out), "the result is not what the binding computed")
            if given:
                I.req(same_list(I, I.elems(out), k.out), "the supplied output does not hold the result")
    for shape in ((m,), (1, m)):
        obs = [I.array(f"y{i}", shape, vdt) for i in range(nd)]
        x0 = [layout_view(I, x) for x in obs]
        atol = I.num("atol", "float64")
        I.calls.clear()
        try:
            r = it.check_bounds(obs, atol)
        except Exception as e:
            I.fail(f"check_bounds raised {type(e).__name__}: {e}"[:200])
        I.req(len(I.calls) == 1 and I.calls[0].name == f"check_bounds_{kind}_{d}", "check_bounds called the wrong binding")
        k = I.calls[0]
        grid_ok(k)
        I.req(I.land(len(k.args["obs"]) == nd, *[same_list(I, a, b) for a, b in zip(k.args["obs"], x0)]), "wrong observations forwarded")
        I.req(I.same(k.args["atol"], atol), "wrong tolerance forwarded")
        I.req(len(k.out) == nd and len(r) == nd, "wrong number of flags")
        I.req(I.land(*[I.sameb(a, b) for a, b in zip(I.elems(r), k.out)]), "the flags are not what the binding computed")


def c22(tier):
    cs = []
    f8, f4 = "float64", "float32"
    for cls, (method, kind, limit) in CLASSES.items():
        n = 4 if method == "cubic" else 2
        for dt in (f8, f4):
            other = f4 if dt == f8 else f8
            def add(dims, nvals=None, na=None, nb=None, **k):
                cs.append(dict(dict(cls=cls, dt=dt, gdts=[dt, dt], dims=dims, nvals=prod(dims) if nvals is None else nvals, na=len(dims) if na is None else na, nb=len(dims) if nb is None else nb, via="new", nobs=2), **k))
            # use of what was constructed, with arbitrary flags and values
            for via in ("new", "direct"):
                add([n], via=via, use=True)
                add([n, n + 1], via=via, use=True)
            add([n, 2, 3] if n == 2 else [4, 5, 4], use=True)
            add([n], default_lin=True, use=True)
            add([n], nobs=0, use=True)
            add([n + 1, n], nan=True)
            add([n + 2, n], via="direct", nan=True)
            # every dimension count; 2-point axes would do for shape questions but keep the sizes legal
            for nd in range(0, limit + 2):
                for via in ("new", "direct"):
                    add([n if nd < 4 else 2 if method != "cubic" else 1] * nd, nvals=None if nd else 1, via=via, use=nd in (limit, limit - 1) and kind == "regular")
            # sizes that do not fit
            for nd in (1, 2, 3):
                dims = [n, n + 1, n][:nd]
                for dv in (-1, 1, -prod(dims), prod(dims)):
                    add(dims, nvals=prod(dims) + dv)
                    add(dims, nvals=prod(dims) + dv, via="direct")
                if kind == "regular":
                    for da, db in ((-1, 0), (1, 0), (0, -1), (0, 1), (1, 1), (-1, -1), (1, -1), (-1, 1)):
                        for via in ("new", "direct"):
                            add(dims, na=nd + da, nb=nd + db, via=via)
            # types
            for g in ([other, dt], [dt, other], [other, other]):
                for via in ("new", "direct"):
                    add([n, n], gdts=g, via=via, use=via == "new" and g == [other, other])
            if kind == "rectilinear":
                add([n, n], glayout="S", use=True)
                add([n, n], glayout="S", via="direct")
                add([n + 2])
                add([n, n, n + 1], via="direct")
                for k in range(limit):
                    # one long axis among short ones
                    dims = [1] * limit
                    dims[k] = 3
                    add(dims)
            add([n, n], vlayout="S", use=True)
    return [("class", h_class, c) for c in cs]


# ------------------------------------------------------------------ C24

def h_json(I, c):
    """a valid interpolator, to JSON and back; both evaluate through the same binding with the same arguments"""
    pkg = package(I)
    cls = getattr(pkg, c["cls"])
    method, kind, limit = CLASSES[c["cls"]]
    dt, dims = c["dt"], list(c["dims"])
    kw = {}
    if method == "cubic" and not c.get("default_lin"):
        kw["linearize_extrapolation"] = I.concrete_flag("linearize")
    vals = I.array("v", (prod(dims),), dt, wide=c.get("wide", 0))
    if kind == "regular":
        starts, steps = I.array("a", (len(dims),), dt, wide=c.get("wide", 0)), I.array("s", (len(dims),), dt)
        I.assume(I.land(*[x > 0 for x in I.elems(steps)]))
        args = (dims, starts, steps, vals)
    else:
        grids = [I.array(f"g{i}", (n,), dt, wide=c.get("gwide", 0)) for i, n in enumerate(dims)]
        for g in grids:
            g = I.elems(g)
            I.assume(I.land(*[a < b for a, b in zip(g, g[1:])]))
        args = (grids, vals)
    it = cls.new(*args, **kw)
    how = c["how"]
    try:
        if how == "json":
            it2 = cls.model_validate_json(it.model_dump_json())
        elif how == "indent":
            it2 = cls.model_validate_json(it.model_dump_json(indent=2).encode())
        else:
            it2 = cls.model_validate_json(cls.model_validate_json(it.model_dump_json()).model_dump_json())
    except Exception as e:
        I.fail(f"the round trip raised {type(e).__name__}: {e}"[:200])
    obs = [I.array(f"x{i}", (1,), dt) for i in range(len(dims))]
    rec = []
    for x in (it, it2):
        I.calls.clear()
        try:
            x.eval(obs)
            x.check_bounds(obs, 0.5)
        except Exception as e:
            I.fail(f"evaluation after the round trip raised {type(e).__name__}: {e}"[:200])
        rec.append(list(I.calls))
    I.req(type(it2) is type(it), "another class came back")
    I.req([k.name for k in rec[0]] == [k.name for k in rec[1]], "another binding is called after the round trip")
    for a, b in zip(*rec):
        for s in a.args:
            x, y = a.args[s], b.args[s]
            if s == "grids":
                I.req(I.land(len(x) == len(y), *[same_list(I, p, q) for p, q in zip(x, y)]), "the grid changed")
            elif s in ("starts", "steps", "vals"):
                I.req(same_list(I, x, y), f"{s} changed")
            elif s == "dims":
                I.req(x == y, "dims changed")
            elif s == "linearize_extrapolation":
                I.req(I.sameb(x, y), "the extrapolation flag changed")


def c24(tier):
    cs = []
    for cls, (method, kind, limit) in CLASSES.items():
        n = 4 if method == "cubic" else 2
        for dt in ("float64", "float32"):
            for dims in ([n], [n + 1], [n, n + 1], [2, 3, 2] if n == 2 else [4, 4, 5]) + (([n] * 4, [n + 6, 2 * n]) if tier == "thorough" else ()):
                for how in ("json", "indent", "twice"):
                    for wide in (0, 1, -1):
                        cs.append(dict(cls=cls, dt=dt, dims=dims, how=how, wide=wide))
                cs.append(dict(cls=cls, dt=dt, dims=dims, how="json", gwide=1))
                cs.append(dict(cls=cls, dt=dt, dims=dims, how="json", gwide=-1))
            if method == "cubic":
                cs.append(dict(cls=cls, dt=dt, dims=[n], how="json", default_lin=True))
            else:
                cs.append(dict(cls=cls, dt=dt, dims=[2] * limit, how="json"))
                cs.append(dict(cls=cls, dt=dt, dims=[1, 2], how="json"))
    return [("json", h_json, c) for c in cs]


HARNESS = {"interpn": h_interpn, "class": h_class, "json": h_json}
CONFIGS = {"C21": c21, "C22": c22, "C24": c24}
BOUNDS = {
    "C21": "configurations listed in pysym/run.py (1-8 axes of 2-5 points, result shapes up to 2x3, contiguous, transposed and strided inputs, both types); symbolic: all array elements (k*2^-40 with |k|<=2^43 for f64, k*2^-20 with |k|<=2^23 for f32: grid differences are exact), the method, the flags, the tolerance, the results and flags of the binding",
    "C22": "six classes, both types, 0 to limit+1 dimensions, every size off by one or doubled, mixed types, construction through new() and directly; symbolic: all array elements (as in C21, plus NaN), the extrapolation flag, what the binding computes",
    "C24": "six classes, both types, 1-3 dimensions (limit for linear and nearest), flag either way, compact and indented JSON, one and two round trips; symbolic: all grid and table values (k*2^e, |k|<=2^43 or 2^23, e in {-40, -900, +800} for f64 and {-20, -120, +90} for f32)",
}


def worker(a):
    prop, kind, c, deadline = a
    import symnp

    stats = dict(paths=0, forks=0, queries=0, solver_s=0.0, proved=0, trivial=0, cut=0, unsupported=0)
    fails, why, ends = [], [], []

    def go(e):
        I = Symbolic(e)
        try:
            HARNESS[kind](I, c)
            if len(ends) < 2 and e.sat():
                ends.append(dict(prop=prop, kind=kind, config=c, values=I.values(e.s.model())))
        except Fail as f:
            if len(fails) < 3:
                fails.append(dict(prop=prop, kind=kind, config=c, what=f.what, values=f.vals))
        except symnp.Unsupported as u:
            stats["unsupported"] += 1
            if len(why) < 3:
                why.append(str(u))

    try:
        symnp.explore(go, stats, limit=3000, deadline=deadline)
    except symnp.Unsupported as u:
        why.append(str(u))
        stats["unsupported"] += 1
    return c, stats, fails, why, ends


def check(prop, tier, outp):
    t0 = time.time()
    cs = CONFIGS[prop](tier)
    deadline = t0 + (500 if tier == "quick" else 5000)
    import multiprocessing as mp

    tot, fails, why, samples, dead = {}, [], {}, [], []
    jobs = [(prop, k, c, deadline) for k, f, c in cs]
    random.Random(1).shuffle(jobs)
    with mp.get_context("spawn").Pool(8, maxtasksperchild=None) as p:
        for c, st, fl, wy, ends in p.imap_unordered(worker, jobs, chunksize=4):
            for k, v in st.items():
                tot[k] = tot.get(k, 0) + v
            fails += fl
            samples += ends
            if not ends and not fl and not wy and not st["cut"]:
                dead.append(json.dumps(c))
            for w in wy:
                why[w] = why.get(w, 0) + 1
    # the model of one complete path per configuration, run with the real numpy
    import subprocess

    sp = outp + ".samples"
    json.dump(samples, open(sp, "w"))
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "batch", sp], capture_output=True, text=True)
    os.remove(sp)
    v = json.loads(r.stdout.splitlines()[-1]) if r.returncode == 0 and r.stdout else dict(ok=0, bad=[r.stderr[-500:]])
    json.dump(dict(configs=len(jobs), stats=tot, fails=fails[:60], nfails=len(fails), unsupported=why, wall=time.time() - t0,
                   validated=v["ok"], validated_bad=v["bad"][:5], samples=samples[:2], canaries=len(jobs), canaries_dead=dead[:5], bounds=BOUNDS[prop]), open(outp, "w"))


def once(f, shake=None):
    I = Native(f["values"], shake)
    try:
        HARNESS[f["kind"]](I, f["config"])
    except Fail as e:
        return e.what
    except Bad:
        return None
    return None


def native(path):
    f = json.load(open(path))
    for i in range(200):
        w = once(f, random.Random(i) if i else None)
        if w:
            print("CONFIRMED", w, "" if i == 0 else f"(with other values of the same configuration, {i})")
            return 1
    print("NOT-CONFIRMED every requirement holds")
    return 0


def batch(path):
    ok, bad = 0, []
    for f in json.load(open(path)):
        w = once(f)
        if w is None:
            ok += 1
        else:
            bad.append(f"{w}: {f['config']}")
    print(json.dumps(dict(ok=ok, bad=bad)))


if __name__ == "__main__":
    if sys.argv[1] == "check":
        check(*sys.argv[2:5])
    elif sys.argv[1] == "batch":
        batch(sys.argv[2])
    else:
        sys.exit(native(sys.argv[2]))
