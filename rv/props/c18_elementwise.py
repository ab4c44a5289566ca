"""C18: elementwise, indexing and construction results equal NumPy's."""
import logging
import operator
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
FLTS = ["f4", "f8"]
NUMS = INTS + FLTS


def size(r):
    return r.pick([0, 1, 2, r.int(3, 20), r.int(20, 70), r.int(70, 400), r.int(9000, 40000)], p=[.03, .06, .06, .35, .3, .16, .04])


def vals(r, n, dt, small=False):
    """values without a missing sentinel"""
    if dt == "b":
        return r.g.random(n) < .5
    if dt in INTS:
        ii = np.iinfo(dt)
        lo, hi = (-9, 9) if small else r.pick([(-5, 5), (-100, 100), (ii.min + 1, ii.max - 1), (1, 100)])
        return r.g.integers(max(lo, ii.min + 1 if ii.min else 0), min(hi, ii.max - 1), n, dtype=dt, endpoint=True)
    a = np.round(r.g.normal(0, 5 if small else r.pick([5, 50, 1e6]), n), r.int(0, 2)).astype(dt)
    if r.chance(.15) and not small:
        a[r.g.random(n) < .1] = np.inf
    return a


def lay(r, a):
    """the same values in some memory layout"""
    u = r.g.random()
    if u < .6 or not len(a):
        return rt.FastArray(a.copy())
    if u < .8:
        k = r.int(2, 3)
        big = np.repeat(a, k)
        big[1::k] = big[0]
        return big.view(rt.FastArray)[::k]
    if u < .9:
        return rt.FastArray(a[::-1].copy())[::-1]
    off = r.int(1, 3)
    return rt.FastArray(np.concatenate([a[:1]] * off + [a]))[off:]


def isfa(m, x, what):
    m.check(isinstance(x, rt.FastArray), what + ": a riptable array", got=type(x).__name__)


BIN = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "floordiv": operator.floordiv, "mod": operator.mod,
    "eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
    "and": operator.and_, "or": operator.or_, "xor": operator.xor, "pow": operator.pow,
}
UFUNC = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.true_divide, "floordiv": np.floor_divide, "mod": np.remainder, "eq": np.equal, "ne": np.not_equal,
         "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal, "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor, "pow": np.power}
CMP = ("eq", "ne", "lt", "le", "gt", "ge")


def close(m, got, e, what, **kw):
    g, e = plain(got), plain(e)
    if e.dtype.kind in "iub" and g.dtype.kind in "iub":
        m.same(g, e, what, **kw)
    else:
        with np.errstate(all="ignore"):
            m.close(g.astype("f8"), e.astype("f8"), what, rtol=2e-5 if "f4" in (g.dtype.str[1:], e.dtype.str[1:]) or g.dtype == np.float16 else 1e-9, atol=1e-30 if e.dtype == np.float64 else 1e-6, **kw)


@case(n=420)
def binary(m, r):
    op = r.pick(list(BIN))
    bit = op in ("and", "or", "xor")
    d1 = r.pick((INTS if bit else NUMS) + (["b"] if bit or op in CMP else []))
    d2 = d1 if r.chance(.4) else r.pick((INTS if bit else NUMS) + (["b"] if op in CMP else []))
    if bit and "u8" in (d1, d2) and d1 != d2:
        d2 = d1
    if bit and "b" in (d1, d2):
        d2 = d1
    n = size(r)
    small = op in ("pow", "mul", "mod", "floordiv")
    a, b = vals(r, n, d1, small), vals(r, n, d2, small)
    if op in ("mod", "floordiv"):
        # quarters divide exactly; integers stay positive for the remainder (see integer_division for the rest)
        a, b = (np.round(np.nan_to_num(x * 4)) / 4 if x.dtype.kind == "f" else (np.abs(x) if op == "mod" else x).astype(x.dtype) for x in (a, b))
        a, b = a.astype(d1), b.astype(d2)
    if op in ("truediv", "floordiv", "mod"):
        b = np.where(b == 0, 3, b).astype(b.dtype)
    if op == "pow":
        a = np.abs(a).astype(d1); b = (np.abs(b) % 3).astype(d2)
    form = r.pick(["arr", "arr", "scalar", "rscalar", "np", "one"])
    A, B = lay(r, a), lay(r, b)
    if form in ("scalar", "rscalar"):
        s = b[0].item() if len(b) else 3
        if d2 in INTS and d1 in INTS and r.chance(.7):
            s = int(r.pick([0, 1, -1, 2, 7, 100, 127, 200, 255, 256, -129, 1000, 70000, 2**31, 3.5, -0.5]) or 1)
            if op == "pow":
                s = abs(s) % 4
            if bit and (d1 == "u8" or d1[0] == "u") and s < 0:
                s = -s
        if op == "mod" and d1 in INTS:
            s = abs(int(s)) or 3
        if op in ("mod", "floordiv") and d1 in FLTS:
            s = round(s) or 3
        if op in ("mod", "floordiv", "truediv") and form == "rscalar":
            a = np.where(a == 0, 3, a).astype(d1)
            A = lay(r, a)
        b = s
        B = s
        if s == 0 and op in ("truediv", "floordiv", "mod"):
            b = B = 3
    elif form == "np":
        B = b.copy()
    elif form == "one" and n:
        b = b[:1]; B = rt.FastArray(b)
    f = BIN[op]
    m.note(op=op, d1=d1, d2=d2, n=n, form=form, a=a[:6], b=b[:6] if isinstance(b, np.ndarray) else b)
    try:
        e = f(b, a) if form == "rscalar" else f(a, b)
    except (TypeError, OverflowError, ValueError, ZeroDivisionError):
        return
    e = plain(e)
    if e.dtype.kind in "iu" and op in ("add", "sub", "mul", "pow") and not bit:
        # only results inside the common type are judged, and none equal to a sentinel
        ex = np.array([f(int(y), int(x)) if form == "rscalar" else f(int(x), int(y)) for x, y in zip(a.tolist(), (np.broadcast_to(b, n).tolist()))], dtype=object)
        if any(int(x) != int(y) for x, y in zip(ex.tolist(), e.tolist())):
            return
    if "u8" in (d1, d2) and d1 != d2 and any(x.dtype == np.uint64 and x.size and int(x.max()) > 2**62 for x in (a, np.atleast_1d(np.asarray(b)))):
        return  # no common type holds both
    if e.dtype == np.float16:
        return
    # the operator of an unsigned array with a scalar below -128 is a known finding (unsigned_negative); the ufunc is not
    if (d1[0] == "u" and form in ("scalar", "rscalar") and b < -128) or r.chance(.25):
        f = UFUNC.get(op, f)
    got, err = m.attempt(op, (lambda: f(B, A)) if form == "rscalar" else (lambda: f(A, B)))
    m.check(err is None, f"{d1} {op} {d2} ({form}) refused: {type(err).__name__} {str(err)[:80]}")
    isfa(m, got, op)
    m.check(plain(got).shape == e.shape, "shape", got=plain(got).shape, expected=e.shape)
    if op in CMP:
        m.check(plain(got).dtype == bool, "comparison gives booleans")
        if {d1[0], d2[0]} == {"i", "u"} or "u8" in (d1, d2) or "i8" in (d1, d2):
            big = any(abs(int(v)) > 2**52 for x in (a, np.atleast_1d(np.array(b))) if x.dtype.kind in "iu" and x.size for v in (x.min(), x.max()))
            if big and d1 != d2:
                return
    if e.dtype.kind == "f" and plain(got).dtype.kind in "iu":
        m.check(False, "float result expected", got=plain(got).dtype, expected=e.dtype)
    close(m, got, e, f"{d1} {op} {d2} ({form})", layout=(A.flags.contiguous, getattr(B, "flags", None) is None or B.flags.contiguous))
    m.same(plain(A), a, "left operand untouched")


@case(n=140)
def inplace(m, r):
    op, fn = r.pick([("+=", operator.iadd), ("-=", operator.isub), ("*=", operator.imul), ("/=", operator.itruediv), ("&=", operator.iand), ("|=", operator.ior), ("^=", operator.ixor), ("//=", operator.ifloordiv)])
    bit = op in ("&=", "|=", "^=")
    d1 = r.pick(FLTS if op == "/=" else (INTS + ["b"] if bit else NUMS))
    n = size(r)
    a, b = vals(r, n, d1, True), vals(r, n, d1, True)
    if op in ("/=", "//="):
        a, b = (np.round(x * 4) / 4 for x in (a, b)) if d1 in FLTS else (a, b)
        a = a.astype(d1)
        b = np.where(b == 0, 3, b).astype(d1)
    scalar = r.chance(.4) and d1 != "b"
    B = (b[0].item() if n else 1) if scalar else lay(r, b)
    bb = B if scalar else b
    A = lay(r, a)
    hold = A
    m.note(op=op, d=d1, n=n, scalar=scalar, contiguous=A.flags.contiguous, a=a[:6], b=bb if scalar else b[:6])
    e = a.copy()
    try:
        e = fn(e, bb)
    except Exception:
        return
    res = m.call(op, fn, A, B)
    close(m, res, e, f"{d1} {op}: value")
    close(m, hold, e, f"{d1} {op}: the array itself changed")
    m.check(plain(hold).dtype == a.dtype, f"{d1} {op}: dtype kept", got=plain(hold).dtype)


UN = ["abs", "negative", "floor", "ceil", "trunc", "round", "sqrt", "exp", "log", "log10", "sign", "isnan", "isfinite", "isinf", "logical_not", "invert", "rint", "square", "reciprocal", "sin", "tanh", "exp2", "log2", "cbrt"]


@case(n=200)
def unary(m, r):
    fn = r.pick(UN)
    dt = r.pick(INTS + ["b"] if fn == "invert" else (FLTS if fn in ("reciprocal", "sin", "tanh") else NUMS))
    n = size(r)
    a = vals(r, n, dt, True)
    if fn in ("sqrt", "log", "log10", "reciprocal", "log2"):
        a = (np.abs(a) + 1).astype(dt)
    if fn in ("round", "rint") and dt in FLTS and r.chance(.5):
        a = (np.round(a) + .5).astype(dt)                 # halves go to the even neighbour, wherever they lie
    if fn == "negative" and dt[0] == "u":
        return
    A = lay(r, a)
    m.note(fn=fn, dt=dt, n=n, contiguous=A.flags.contiguous, a=a[:8])
    e = getattr(np, fn)(a)
    if e.dtype == np.float16:
        return
    forms = [("np", lambda: getattr(np, fn)(A))]
    if fn in ("abs", "floor", "ceil", "trunc", "round", "log", "log10", "isnan", "isfinite", "isinf"):
        forms.append(("rt", lambda: getattr(rt, fn)(A)))
        if hasattr(A, fn):
            forms.append(("method", getattr(A, fn)))
    for tag, f in forms:
        got = m.call(f"{tag}.{fn}", f)
        isfa(m, got, f"{tag}.{fn}")
        close(m, got, e, f"{tag}.{fn}({dt})", contiguous=A.flags.contiguous)
    m.same(plain(A), a, "input untouched")


@case(n=60)
def rounding(m, r):
    dt = r.pick(FLTS + ["i4"])
    n = size(r)
    a = vals(r, n, dt, True)
    if dt != "i4":
        a = (a + r.g.choice([0, .5, .25, .125], n)).astype(dt)
    k = r.int(0, 3)
    A = lay(r, a)
    m.note(dt=dt, k=k, a=a[:8])
    e = np.round(a, k)
    for tag, f in (("rt", lambda: rt.round(A, k)), ("np", lambda: np.round(A, k)), ("method", lambda: A.round(k))):
        got = m.call(f"{tag}.round", f)
        g = plain(got).astype("f8")
        m.check(len(g) == n, "length")
        m.close(g * 10.0 ** k, np.rint(g * 10.0 ** k), f"{tag}.round({dt}, {k}): a multiple of the unit", rtol=1e-5, atol=1e-5)
        if k == 0 or dt == "i4":
            m.same(g, e.astype("f8"), f"{tag}.round({dt}, {k}): equals NumPy's")
        m.check(bool((np.abs(g - a.astype("f8")) <= .5 * 10.0 ** -k * (1 + 1e-4) + 1e-6).all()), f"{tag}.round({dt}, {k}): nearest multiple", got=g[:10], expected=e[:10])


@case(n=60)
def ufunc_args(m, r):
    """out=, where= and dtype= of NumPy ufuncs over riptable arrays"""
    dt = r.pick(["i4", "i8", "f4", "f8"])
    n = size(r)
    a, b = vals(r, n, dt, True), vals(r, n, dt, True)
    A, B = lay(r, a), lay(r, b)
    uf = r.pick([np.add, np.subtract, np.multiply, np.maximum, np.minimum, np.greater, np.equal])
    od = bool if uf in (np.greater, np.equal) else dt
    O = lay(r, np.zeros(n, od))
    m.note(uf=uf.__name__, dt=dt, n=n)
    res = m.call("out", uf, A, B, out=O)
    e = uf(a, b)
    close(m, O, e, f"{uf.__name__}(out=): target", contiguous=O.flags.contiguous)
    close(m, res, e, f"{uf.__name__}(out=): result")
    W = r.g.random(n) < .5
    O2 = np.full(n, 7 if od != bool else True, od).view(rt.FastArray)
    m.call("where", uf, A, B, out=O2, where=W)
    e2 = np.full(n, 7 if od != bool else True, od)
    uf(a, b, out=e2, where=W)
    close(m, O2, e2, f"{uf.__name__}(where=)")
    m.same(plain(A), a, "operands untouched")
    if od != bool:
        for meth in ("accumulate", "reduce"):
            if n:
                close(m, m.call(meth, getattr(uf, meth), A), getattr(uf, meth)(a), f"{uf.__name__}.{meth}")
        if n < 100:
            close(m, m.call("outer", uf.outer, A, B), uf.outer(a, b), f"{uf.__name__}.outer")


def index(r, n):
    """(riptable-side index, numpy-side index, description)"""
    k = r.pick(["int", "slice", "bool", "fancy", "list", "fancyfa", "ufancy", "boollist", "negfancy", "strided", "empty"])
    if k == "int":
        i = r.int(-n, n - 1)
        return i, i, k
    if k == "slice":
        s = slice(r.pick([None, r.int(-n, n)]), r.pick([None, r.int(-n - 2, n + 2)]), r.pick([None, 1, 2, -1, -2, 3]))
        return s, s, k
    if k in ("bool", "boollist"):
        f = r.g.random(n) < r.pick([0, .2, .5, .9, 1])
        if k == "boollist":
            return f.tolist(), f, k
        return (lay(r, f) if r.chance(.6) else f), f, k
    c = r.pick([0, 1, r.int(1, 30)])
    if k == "empty":
        c = 0
    i = r.g.integers(0, n, c).astype(r.pick(["i4", "i8", "i2" if n < 30000 else "i4", "i1" if n < 120 else "i4"]))
    if k == "list":
        return i.tolist() if c else [0], i if c else np.array([0]), k
    if k == "ufancy":
        i = i.astype("u1" if n <= 255 else "u4")
        return rt.FastArray(i), i, k
    if k == "negfancy":
        i = np.where(r.g.random(c) < .5, i - n, i).astype("i8")
    if k == "strided" and c:
        return np.repeat(i, 2).view(rt.FastArray)[::2], i, k
    return (rt.FastArray(i) if k != "fancy" else i), i, k


@case(n=320)
def reading(m, r):
    dt = r.pick(NUMS + ["b", "S", "U"])
    n = max(1, size(r))
    a = plain(gen.words(r, n, dt)) if dt in ("S", "U") else vals(r, n, dt)
    A = lay(r, a) if dt not in ("S", "U") else rt.FastArray(a, unicode=dt == "U")
    I, i, k = index(r, n)
    m.note(dt=dt, n=n, kind=k, index=i, contiguous=A.flags.contiguous)
    e = a[i]
    got = m.call("getitem", lambda: A[I])
    if np.ndim(e) == 0:
        m.check(gen.txt(got) == gen.txt(e.item() if hasattr(e, "item") else e) or got == e, f"{dt}[{k}]", got=got, expected=e)
    else:
        isfa(m, got, f"{dt}[{k}]")
        m.check(plain(got).dtype.kind == a.dtype.kind, "dtype kind", got=plain(got).dtype)
        m.same(got, e, f"{dt}[{k}]", contiguous=A.flags.contiguous)
    m.same(plain(A), a, "reading changes nothing")
    if np.ndim(e) == 1 and k not in ("slice",) and len(e) and dt not in ("b", "S", "U"):
        got[0] = 3
        m.same(plain(A), a, "a fancy read is a copy")


@case(n=320)
def writing(m, r):
    dt = r.pick(NUMS + ["b", "S", "U"])
    n = max(1, size(r))
    a = np.array(plain(gen.words(r, n, dt))) if dt in ("S", "U") else vals(r, n, dt, True)
    A = lay(r, a) if dt not in ("S", "U") else rt.FastArray(a.copy(), unicode=dt == "U")
    I, i, k = index(r, n)
    e = a.copy()
    tgt = e[i]
    if np.ndim(tgt) and len(np.atleast_1d(tgt)) != len(set(np.arange(n)[i].tolist() if np.ndim(np.arange(n)[i]) else [0])):
        i = I = np.unique(np.arange(n)[i])
    cnt = np.size(e[i])
    if dt in ("S", "U"):
        v = r.pick(["zz", "a", ""]) if r.chance(.5) or not cnt or np.ndim(e[i]) == 0 else np.array([r.pick(["q", "rr"]) for _ in range(cnt)], dtype=dt)
        v2 = v
        if isinstance(v, str) and dt == "S":
            v2 = v.encode()
    else:
        scalar = r.chance(.5) or np.ndim(e[i]) == 0
        d2 = dt if dt == "b" or r.chance(.6) else r.pick(["i4", "f8", "i8", "u1"])
        vv = vals(r, max(1, cnt), d2, True)
        if dt[0] == "u":
            vv = np.abs(vv)
        vv = vv.astype("i8") if dt in INTS and d2 in FLTS and r.chance(.5) else vv
        if dt in INTS and vv.dtype.kind == "f":
            vv = np.trunc(np.where(np.isfinite(vv), vv, 1))
        v = vv[0].item() if scalar else r.pick([vv[:cnt], lay(r, vv[:cnt]), vv[:cnt].tolist()])
        v2 = vv[0] if scalar else vv[:cnt]
    m.note(dt=dt, n=n, kind=k, index=i, value=v, contiguous=A.flags.contiguous)
    try:
        e[i] = v2.astype(e.dtype) if isinstance(v2, np.ndarray) and v2.ndim else v2
    except ValueError:
        return

    def put():
        A[I] = v
    m.call("setitem", put)
    m.same(plain(A), e, f"{dt}[{k}] = ", contiguous=A.flags.contiguous)


@case(n=100)
def selecting(m, r):
    """where and putmask"""
    dt = r.pick(NUMS + ["S", "U"])
    d2 = dt if dt in ("S", "U") or r.chance(.5) else r.pick(["i4", "f8", "i8", "i1", "f4"])
    n = size(r) or 1
    a = plain(gen.words(r, n, dt)) if dt in ("S", "U") else vals(r, n, dt)
    b = plain(gen.words(r, n, d2)) if d2 in ("S", "U") else vals(r, n, d2)
    if "u8" in (dt, d2) and dt != d2:
        b = b.astype("f8") if False else vals(r, n, "u8"); d2 = "u8"
    M = r.g.random(n) < r.pick([0, .3, .7, 1])
    A, B = (lay(r, a), lay(r, b)) if dt not in ("S", "U") else (rt.FastArray(a, unicode=dt == "U"), rt.FastArray(b, unicode=dt == "U"))
    MM = lay(r, M)
    m.note(dt=dt, d2=d2, n=n, M=M[:8], a=a[:6], b=b[:6])
    e = np.where(M, a, b)
    got = m.call("where", rt.where, MM, A, B)
    isfa(m, got, "where")
    close(m, got, e, f"where({dt},{d2})") if dt not in ("S", "U") else m.same(got, e, f"where({dt})")
    s = b[0]
    e = np.where(M, a, s)
    got = m.call("where", rt.where, MM, A, s if dt in ("S", "U") else s.item())
    close(m, got, e, f"where({dt},scalar)") if dt not in ("S", "U") else m.same(got, e, f"where({dt},scalar)")
    m.same(m.call("where1", rt.where, MM)[0], np.flatnonzero(M), "where(condition)")
    m.same(m.call("bool_to_fancy", rt.bool_to_fancy, MM), np.flatnonzero(M), "bool_to_fancy")
    both, cnt = m.call("bool_to_fancy", rt.bool_to_fancy, MM, both=True)
    m.check(int(cnt) == int(M.sum()), "bool_to_fancy(both): count", got=cnt)
    m.same(both, np.concatenate([np.flatnonzero(M), np.flatnonzero(~M)]), "bool_to_fancy(both)")
    if dt in NUMS:
        c = a.copy()
        C = lay(r, c)
        np.putmask(c, M, b.astype(dt) if d2 == dt else a[::-1].copy())
        m.call("putmask", rt.putmask, C, MM, B if d2 == dt else lay(r, a[::-1].copy()))
        m.same(plain(C), c, f"putmask({dt})", contiguous=C.flags.contiguous)
    m.same(plain(A), a, "inputs untouched")


@case(n=80)
def masks(m, r):
    n = size(r)
    k = r.int(1, 4)
    fs = [r.g.random(n) < .5 for _ in range(k)]
    FS = [lay(r, f) for f in fs]
    nm, f = r.pick([("or", np.logical_or), ("and", np.logical_and), ("xor", np.logical_xor), ("andnot", lambda x, y: x & ~y)])
    e = fs[0].copy()
    for x in fs[1:]:
        e = f(e, x)
    m.note(n=n, k=k, op=nm)
    got, err = m.attempt("mask_" + nm, getattr(rt, "mask_" + nm), *FS)
    if err is not None and n == 0:
        return
    m.check(err is None, f"mask_{nm} refused: {err}")
    m.same(got, e, f"mask_{nm}")
    for x, y in zip(FS, fs):
        m.same(plain(x), y, "inputs untouched")
    got = m.call(f"mask_{nm}(list)", getattr(rt, "mask_" + nm), FS)
    m.same(got, e, f"mask_{nm}(list)")
    m.call(f"mask_{nm}i", getattr(rt, f"mask_{nm}i"), *FS)
    m.same(plain(FS[0]), e, f"mask_{nm}i: first mask holds the result")
    for x, y in zip(FS[1:], fs[1:]):
        m.same(plain(x), y, "other masks untouched")


@case(n=80)
def clipping(m, r):
    dt = r.pick(NUMS)
    n = size(r)
    a = vals(r, n, dt, True)
    A = lay(r, a)
    lo, hi = sorted([r.int(0 if dt[0] == "u" else -8, 8), r.int(0, 9)])
    m.note(dt=dt, lo=lo, hi=hi, a=a[:8])
    close(m, m.call("clip", A.clip, lo, hi), np.clip(a, lo, hi), f"clip({dt})")
    close(m, m.call("clip_lower", A.clip_lower, lo), np.maximum(a, lo), f"clip_lower({dt})")
    close(m, m.call("clip_upper", A.clip_upper, hi), np.minimum(a, hi), f"clip_upper({dt})")
    il, ih = r.chance(.5), r.chance(.5)
    e = ((a >= lo) if il else (a > lo)) & ((a <= hi) if ih else (a < hi))
    m.same(m.call("between", A.between, lo, hi, include_low=il, include_high=ih), e, f"between({dt}, {il}, {ih})")
    los, his = vals(r, n, dt, True), vals(r, n, dt, True)
    e = (a >= los) & (a < his)
    m.same(m.call("between(arrays)", A.between, lay(r, los), lay(r, his)), e, f"between({dt}, arrays)")
    m.same(plain(A), a, "input untouched")


@case(n=60)
def interpolation(m, r):
    k = r.int(2, 12)
    xp = np.cumsum(r.g.random(k) + .1)
    fp = np.round(r.g.normal(0, 5, k), 2)
    n = size(r) or 1
    x = r.g.uniform(xp[0] - 2, xp[-1] + 2, n)
    if r.chance(.3):
        x[r.g.integers(0, n, min(3, n))] = xp[r.int(0, k - 1)]
    dt = r.pick(["f8", "f8", "f4"])
    x, xp, fp = x.astype(dt), xp.astype(dt), fp.astype(dt)
    X, XP, FP = lay(r, x), lay(r, xp), lay(r, fp)
    m.note(n=n, k=k, dt=dt, layout=(X.flags.contiguous, XP.flags.contiguous, FP.flags.contiguous))
    tol = dict(rtol=1e-3, atol=1e-3) if dt == "f4" else dict(rtol=1e-9, atol=1e-9)
    m.close(m.call("interp", rt.interp, X, XP, FP), np.interp(x, xp, fp), "interp", **tol)
    e = np.interp(x, xp, fp)
    lo, hi = x < xp[0], x > xp[-1]
    e = np.where(lo, fp[0] + (x - xp[0]) * (fp[1] - fp[0]) / (xp[1] - xp[0]), e)
    e = np.where(hi, fp[-1] + (x - xp[-1]) * (fp[-1] - fp[-2]) / (xp[-1] - xp[-2]), e)
    m.close(m.call("interp_extrap", rt.interp_extrap, X, XP, FP), e, "interp_extrap", **(tol if dt == "f8" else dict(rtol=1e-2, atol=1e-2)))
    m.same(plain(X), x, "inputs untouched")


def special(r, n):
    kind = r.pick(["date", "dtn", "span", "cat", "dspan"])
    return gen.column(r, n, kind if kind != "dspan" else "datespan"), kind


@case(n=100)
def rearranging(m, r):
    """reshape, repeat, tile, transpose, flatten, copies, take, searchsorted"""
    dt = r.pick(NUMS + ["b", "S"])
    n = size(r) or 1
    a = plain(gen.words(r, n, dt)) if dt == "S" else vals(r, n, dt)
    A = rt.FastArray(a) if dt == "S" else lay(r, a)
    k = r.int(0, 3)
    m.note(dt=dt, n=n, k=k, contiguous=A.flags.contiguous)
    if n * k < 50000:
        for tag, f in (("rt", lambda: rt.repeat(A, k)), ("method", lambda: A.repeat(k))):
            m.same(m.call(tag + ".repeat", f), np.repeat(a, k), f"{tag}.repeat")
        for tag, f in (("rt", lambda: rt.tile(A, k)), ("method", lambda: A.tile(k))):
            got = m.call(tag + ".tile", f)
            isfa(m, got, "tile")
            m.same(got, np.tile(a, k), f"{tag}.tile")
        c = r.g.integers(0, 4, n)
        m.same(m.call("repeat(counts)", rt.repeat, A, c), np.repeat(a, c), "repeat with counts")
    if n % 2 == 0:
        e = a.reshape(2, n // 2)
        got = m.call("reshape", A.reshape, 2, n // 2)
        m.same(got, e, "reshape")
        m.same(m.call("rt.reshape", rt.reshape, A, (2, n // 2)), e, "rt.reshape")
        m.same(m.call("transpose", rt.transpose, got), e.T, "transpose")
        m.same(m.call("flatten", got.flatten), a, "flatten")
        i, j = r.int(0, 1), r.int(0, max(0, n // 2 - 1))
        if n:
            m.same(got[i], e[i], "matrix row")
            m.same(got[:, j], e[:, j], "matrix column")
            m.same(got[:, ::2], e[:, ::2], "matrix slice")
            rows = r.g.integers(0, 2, 3)
            m.same(m.call("matrix fancy", lambda: got[rows]), e[rows], "matrix fancy rows")
            m.same(m.call("matrix fancy fa", lambda: got[rt.FastArray(rows)]), e[rows], "matrix fancy rows")
            bm = r.g.random(e.shape) < .5
            m.same(m.call("matrix bool", lambda: got[rt.FastArray(bm)]), e[bm], "matrix boolean")
    c = m.call("copy", A.copy)
    m.same(c, a, "copy")
    if dt != "S" and n:
        c[0] = 0 if a[0] else 1
        m.same(plain(A), a, "a copy shares nothing")
    i = r.g.integers(0, n, r.int(0, 20))
    m.same(m.call("take", A.take, i), a[i], "take")
    if dt != "b":
        s = np.sort(a)
        q = np.concatenate([a[:5], s[:3]])
        for side in ("left", "right"):
            m.same(m.call("searchsorted", rt.searchsorted, rt.FastArray(s), rt.FastArray(q), side=side), np.searchsorted(s, q, side), f"searchsorted({dt}, {side})")


@case(n=90)
def special_classes(m, r):
    """repeat, tile, slicing, fancy reads and copies keep dates, spans and Categoricals what they are"""
    n = r.int(1, 40)
    A, kind = special(r, n)
    lab = gen.decode(A)
    i = r.g.integers(0, n, r.int(1, 20))
    f = r.g.random(n) < .5
    k = r.int(1, 3)
    m.note(kind=kind, n=n)
    forms = {"slice": (lambda: A[1:], np.arange(n)[1:]), "stride": (lambda: A[::2], np.arange(n)[::2]), "fancy": (lambda: A[rt.FastArray(i)], i), "list": (lambda: A[i.tolist()], i), "bool": (lambda: A[rt.FastArray(f)], np.flatnonzero(f)),
             "copy": (lambda: A.copy(), np.arange(n)), "tile": (lambda: rt.tile(A, k), np.tile(np.arange(n), k)), "repeat": (lambda: rt.repeat(A, k), np.repeat(np.arange(n), k)), "rev": (lambda: A[::-1], np.arange(n)[::-1])}
    for nm, (fn, idx) in forms.items():
        got, err = m.attempt(f"{kind}.{nm}", fn)
        m.check(err is None, f"{kind}.{nm} refused: {type(err).__name__} {str(err)[:80]}")
        m.check(type(got) is type(A), f"{kind}.{nm}: class", got=type(got).__name__)
        m.same(gen.decode(got), lab[np.asarray(idx, dtype="i8")], f"{kind}.{nm}")


@case(n=70)
def building(m, r):
    dt = r.pick(NUMS + ["b"])
    n = r.pick([0, 1, r.int(2, 50)])
    m.note(dt=dt, n=n)
    for nm in ("zeros", "ones"):
        got = m.call(nm, getattr(rt, nm), n, dtype=dt)
        isfa(m, got, nm)
        m.check(plain(got).dtype == np.dtype(dt), f"{nm}: dtype")
        m.same(got, getattr(np, nm)(n, dt), nm)
    a = vals(r, n, dt)
    A = lay(r, a)
    for nm in ("zeros_like", "ones_like"):
        m.same(m.call(nm, getattr(rt, nm), A), getattr(np, nm)(a), nm)
    v = vals(r, 1, dt)[0]
    m.same(m.call("full", rt.full, n, v.item(), dtype=dt), np.full(n, v, dt), "full")
    m.same(m.call("np.full_like", np.full_like, A, v.item()), np.full_like(a, v), "full_like")
    s, e, st = r.int(-10, 10), r.int(-10, 30), r.pick([1, 2, 3, -1, .5, 1.25])
    m.close(m.call("arange", rt.arange, s, e, st), np.arange(s, e, st), "arange")
    m.same(m.call("arange1", rt.arange, abs(e)), np.arange(abs(e)), "arange(n)")
    for src in (a.tolist(), tuple(a.tolist()), a, A, a[::-1][::-1]):
        if not len(a):
            break
        got = m.call("FastArray", rt.FastArray, src)
        m.close(plain(got).astype("f8"), a.astype("f8"), f"FastArray({type(src).__name__})")
    got = m.call("FastArray(dtype)", rt.FastArray, a.tolist(), dtype=dt)
    m.check(plain(got).dtype == np.dtype(dt), "asked dtype", got=plain(got).dtype)
    m.same(got, a, "FastArray(list, dtype)")
    c = m.call("FastArray(copy)", rt.FastArray, a.copy())
    w = [str(x) for x in gen.words(r, n, "S")] if n else []
    if n:
        got = m.call("FastArray(str)", rt.FastArray, list(map(gen.txt, w)))
        m.same(gen.decode(got), list(map(gen.txt, w)), "FastArray of strings")
    d2 = r.pick(NUMS)
    b = vals(r, n, dt, True)
    lo = np.abs(b)
    got = m.call("astype", lay(r, lo).astype, d2)
    m.close(plain(got).astype("f8"), lo.astype("f8").astype(d2).astype("f8"), f"astype({dt}->{d2})")
    isfa(m, got, "astype")


@case(n=40)
def bits(m, r):
    dt = r.pick(INTS)
    n = size(r)
    a = vals(r, n, dt)
    A = lay(r, a)
    w = np.dtype(dt).itemsize * 8
    e = np.array([bin(int(x) & ((1 << w) - 1)).count("1") for x in a.tolist()], dtype="i8")
    m.same(m.call("bitcount", rt.bitcount, A), e, f"bitcount({dt})", contiguous=A.flags.contiguous)
    if n:
        m.check(int(rt.bitcount(int(abs(int(a[0]))))) == bin(abs(int(a[0]))).count("1"), "bitcount of a number")


@case(n=50)
def strings(m, r):
    """concatenation and comparison of string arrays"""
    k = r.pick(["S", "U"])
    n = r.int(1, 60)
    a, b = plain(gen.words(r, n, k)), plain(gen.words(r, n, k))
    A, B = rt.FastArray(a, unicode=k == "U"), rt.FastArray(b, unicode=k == "U")
    m.note(k=k, n=n, a=a[:5], b=b[:5])
    m.same(m.call("add", operator.add, A, B), np.char.add(a, b), f"{k} + {k}")
    m.same(m.call("add scalar", operator.add, A, "_x"), np.char.add(a, b"_x" if k == "S" else "_x"), f"{k} + text")
    m.same(m.call("radd", lambda: "x_" + A), np.char.add(b"x_" if k == "S" else "x_", a), f"text + {k}")
    for nm in CMP:
        m.same(m.call(nm, BIN[nm], A, B), BIN[nm](a, b), f"{k} {nm} {k}")
        t = gen.txt(a[0])
        m.same(m.call(nm, BIN[nm], A, t), BIN[nm](a, t.encode() if k == "S" else t), f"{k} {nm} text")


@case(n=4)
def integer_division(m, r):
    """quotient and remainder of integers, the divisor being zero or negative included (in a child process: the kernel may take the interpreter with it)"""
    import os
    import subprocess
    import sys
    what = [("negative remainder", "rt.FA([-7, 7, -7]) % rt.FA([3, -3, -3])", "np.array([-7, 7, -7]) % np.array([3, -3, -3])", "integer-mod-sign"),
            ("remainder by zero", "rt.FA([5, 6, 7]) % rt.FA([0, 2, 0])", "np.array([5, 6, 7]) % np.array([0, 2, 0])", "integer-mod-zero-kills"),
            ("missing // -1", "rt.FA([-2**63, 6]) // -1", "np.array([-2**63, 6]) // -1", "integer-floordiv-minint-kills"),
            ("quotient by zero", "rt.FA([5, 6, 7]) // rt.FA([0, 2, 0])", "np.array([5, 6, 7]) // np.array([0, 2, 0])", None)][m.idx % 4]
    nm, a, b, mech = what
    src = f"import sys; sys.path.insert(0, {os.path.dirname(os.path.dirname(rt.__file__))!r})\nimport warnings; warnings.simplefilter('ignore')\nimport numpy as np, riptable as rt\nprint(list(np.array({a})), list({b}))"
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", src], capture_output=True, text=True, cwd="/", timeout=300)
    m.note(what=nm)
    m.check(p.returncode == 0, f"{nm}: the interpreter survives", mech=mech, returncode=p.returncode, stderr=p.stderr[-200:])
    out = p.stdout.strip().splitlines()[-1]
    h = len(out) // 2
    m.check(out[:h] == out[h + 1:], f"{nm}: as NumPy", mech=mech, got=out[:h], expected=out[h + 1:])


@case(n=12)
def unsigned_negative(m, r):
    """operators of an unsigned array and a negative number"""
    dt = r.pick(["u1", "u2", "u4", "u8"])
    a = r.g.integers(0, 100, r.int(1, 20)).astype(dt)
    s = [-1, -5, -128, -129, -1000, -70000][m.idx % 6]
    for op in ("add", "sub", "truediv", "lt", "ge", "eq"):
        m.note(dt=dt, op=op, s=s)
        got = m.call(op, BIN[op], rt.FastArray(a), s)
        m.close(plain(got).astype("f8"), BIN[op](a.astype("f8"), s).astype("f8"), f"{dt} {op} negative number", mech="unsigned-with-negative-scalar" if s < -128 else None)
