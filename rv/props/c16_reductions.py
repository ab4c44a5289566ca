"""C16: array and Dataset reductions equal their mathematical definition."""
import logging
import math
import warnings
from fractions import Fraction
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
FLTS = ["f4", "f8"]


def size(r):
    return r.pick([1, 2, r.int(3, 20), r.int(20, 70), r.int(70, 500), r.int(9000, 40000)], p=[.06, .07, .37, .3, .16, .04])


def make(r, n, dt, miss):
    """values whose exact sums stay below 2**53, and a missing mask"""
    z = r.g.random(n) < (r.pick([.1, .3, .8, 1.0], p=[.4, .4, .15, .05]) if miss else 0)
    if dt == "b":
        return np.asarray(r.g.random(n) < r.pick([0, .1, .5, .9, 1])), np.zeros(n, bool)
    if dt in INTS:
        ii = np.iinfo(dt)
        cap = 2**50 // max(n, 1)
        lo, hi = r.pick([(-5, 5), (-100, 100), (ii.min + 1, ii.max - 1), (-10**6, 10**6)])
        lo, hi = max(lo, ii.min + 1 if ii.min else 0, -cap), min(hi, ii.max - 1, cap)
        a = r.g.integers(lo, hi, n, dtype=dt, endpoint=True)
        a[z] = gen.invalid(dt)
        return a, z
    a = np.round(r.g.normal(r.pick([0, 0, 1000]), 50, n), 2).astype(dt)
    if r.chance(.2):
        a = np.round(a)
    a[z] = np.nan
    return a, z


def arr(r, a):
    """the same values as a contiguous, strided or reversed riptable array"""
    u = r.g.random()
    if u < .7 or not len(a):
        return rt.FastArray(a)
    k = r.int(2, 3)
    big = np.repeat(a, k)
    if k > 1:
        big[1::k] = a[0] if r.chance(.5) else 0
    v = big.view(rt.FastArray)
    return v[::k] if u < .9 else rt.FastArray(big[::k][::-1].copy())[::-1]


def py(a):
    return [Fraction(x) for x in a.tolist()] if a.dtype.kind != "b" else [Fraction(int(x)) for x in a.tolist()]


def expect(fn, vals, ddof=1):
    """value over the participating elements, exactly, as float/int; None where undefined"""
    n = len(vals)
    if fn == "sum":
        return sum(vals, Fraction(0))
    if fn == "min":
        return min(vals) if n else None
    if fn == "max":
        return max(vals) if n else None
    if fn == "mean":
        return sum(vals, Fraction(0)) / n if n else None
    if n - ddof <= 0:
        return None
    mu = sum(vals, Fraction(0)) / n
    v = sum(((x - mu) ** 2 for x in vals), Fraction(0)) / (n - ddof)
    return math.sqrt(v) if fn == "std" else v


def expect_fast(fn, a, ddof=1):
    """large arrays: float128 accumulation for floats, int64 exact for ints"""
    if a.dtype.kind in "iub":
        w = a.astype(np.int64)
        s = int(w.sum())
    else:
        w = a.astype(np.longdouble)
        s = w.sum()
    n = len(a)
    if fn == "sum":
        return s
    if fn in ("min", "max"):
        return (getattr(w, fn)() if a.dtype.kind != "u" else getattr(a, fn)()) if n else None
    if fn == "mean":
        return float(w.astype(np.longdouble).sum() / n) if n else None
    if n - ddof <= 0:
        return None
    w = w.astype(np.longdouble)
    v = ((w - w.mean()) ** 2).sum() / (n - ddof)
    return float(np.sqrt(v) if fn == "std" else v)


def define(fn, a, ddof=1):
    return expect(fn, py(a), ddof) if len(a) <= 600 else expect_fast(fn, a, ddof)


def is_missing_scalar(x, dt):
    x = plain(x)
    if x.dtype.kind == "f":
        return bool(np.isnan(x))
    return int(x) in (gen.invalid(dt) if dt in INTS else 0, gen.invalid(x.dtype.str[1:]) if x.dtype.kind in "iu" else 0)


def judge(m, got, exp, dt, what, scale=1.0):
    g = plain(got)
    m.check(g.shape == (), what + ": not a scalar", got=got)
    if exp is None:
        m.check(is_missing_scalar(got, dt), what + ": no elements take part, result not missing", got=got)
        return
    if g.dtype.kind in "iub" and (isinstance(exp, int) or (isinstance(exp, Fraction) and exp.denominator == 1)):
        m.check(int(got) == int(exp), what + ": wrong value", got=got, expected=int(exp))
        return
    tol = 1e-9 if dt != "f4" else 2e-5
    e = float(exp)
    m.check(abs(float(g) - e) <= tol * max(abs(e), scale), what + ": wrong value", got=got, expected=e)


def forms(r, A, fn):
    """function, method and NumPy spelling of one reduction"""
    out = [("method", getattr(A, fn))]
    if hasattr(rt, fn):
        out.append(("rt", lambda **kw: getattr(rt, fn)(A, **kw)))
    out.append(("np", lambda **kw: getattr(np, fn)(A, **kw)))
    return out


def scale_of(a):
    if not len(a):
        return 1.0
    with np.errstate(all="ignore"):
        w = a.astype(float)
        w = w[np.isfinite(w)]
        return float(np.abs(w).max()) if len(w) else 1.0


@case(n=260)
def scalar(m, r):
    """whole-array reductions, every spelling, contiguous and strided"""
    dt = r.pick(INTS + FLTS + ["b"])
    n = size(r)
    nanform = r.chance(.6)
    a, z = make(r, n, dt, nanform)
    A = arr(r, a)
    base = r.pick(["sum", "mean", "min", "max", "var", "std"])
    m.note(dt=dt, n=n, fn=base, nan=nanform, contiguous=A.flags.contiguous, head=a[:8])
    keep = a[~z]
    exp = define(base, keep)
    sc = scale_of(keep) * (max(1, len(keep)) if base == "sum" else 1)
    if base in ("var", "std"):
        sc = sc ** 2 if base == "var" else sc
    fn = ("nan" if nanform else "") + base
    for tag, f in forms(r, A, fn):
        if tag == "np" and nanform and dt in INTS and (base in ("var", "std") or not A.flags.contiguous):
            continue                      # NumPy's own function, which knows no integer sentinel
        if exp is None and len(keep) == 0:
            got, e = m.attempt(f"{tag}.{fn}", f)
            if e is None and got is not None:
                m.check(is_missing_scalar(got, dt) or fn in ("nanmin", "nanmax"), f"{tag}.{fn}: nothing takes part, result not missing", got=got)
            continue
        if exp is None and base in ("var", "std"):
            got, e = m.attempt(f"{tag}.{fn}", f)
            if e is None:
                m.check(is_missing_scalar(got, "f8") or float(got) == 0, f"{tag}.{fn}: one element", got=got)
            continue
        got = m.call(f"{tag}.{fn}", f)
        e = define(base, keep, 0) if tag == "np" and base in ("var", "std") else exp   # NumPy's ddof default
        judge(m, got, e, dt, f"{tag}.{fn}({dt})", sc)
        if base in ("min", "max") and tag == "method" and dt != "b":
            m.check(plain(got).dtype == np.dtype(dt), f"{fn}: dtype", got=plain(got).dtype)
    m.same(plain(A), a, "reductions left the array alone")


@case(n=24)
def large_values(m, r):
    """large magnitudes in arrays long enough for the threaded kernels"""
    dt = r.pick(["i4", "u4", "i8", "f8", "f4"])
    n = r.pick([32767, 32768, 32769, r.int(33000, 80000)])
    sc = float(r.pick([2.0**20, 2.0**26, 2.0**30, 2.0**40]))
    if dt[1] == "4" and dt[0] != "f":
        sc = min(sc, 2.0**30)
    w = np.round((r.g.random(n) * 2 - (0 if dt[0] == "u" else 1)) * sc)
    z = r.g.random(n) < r.pick([0, .1])
    a = w.astype(dt)
    a[z] = gen.invalid(dt) if dt in INTS else np.nan
    A = arr(r, a)
    m.note(dt=dt, n=n, scale=sc)
    keep = a[~z]
    for base in ("mean", "var", "std", "min", "max"):
        fn = "nan" + base if z.any() else base
        for tag, f in forms(r, A, fn)[:2]:
            judge(m, m.call(f"{tag}.{fn}", f), expect_fast(base, keep), dt, f"{tag}.{fn}({dt}, large)", sc ** (2 if base == "var" else 1))


@case(n=80)
def nan_spreads(m, r):
    """the plain forms over floats with NaN give NaN"""
    dt = r.pick(FLTS)
    n = size(r)
    a, z = make(r, n, dt, True)
    A = arr(r, a)
    for fn in r.subset(["sum", "mean", "var", "std", "min", "max"], 2):
        if not z.any():
            continue
        for tag, f in forms(r, A, fn):
            if tag == "np" and fn in ("var", "std") and n < 2:
                continue
            got = m.call(f"{tag}.{fn}", f)
            m.check(np.isnan(float(got)), f"{tag}.{fn} of an array with NaN", got=got, a=a[:10])


@case(n=100)
def position(m, r):
    dt = r.pick(INTS + FLTS)
    n = size(r)
    nan = r.chance(.6)
    a, z = make(r, n, dt, nan)
    if r.chance(.4) and n > 2:      # ties: the first one counts
        a[r.g.integers(0, n, n // 2)] = a[0]
        z = gen.is_inv(a) if nan else z
    A = arr(r, a)
    m.note(dt=dt, n=n, nan=nan, head=a[:8])
    for which in ("argmin", "argmax"):
        fn = ("nan" if nan else "") + which
        idx = np.flatnonzero(~z)
        for tag, f in forms(r, A, fn):
            if tag == "np" and nan and dt in INTS and not A.flags.contiguous:
                continue
            if not len(idx):
                got, e = m.attempt(f"{tag}.{fn}", f)
                continue
            got = m.call(f"{tag}.{fn}", f)
            v = a[idx]
            best = v.min() if which == "argmin" else v.max()
            first = int(idx[np.flatnonzero(v == best)[0]])
            m.check(int(got) == first, f"{tag}.{fn}({dt})", got=got, expected=first)


@case(n=90)
def ddof_arg(m, r):
    dt = r.pick(INTS + FLTS)
    n = r.int(4, 60)
    nan = r.chance(.6)
    a, z = make(r, n, dt, nan)
    A = arr(r, a)
    dd = r.int(0, 2)
    keep = a[~z]
    m.note(dt=dt, ddof=dd, nan=nan, head=a[:8])
    if len(keep) <= dd + 1:
        return
    for base in ("var", "std"):
        fn = ("nan" if nan else "") + base
        exp = define(base, keep, dd)
        sc = scale_of(keep) ** (2 if base == "var" else 1)
        for tag, f in forms(r, A, fn):
            if tag == "np":
                if nan and dt in INTS:
                    continue
            got = m.call(f"{tag}.{fn}(ddof)", f, ddof=dd)
            judge(m, got, exp, dt, f"{tag}.{fn}({dt}, ddof={dd})", sc)


@case(n=60)
def dtype_arg(m, r):
    dt = r.pick(INTS + FLTS)
    n = size(r)
    nan = r.chance(.5)
    a, z = make(r, n, dt, nan)
    A = arr(r, a)
    keep = a[~z]
    if len(keep) < 2:
        return
    t = r.pick([np.float32, np.float64])
    base = r.pick(["mean", "var", "std", "nansum"])
    fn = base if base == "nansum" else ("nan" if nan else "") + base
    exp = define(base.replace("nan", ""), keep)
    sc = scale_of(keep) ** (2 if base == "var" else 1) * (len(keep) if base == "nansum" else 1)
    m.note(dt=dt, fn=fn, t=t.__name__, head=a[:8])
    for tag, f in forms(r, A, fn)[:2]:
        got = m.call(f"{tag}.{fn}(dtype)", f, dtype=t)
        m.check(plain(got).dtype == t, "result dtype", got=plain(got).dtype)
        judge(m, got, exp, "f4", f"{tag}.{fn}(dtype={t.__name__})", sc)


@case(n=32)
def filter_arg(m, r):
    dt = r.pick(["i4", "f8"] if r.chance(.8) else ["u1", "i8"])
    n = size(r)
    nan = r.chance(.5)
    a, z = make(r, n, dt, nan)
    A = arr(r, a)
    F = r.g.random(n) < r.pick([.2, .5, .9, 1])
    base = r.pick(["mean", "var", "std", "nansum"])
    fn = base if base == "nansum" else ("nan" if nan else "") + base
    if base == "nansum":
        pass
    keep = a[~z & F]
    m.note(dt=dt, fn=fn, n=n, F=F[:8], head=a[:8])
    if len(keep) < 2:
        return
    exp = define(base.replace("nan", ""), keep)
    sc = scale_of(keep) ** (2 if base == "var" else 1) * (len(keep) if base == "nansum" else 1)
    FF = r.pick([F, rt.FastArray(F)])
    for tag, f in forms(r, A, fn)[:2]:
        got = m.call(f"{tag}.{fn}(filter)", f, filter=FF)
        judge(m, got, exp, dt, f"{tag}.{fn}({dt}, filter)", sc)
    m.check(m.attempt("badfilter", getattr(A, fn), filter=np.ones(n + 1, bool))[1] is not None, "filter of another length is refused")


@case(n=110)
def matrix(m, r):
    """two-dimensional arrays: axis 0, 1, none"""
    dt = r.pick(INTS + FLTS)
    nan = r.chance(.4)
    nr, nc = r.int(1, 8), r.int(1, 8)
    a, z = make(r, nr * nc, dt, nan)
    a, z = a.reshape(nr, nc), z.reshape(nr, nc)
    if r.chance(.3):
        a, z = np.asfortranarray(a), np.asfortranarray(z)
    A = rt.FastArray(a)
    base = r.pick(["sum", "mean", "min", "max", "var", "std"])
    fn = ("nan" if nan else "") + base
    ax = r.pick([0, 1, -1, None])
    m.note(dt=dt, fn=fn, axis=ax, shape=a.shape)
    keep = a[~z]
    sc = scale_of(keep) ** (2 if base == "var" else 1) * (a.size if base == "sum" else 1)
    kw = {} if ax is None else {"axis": ax}
    for tag, f in forms(r, A, fn):
        if tag == "np" and base in ("var", "std"):
            kw2 = dict(kw, ddof=1)
        else:
            kw2 = kw
        if tag == "np" and nan and dt in INTS:
            continue
        if tag == "np" and ax is not None and r.chance(.5) and base not in ("var", "std"):
            got, e = m.attempt(f"np.{fn}(a, {ax})", getattr(np, fn), A, ax)
        else:
            got, e = m.attempt(f"{tag}.{fn}", f, **kw2)
        lines = [(None, a, z)] if ax is None else [((j, a[:, j], z[:, j]) if ax == 0 else (j, a[j], z[j])) for j in range(nc if ax == 0 else nr)]
        undefined = any((~zz).sum() < (2 if base in ("var", "std") else 1) for _, _, zz in lines)
        if e is not None:
            if not undefined:
                m.check(False, f"{tag}.{fn}(axis={ax}) refused: {type(e).__name__} {str(e)[:100]}")
            continue
        g = plain(got)
        if ax is None:
            if not undefined:
                judge(m, got, define(base, keep), dt, f"{tag}.{fn}({dt} matrix)", sc)
            continue
        m.check(g.shape == (len(lines),), f"{tag}.{fn}(axis={ax}): shape", got=g.shape, expected=len(lines))
        for j, line, zz in lines:
            k = line[~zz]
            if len(k) < (2 if base in ("var", "std") else 1):
                continue
            judge(m, g[j], define(base, k), dt, f"{tag}.{fn}({dt}, axis={ax})", sc)


def pct(vals, q):
    """linear-interpolation quantile from the definition"""
    s = sorted(vals)
    h = (len(s) - 1) * Fraction(q)
    lo = math.floor(h)
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * (h - lo)


@case(n=120)
def order_stats(m, r):
    """median, quantile, percentile and their missing-skipping forms"""
    dt = r.pick(INTS + FLTS)
    n = r.int(1, 80)
    nan = r.chance(.6)
    a, z = make(r, n, dt, nan)
    A = arr(r, a)
    keep = a[~z]
    p = "nan" if nan else ""
    if dt in INTS[:4]:          # NumPy's own interpolation wraps when two neighbours are further apart than the type's range
        a = np.where(z, a, a // 4).astype(dt)
        keep = a[~z]
        A = arr(r, a)
    m.note(dt=dt, n=n, nan=nan, head=a[:8])
    if not len(keep):
        return
    v = py(keep)
    sc = scale_of(keep)
    med = pct(v, Fraction(1, 2))
    for tag, f in forms(r, A, p + "median")[:2]:
        judge(m, m.call(f"{tag}.{p}median", f), med, dt, f"{tag}.{p}median({dt})", sc)
    q = r.pick([0, .1, .25, .5, .75, .9, 1, .333])
    e = float(pct(v, Fraction(q)))
    e100 = float(pct(v, Fraction(q) ))
    tol = dict(rtol=1e-6, atol=1e-5 * max(1, sc))
    got = plain(m.call(p + "quantile", getattr(A, p + "quantile"), q=q)).ravel()
    m.close(got, [e], f"{p}quantile({dt}, {q})", **tol)
    got = plain(m.call(p + "percentile", getattr(A, p + "percentile"), q=q * 100)).ravel()
    m.close(got, [e100], f"{p}percentile({dt}, {q})", **tol)
    got = plain(m.call("rt." + p + "percentile", getattr(rt, p + "percentile"), A, q * 100)).ravel()
    m.close(got, [e100], f"rt.{p}percentile({dt}, {q})", **tol)
    m.same(plain(A), a, "order statistics left the array alone")


@case(n=60)
def truth(m, r):
    dt = r.pick(INTS + FLTS + ["b"])
    n = r.pick([0, 1, r.int(2, 60)])
    a, _ = make(r, n, dt, False)
    if r.chance(.6) and n:
        a[r.g.random(n) < r.pick([.3, .9, 1])] = 0
    A = arr(r, a)
    m.note(dt=dt, a=a[:10])
    for fn in ("any", "all"):
        e = bool(getattr(np, fn)(a != 0))
        for tag, f in forms(r, A, fn):
            m.check(bool(m.call(f"{tag}.{fn}", f)) == e, f"{tag}.{fn}({dt})", expected=e)


@case(n=60)
def pairwise(m, r):
    """rt.min/rt.max/fmin/fmax over two arrays are elementwise"""
    dt, d2 = r.pick(INTS + FLTS), r.pick(INTS[:4] + FLTS)
    if dt == "u8":
        d2 = "u8"
    n = r.int(1, 60)
    a, _ = make(r, n, dt, False)
    b, _ = make(r, n, d2, False)
    A, B = arr(r, a), arr(r, b)
    for nm, e in (("min", np.minimum(a, b)), ("max", np.maximum(a, b)), ("minimum", np.minimum(a, b)), ("maximum", np.maximum(a, b))):
        m.close(m.call("rt." + nm, getattr(rt, nm), A, B), e, f"rt.{nm}({dt},{d2})", rtol=1e-6)


@case(n=70)
def dates(m, r):
    """min/max of dates, date-times, spans skip nothing they should not, keep the class"""
    kind = r.pick(["date", "dtn", "span", "dspan"])
    n = r.int(1, 60)
    z = r.g.random(n) < r.pick([0, .3])
    if kind == "date":
        a = r.g.integers(1, 40000, n).astype("i4"); a[z] = r.pick([0, np.iinfo("i4").min]); A = rt.Date(a)
    elif kind == "dtn":
        a = r.g.integers(10**15, 2 * 10**18, n); a[z] = r.pick([0, np.iinfo("i8").min]); A = rt.DateTimeNano(a, from_tz="GMT", to_tz="GMT")
    elif kind == "span":
        a = np.round(r.g.normal(0, 1e13, n)); a[z] = np.nan; A = rt.TimeSpan(a)
    else:
        a = r.g.integers(-500, 500, n).astype("i4"); a[z] = np.iinfo("i4").min; A = rt.DateSpan(a)
    keep = a[~z]
    m.note(kind=kind, n=n, z=int(z.sum()))
    if not len(keep):
        return
    for fn in ("nanmin", "nanmax", "min", "max"):
        if z.any() and not fn.startswith("nan"):
            continue
        got = m.call(f"{kind}.{fn}", getattr(A, fn))
        e = keep.min() if "min" in fn else keep.max()
        g = plain(got).ravel()
        m.check(float(g[0]) == float(e), f"{kind}.{fn}", got=g, expected=e)
        m.check(type(got).__name__.startswith(type(A).__name__), f"{kind}.{fn}: class", got=type(got).__name__)
    if kind == "span" and not z.any():
        m.close(plain(m.call("span.sum", A.sum)).ravel(), [keep.sum()], "TimeSpan.sum", rtol=1e-9, atol=1e6)
        m.close(plain(m.call("span.mean", A.mean)).ravel(), [keep.mean()], "TimeSpan.mean", rtol=1e-9, atol=1e6)
        m.close(plain(m.call("span.std", A.std)).ravel(), [keep.std(ddof=1)] if n > 1 else [np.nan], "TimeSpan.std", rtol=1e-9, atol=1e6) if n > 1 else None
        m.close(plain(m.call("span.median", A.median)).ravel(), [np.median(keep)], "TimeSpan.median", rtol=1e-9, atol=1e3)
    if kind == "span":
        m.close(plain(m.call("span.nansum", A.nansum)).ravel(), [keep.sum()], "TimeSpan.nansum", rtol=1e-9, atol=1e6)
        m.close(plain(m.call("span.nanmean", A.nanmean)).ravel(), [keep.mean()], "TimeSpan.nanmean", rtol=1e-9, atol=1e6)
        m.close(plain(m.call("span.nanmedian", A.nanmedian)).ravel(), [np.median(keep)], "TimeSpan.nanmedian", rtol=1e-9, atol=1e3)


@case(n=130)
def dataset(m, r):
    """by column, by row and overall, next to columns that are not numbers"""
    n = r.int(2, 40)
    k = r.int(1, 4)
    nan = r.chance(.5)
    same_dt = r.pick([None, "f8", "i4"])
    cols, raw = {}, {}
    for j in range(k):
        a, z = make(r, n, same_dt or r.pick(["i1", "i4", "i8", "u1", "f4", "f8", "i2"]), nan)
        cols[f"c{j}"] = arr(r, a); raw[f"c{j}"] = (a, z)
    other = r.chance(.4)
    if other:
        items = list(cols.items())
        items.insert(r.int(0, len(items)), ("s", gen.words(r, n, "S")))
        cols = dict(items)
    D = rt.Dataset(cols)
    base = r.pick(["sum", "mean", "min", "max", "var", "std", "median"])
    fn = ("nan" if nan else "") + base
    ax = r.pick([0, 0, 1, None])
    need = 2 if base in ("var", "std") else 1
    m.note(n=n, fn=fn, axis=ax, dts=[v[0].dtype.str for v in raw.values()], other=other)
    before = gen.snap(D)

    def val(vals):
        return pct(vals, Fraction(1, 2)) if base == "median" else expect(base, vals)
    sc = max(scale_of(a[~z]) for a, z in raw.values()) ** (2 if base == "var" else 1) * (n * k if base == "sum" else 1)
    mixed = "f4" if any(a.dtype == np.float32 for a, z in raw.values()) else "f8"
    if ax == 0:
        asd = r.chance(.7)
        fv = r.pick([None, 7]) if other else None
        deffill = False
        if asd and fv is None and r.chance():
            deffill = fn in ("min", "max", "nanmin", "nanmax")      # these reduce the strings too unless told otherwise
            got = m.call("ds." + fn, getattr(D, fn))
        else:
            got = m.call("ds." + fn, getattr(D, fn), axis=0, as_dataset=asd, fill_value=fv)
        m.check(isinstance(got, rt.Dataset) == asd, f"ds.{fn}: a {type(got).__name__}")
        exp_names = [c for c in D.keys() if c != "s" or fv is not None or deffill]
        m.check(list(got.keys()) == exp_names, f"ds.{fn}: columns", got=list(got.keys()), expected=exp_names)
        for c, (a, z) in raw.items():
            v = a[~z]
            if len(v) < need:
                continue
            judge(m, plain(got[c]).ravel()[0], val(py(v)), a.dtype.str[1:], f"ds.{fn}(axis=0) of {a.dtype}", sc)
        if fv is not None:
            m.check(int(plain(got["s"]).ravel()[0]) == 7, "fill value", got=got["s"])
        elif deffill and "s" in cols:
            w = [bytes(x) for x in plain(D["s"]).tolist()]
            e = (min if base == "min" else max)(w)
            m.check(bytes(plain(got["s"]).ravel()[0]) == e, f"ds.{fn}: of the strings", got=got["s"], expected=e)
    elif ax == 1:
        if nan and len({a.dtype for a, z in raw.values()}) > 1:
            return
        if any(a.dtype.kind in "iu" for a, z in raw.values()) and nan:
            return                 # the matrix view is a plain NumPy matrix
        got = plain(m.call("ds." + fn, getattr(D, fn), axis=1, fill_value=None))
        m.check(got.shape == (n,), f"ds.{fn}(axis=1): one value per row", got=got.shape)
        for i in range(n):
            v = [Fraction(x) for a, z in raw.values() for x in [a[i].item()] if not z[i]]
            if len(v) < need:
                continue
            judge(m, got[i], val(v), mixed, f"ds.{fn}(axis=1)", sc)
    else:
        if other or nan:
            return
        got = m.call("ds." + fn, getattr(D, fn), axis=None)
        v = [x for a, z in raw.values() for x in py(a[~z])]
        judge(m, got, val(v), mixed, f"ds.{fn}(axis=None)", sc)
    d = gen.snap_diff(before, gen.snap(D))
    m.check(d is None, "reduction left the Dataset alone", diff=d)


@case(n=60)
def dataset_truth(m, r):
    n, k = r.int(1, 20), r.int(1, 4)
    cols = {}
    for j in range(k):
        dt = r.pick(["b", "i4", "f8"])
        a, _ = make(r, n, dt, False)
        if r.chance(.7):
            a[r.g.random(n) < r.pick([.3, .9, 1])] = 0
        cols[f"c{j}"] = a
    if r.chance(.3):
        w = plain(gen.words(r, n, "S")).copy(); w[r.g.random(n) < .4] = b""
        cols["s"] = w
    D = rt.Dataset({c: rt.FastArray(a) for c, a in cols.items()})
    t = {c: (a != 0) if a.dtype.kind != "S" else (a != b"") for c, a in cols.items()}
    for fn in ("any", "all"):
        f = getattr(np, fn)
        got = m.call("ds." + fn, getattr(D, fn), axis=0, as_dataset=False)
        for c in cols:
            m.check(bool(plain(got[c])) == bool(f(t[c])), f"ds.{fn}(axis=0)", col=cols[c][:8])
        got = plain(m.call("ds." + fn, getattr(D, fn), axis=1))
        m.same(got.astype(bool), f(np.array(list(t.values())), axis=0), f"ds.{fn}(axis=1)", cols={c: a[:5] for c, a in cols.items()})
        got = m.call("ds." + fn, getattr(D, fn), axis=None)
        m.check(bool(got) == bool(f([f(x) for x in t.values()])), f"ds.{fn}(axis=None)")


@case(n=110)
def describe(m, r):
    """describe and Dataset.quantile: counts, moments, order statistics and trimmed mean of the valid values"""
    dt = r.pick(INTS + FLTS)
    n = r.int(1, 60)
    a, z = make(r, n, dt, r.chance(.7))
    A = arr(r, a)
    q = sorted(set(r.subset([0, .1, .25, .5, .75, .9, 1], 1)))
    keep = a[~z]
    m.note(dt=dt, n=n, q=q, a=a[:10])
    v = py(keep)
    D = m.call("describe", rt.describe, A, q=q) if r.chance(.5) else m.call("ds.describe", rt.Dataset({"x": A}).describe, q=q)
    col = [c for c in D.keys() if c != "Stats"][0]
    labels = [gen.txt(s) for s in plain(D.Stats).tolist()]
    got = dict(zip(labels, plain(D[col]).tolist()))
    m.check(labels == ["Count", "Valid", "Nans", "Mean", "Std", "Min"] + ["P" + str(int(x * 100)) for x in q] + ["Max", "MeanM"], "labels", got=labels)
    m.check(got["Count"] == n and got["Valid"] == len(v), "counts", got=got, expected=(n, len(v)))
    if v:
        m.check(got["Nans"] == n - len(v), "Nans", got=got)
        tol = dict(rtol=1e-6, atol=1e-5 * max(1, scale_of(keep)))
        m.close([got["Mean"], got["Min"], got["Max"]], [float(expect("mean", v)), float(min(v)), float(max(v))], f"describe({dt}): mean, min, max", **tol)
        if len(v) > 1:
            m.close([got["Std"]], [float(expect("std", v))], f"describe({dt}): std", rtol=1e-5, atol=1e-5 * max(1, scale_of(keep)))
        m.close([got["P" + str(int(x * 100))] for x in q], [float(pct(v, Fraction(x))) for x in q], f"describe({dt}): percentiles", **tol)
    Q = m.call("ds.quantile", rt.Dataset({"x": A}).quantile, q=q)
    m.same(plain(Q.Stats), q, "quantile labels")
    e = [float(pct(v, Fraction(x))) for x in q] if v else [np.nan] * len(q)
    m.close(plain(Q.x), e, f"Dataset.quantile({dt})", rtol=1e-6, atol=1e-5 * max(1, scale_of(keep)))
    m.same(plain(A), a, "describe left the array alone")


@case(n=40)
def counting(m, r):
    n = r.int(1, 80)
    kind = r.pick(["i4", "i1", "f8", "S", "u1"])
    if kind == "S":
        a = plain(gen.words(r, n, "S", card=r.int(1, 6)))
    else:
        a, _ = make(r, n, kind, False)
        a = np.abs(a) % 7 if kind != "i1" else a % 5
        a = a.astype(kind)
    A = arr(r, a)
    F = r.g.random(n) < .7 if r.chance(.4) else None
    keep = a if F is None else a[F]
    C = m.call("count", A.count, sorted=r.chance(.5), **({} if F is None else {"filter": rt.FastArray(F)}))
    got = {gen.txt(k): int(v) for k, v in zip(plain(C.Unique).tolist(), plain(C.Count).tolist())}
    exp = {}
    for x in keep.tolist():
        exp[gen.txt(x)] = exp.get(gen.txt(x), 0) + 1
    m.check({k: v for k, v in got.items() if v} == exp, f"count({kind})", got=got, expected=exp)
    if kind in ("i4", "u1"):
        b = np.abs(keep)
        m.same(m.call("bincount", rt.bincount, rt.FastArray(b)), np.bincount(b), "bincount") if len(b) else None


@case(n=30)
def empties(m, r):
    dt = r.pick(INTS + FLTS)
    A = rt.FastArray(np.array([], dt)) if r.chance(.5) else rt.FastArray(np.arange(5).astype(dt))[:0]
    for fn in ("sum", "nansum"):
        for tag, f in forms(r, A, fn):
            m.check(float(m.call(f"{tag}.{fn}", f)) == 0, f"{tag}.{fn} of nothing is 0")
    for fn in ("min", "max", "nanmin", "nanmax", "argmin", "argmax"):
        for tag, f in forms(r, A, fn):
            got, e = m.attempt(f"{tag}.{fn}", f)
            m.check(e is not None or got is None or is_missing_scalar(got, dt), f"{tag}.{fn} of nothing has a value", got=got)
