"""C17: order-dependent array operations use exactly the stated neighbours."""
import logging
import math
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
FLTS = ["f4", "f8"]


def size(r):
    return r.pick([1, 2, r.int(3, 20), r.int(20, 70), r.int(70, 400), r.int(9000, 40000)], p=[.07, .08, .35, .3, .16, .04])


def make(r, n, kind, p=0.2):
    """(riptable array, raw values, missing mask)"""
    z = r.g.random(n) < p if r.chance(.7) else np.zeros(n, bool)
    if kind in INTS:
        ii = np.iinfo(kind)
        lo, hi = r.pick([(-5, 5), (-60, 60), (0, 3)])
        a = r.g.integers(max(lo, ii.min + 1 if ii.min else 0), hi, n, dtype=kind, endpoint=True)
        a[z] = gen.invalid(kind)
    elif kind in FLTS:
        a = np.round(r.g.normal(0, 20, n), r.int(0, 2)).astype(kind)
        a[z] = np.nan
    elif kind == "b":
        a = r.g.random(n) < .5; z = np.zeros(n, bool)
    elif kind in ("S", "U"):
        a = np.array(plain(gen.words(r, n, kind, card=r.int(1, 5)))); z = a == a.dtype.type()
    elif kind == "date":
        a = r.g.integers(1, 30, n).astype("i4"); a[z] = 0
        return rt.Date(a), a, z
    elif kind == "dtn":
        a = r.g.integers(1, 30, n) * 10**15; a[z] = 0
        return rt.DateTimeNano(a, from_tz="GMT", to_tz="NYC"), a, z
    elif kind == "span":
        a = np.round(r.g.normal(0, 1e12, n)); a[z] = np.nan
        return rt.TimeSpan(a), a, z
    else:
        a = r.g.integers(-9, 9, n).astype("i4"); a[z] = np.iinfo("i4").min
        return rt.DateSpan(a), a, z
    u = r.g.random()
    if u < .65 or not n:
        return rt.FastArray(a.copy(), unicode=kind == "U"), a, z
    k = r.int(2, 3)
    big = np.repeat(a, k)
    big[1::k] = big[0]
    return (big.view(rt.FastArray)[::k] if u < .85 else rt.FastArray(a[::-1].copy(), unicode=kind == "U")[::-1]), a, z


def inv_fill(kind, dtype):
    if kind in INTS:
        return gen.invalid(kind)
    if kind in FLTS or kind == "span":
        return np.nan
    if kind in ("S", "U"):
        return dtype.type()
    return {"b": False}.get(kind)


def period(r, n):
    return int(r.pick([1, 1, 1, 2, 3, n - 1, n, n + 1, -1, -2, -n, 1 - n, -n - 1, -n - 6, n + 5])) or 1


@case(n=160)
def shift(m, r):
    kind = r.pick(INTS + FLTS + ["b", "S", "U", "date", "dtn", "span", "dspan"])
    n = size(r)
    A, a, z = make(r, n, kind)
    k = period(r, n)
    m.note(kind=kind, n=n, k=k, a=a[:8])
    gen.dirty(r, n)
    got = m.call("shift", A.shift, k)
    m.check(type(got) is type(A), "class", got=type(got).__name__)
    g = plain(got)
    m.check(g.dtype == a.dtype and len(g) == n, "dtype and length", got=g.dtype)
    i = np.arange(n) - k
    ok = (i >= 0) & (i < n)
    m.same(g[ok], a[i[ok]], f"shift({k}) of {kind}: moved values")
    miss = plain(got.isnan()) if kind not in ("b", "S", "U") else np.isin(g, [inv_fill(kind, a.dtype)])
    m.check(bool(miss[~ok].all()), f"shift({k}) of {kind}: missing outside", got=g)
    m.same(plain(A), a, "input untouched")
    if kind in INTS + FLTS and r.chance(.4):
        g = plain(m.call("shift(invalid)", A.shift, k, invalid=7))
        m.same(g[ok], a[i[ok]], "shift with own fill: moved values")
        m.check(bool((g[~ok] == 7).all()), "shift with own fill", got=g)
    m.same(plain(m.call("shift(0)", A.shift, 0)), a, "shift by nothing")


@case(n=120)
def diff(m, r):
    kind = r.pick(["i1", "i2", "i4", "i8"] + FLTS + ["date", "dtn", "span", "dspan"])
    n = size(r)
    A, a, z = make(r, n, kind)
    k = period(r, n)
    m.note(kind=kind, n=n, k=k, a=a[:8])
    gen.dirty(r, n)
    got = m.call("diff", A.diff, k)
    g = plain(got)
    m.check(len(g) == n, "length")
    cls = {"date": rt.DateSpan, "dspan": rt.DateSpan, "dtn": rt.TimeSpan, "span": rt.TimeSpan}.get(kind, rt.FastArray)
    m.check(type(got) is cls, f"diff of {kind}: class", got=type(got).__name__)
    i = np.arange(n) - k
    ok = (i >= 0) & (i < n)
    miss = plain(got.isnan())
    m.check(bool(miss[~ok].all()), f"diff({k}) of {kind}: missing outside", got=g)
    j = np.flatnonzero(ok)
    pair = z[j] | z[i[j]]
    if kind in ("i1", "i2", "i4", "i8"):
        j = j[~pair]                          # integer subtraction itself does not know the sentinel
        with np.errstate(all="ignore"):
            m.same(g[j], a[j] - a[i[j]], f"diff({k}) of {kind}")
    else:
        m.check(bool(miss[j[pair]].all()), f"diff({k}) of {kind}: missing operand gives missing", got=got[:10], a=a[:10])
        j = j[~pair]
        m.close(g[j].astype("f8"), a[j].astype("f8") - a[i[j]].astype("f8"), f"diff({k}) of {kind}", rtol=1e-5 if kind == "f4" else 1e-12, atol=1e-3 if kind == "f4" else 1e-9)
    m.same(plain(A), a, "input untouched")


@case(n=140)
def change(m, r):
    kind = r.pick(INTS + FLTS + ["b", "S", "U", "date", "dtn", "span"])
    n = size(r)
    A, a, z = make(r, n, kind)
    k = period(r, n)
    m.note(kind=kind, n=n, k=k, a=a[:8])
    i = np.arange(n) - k
    ok = (i >= 0) & (i < n)
    j = np.flatnonzero(ok)
    for fn, e in (("differs", a[j] == a[i[j]]), ("transitions", a[j] != a[i[j]])):
        exp = np.zeros(n, bool)
        exp[j] = e
        gen.dirty(r, n)
        got = m.call(fn, getattr(A, fn), k)
        m.check(plain(got).dtype == bool, "boolean result", got=plain(got).dtype)
        m.same(got, exp, f"{fn}({k}) of {kind}", contiguous=A.flags.contiguous)
        m.same(m.call(fn + "(fancy)", getattr(A, fn), k, fancy=True), np.flatnonzero(exp), f"{fn}({k}, fancy) of {kind}")
    m.check(m.attempt("transitions(0)", A.transitions, 0)[1] is not None, "a period of 0 is refused")
    m.same(plain(A), a, "input untouched")


@case(n=90)
def cumulative(m, r):
    kind = r.pick(["i1", "i4", "i8", "u1", "f4", "f8"])
    n = size(r)
    A, a, z = make(r, n, kind)
    m.note(kind=kind, n=n, a=a[:8])
    for fn in ("cummin", "cummax"):
        got = m.call(fn, getattr(A, fn))
        best, exp = None, a.copy()
        for t in range(n):
            if not z[t]:
                best = a[t] if best is None else (min(best, a[t]) if fn == "cummin" else max(best, a[t]))
            exp[t] = a[t] if best is None else best
        m.same(got, exp, f"{fn} of {kind}")
        m.check(plain(got).dtype == a.dtype, "dtype kept", got=plain(got).dtype)
        if not z.any():
            m.same(m.call(fn + "(skipna=False)", getattr(A, fn), skipna=False), exp, f"{fn}(skipna=False) of {kind}")
        else:
            g = plain(m.call(fn + "(skipna=False)", getattr(A, fn), skipna=False))
            f = int(np.flatnonzero(z)[0])
            m.same(g[:f], exp[:f], f"{fn}(skipna=False) of {kind} before the first missing value")
    for fn in ("cumsum", "cumprod"):
        b = a if fn == "cumsum" else np.clip(a, 0 if kind[0] == "u" else -1, 1).astype(kind)
        if (z.any() and kind in INTS) or n > 5000:
            continue
        B = A if fn == "cumsum" else rt.FastArray(b)
        e = getattr(np, fn)(b)
        for tag, f in (("method", getattr(B, fn)), ("rt", lambda: getattr(rt, fn)(B))):
            got = m.call(f"{tag}.{fn}", f)
            m.close(got, e, f"{tag}.{fn} of {kind}", rtol=1e-4, atol=1e-2 if kind == "f4" else 1e-6)
    m.same(plain(A), a, "input untouched")


def window(a, t, w):
    return a[max(0, t - w + 1): t + 1]


@case(n=150)
def rolling(m, r):
    kind = r.pick(["i1", "i2", "i4", "i8", "u1", "u4", "f4", "f8"])
    n = r.pick([1, 2, r.int(3, 20), r.int(20, 70), r.int(70, 300)])
    nan = r.chance(.5)
    A, a, z = make(r, n, kind)
    if not nan and z.any():
        a = np.where(z, 1, a).astype(a.dtype); z[:] = False
        A = rt.FastArray(a)
    w = int(r.pick([1, 2, 3, r.int(2, 10), n, n + 3]))
    base = r.pick(["sum", "mean", "var", "std"])
    fn = "rolling_" + ("nan" if nan else "") + base
    m.note(kind=kind, n=n, w=w, fn=fn, a=a[:10])
    gen.dirty(r, n)
    got = plain(m.call(fn, getattr(A, fn), w))
    m.check(len(got) == n, "length")
    f = a.astype("f8")
    f[z] = np.nan
    tol = 2e-3 if kind == "f4" else 1e-6
    pop = None
    for t in range(n):
        v = window(f, t, w)
        v = v[~np.isnan(v)]
        g = float(got[t])
        if base == "sum":
            e = v.sum()
        elif base == "mean":
            if not len(v):
                continue
            e = v.mean()
        else:
            if len(v) < 2:
                continue
            g2 = g * g if base == "std" else g
            ok = [abs(g2 - v.var(ddof=d)) <= tol * max(1.0, v.var(), 60.0 ** 2) for d in (1, 0)]
            near = any(ok) or (g != g and v.var() < 1e-2)
            m.check(near, f"{fn} of {kind}", mech="rolling-nanvar-missing" if z[:t + 1].any() else None, t=t, got=g, expected=[v.var(ddof=1), v.var()], contiguous=A.flags.contiguous)
            if not ok[0] and abs(v.var(ddof=1) - v.var()) > 1:
                pop = (t, g)
            continue
        m.check(abs(g - e) <= tol * max(1.0, abs(e), 60.0 ** 2 if base == "var" else 60), f"{fn} of {kind}", t=t, got=g, expected=e, contiguous=A.flags.contiguous)
    m.same(plain(A), a, "input untouched")
    m.check(pop is None, f"{fn}: population variance where the array's own var is the sample variance", mech="rolling-variance-ddof", at=pop)


@case(n=60)
def rolling_quantile(m, r):
    kind = r.pick(["i4", "i8", "f4", "f8", "u1"])
    n = r.int(1, 60)
    A, a, z = make(r, n, kind)
    w = int(r.pick([1, 2, 3, r.int(2, 10), n, n + 3]))
    q = r.pick([0., .25, .5, .75, 1.])
    m.note(kind=kind, n=n, w=w, q=q, a=a[:10])
    got = plain(m.call("rolling_quantile", A.rolling_quantile, q, w))
    f = a.astype("f8")
    f[z] = np.nan
    for t in range(n):
        v = window(f, t, w)
        v = v[~np.isnan(v)]
        if len(v):
            e = np.quantile(v, q, method="midpoint")
            m.check(abs(float(got[t]) - e) <= 1e-4 * max(1, abs(e)), f"rolling_quantile of {kind}", t=t, got=got[t], expected=e, contiguous=A.flags.contiguous)
        else:
            m.check(got[t] != got[t], f"rolling_quantile of {kind}: empty window", got=got[t])


@case(n=70)
def timewindow(m, r):
    kind = r.pick(["i4", "i8", "f4", "f8"])
    n = r.int(1, 80)
    A, a, z = make(r, n, kind)
    a = np.where(z, 1, a).astype(a.dtype)
    strided = not A.flags.contiguous
    A = np.repeat(a, 2).view(rt.FastArray)[::2] if strided else rt.FastArray(a)
    tm = np.cumsum(r.g.integers(0, 4, n)).astype("i8")
    T = rt.FastArray(tm)
    if r.chance(.25):
        big = np.repeat(tm, 2); big[1::2] = 0
        T = big.view(rt.FastArray)[::2]
    d = r.int(0, 12)
    m.note(kind=kind, n=n, d=d, strided=strided, a=a[:8], tm=tm[:8])
    s = [[a[j] for j in range(t + 1) if tm[j] >= tm[t] - d] for t in range(n)]
    got = plain(m.call("timewindow_sum", A.timewindow_sum, T, d))
    m.close(got.astype("f8"), [float(np.sum(np.array(x, "f8"))) for x in s], "timewindow_sum", rtol=1e-4, atol=1e-2)
    if kind != "f4":
        b = np.where(np.abs(a) > 2, 1, a).astype(a.dtype)
        B = np.repeat(b, 2).view(rt.FastArray)[::2] if strided else rt.FastArray(b)
        s = [[b[j] for j in range(t + 1) if tm[j] >= tm[t] - d] for t in range(n)]
        if max(len(x) for x in s) < 25:
            got = plain(m.call("timewindow_prod", B.timewindow_prod, T, d))
            m.close(got.astype("f8"), [float(np.prod(np.array(x, "f8"))) for x in s], "timewindow_prod", rtol=1e-6)


@case(n=60)
def ema(m, r):
    kind = r.pick(["i4", "f8"])
    n = r.int(1, 60)
    A, a, z = make(r, n, kind)
    a = np.where(z & (kind == "i4"), 1, a).astype(a.dtype)
    A = rt.FastArray(a) if kind == "i4" else A
    tm = np.cumsum(r.g.random(n) * 3) if r.chance(.5) else np.cumsum(r.g.integers(0, 3, n))
    rate = r.pick([0, .1, .5, 2.0])
    F = r.g.random(n) < .7 if r.chance(.5) else None
    Z = r.g.random(n) < .2 if F is not None and r.chance(.5) else None
    if F is not None and kind == "f8":
        a = np.where(np.isnan(a), 0, a); A = rt.FastArray(a)
    m.note(kind=kind, n=n, rate=rate, F=F, Z=Z)
    kw = {} if F is None else {"filter": rt.FastArray(F)}
    if Z is not None:
        kw["reset"] = rt.FastArray(Z)
    got = plain(m.call("ema_decay", A.ema_decay, rt.FastArray(tm), rate, dtype=np.float64, **kw))
    last, lt, exp = 0.0, 0.0, []
    for t in range(n):
        v = float(a[t])
        if v != v or (F is not None and not F[t]):
            v = 0.0
        if Z is not None and F[t] and Z[t]:
            last = 0.0
        last = v + last * math.exp(-rate * (float(tm[t]) - lt)) if last else v
        lt = float(tm[t])
        exp.append(last)
    m.close(got, exp, "ema_decay", rtol=1e-9, atol=1e-9)


@case(n=110)
def fill(m, r):
    """forward / backward fill: nearest valid neighbour within the limit"""
    kind = r.pick(["i1", "i4", "i8", "u1", "f4", "f8", "date", "dtn"])
    n = size(r)
    A, a, z = make(r, n, kind, p=r.pick([.3, .7, 1]))
    back = r.chance(.5)
    limit = r.pick([0, 1, 2, 5])
    fv = r.pick([None, 3]) if kind in INTS + FLTS else None
    inplace = r.chance(.5)
    m.note(kind=kind, n=n, back=back, limit=limit, fv=fv, inplace=inplace, a=a[:10])
    fn = "fill_backward" if back else "fill_forward"
    exp = a.copy()
    ms = z.copy()
    order = range(n - 1, -1, -1) if back else range(n)
    last, cnt = None, 0
    for t in order:
        if z[t]:
            cnt += 1
            if not limit or cnt <= limit:
                if last is not None:
                    exp[t] = last; ms[t] = False
                elif fv is not None:
                    exp[t] = fv; ms[t] = False
        else:
            last, cnt = a[t], 0
    f = getattr(A, fn) if r.chance(.6) else (lambda **kw: getattr(rt, fn)(A, **kw))
    got = m.call(fn, f, limit=limit, inplace=inplace, **({} if fv is None else {"fill_val": fv}))
    m.check(type(got) is type(A), "class", got=type(got).__name__)
    m.same(plain(got.isnan()), ms, f"{fn} of {kind}: what stays missing")
    m.same(plain(got)[~ms], exp[~ms], f"{fn} of {kind}")
    if inplace:
        m.same(plain(A)[~ms], exp[~ms], "in place: the array itself holds the result")
    else:
        m.same(plain(A), a, "not in place: input untouched")


@case(n=50)
def sortedness(m, r):
    kind = r.pick(INTS + FLTS + ["S", "U", "date"])
    n = size(r)
    A, a, z = make(r, n, kind, p=0)
    if r.chance(.6):
        A = rt.FastArray(np.sort(a), unicode=kind == "U") if kind != "date" else rt.Date(np.sort(a))
        if r.chance(.5) and n > 1 and kind not in ("S", "U"):
            j = r.int(0, n - 1)
            A[j] = A[j - 1]
    b = plain(A)
    e = bool((b[1:] >= b[:-1]).all())
    m.note(kind=kind, n=n, e=e)
    if not A.flags.contiguous:
        A = A.copy()                      # strided arrays are refused
    m.check(bool(m.call("issorted", A.issorted)) == e, f"issorted of {kind}", a=b[:10], expected=e)
    m.check(bool(m.call("rt.issorted", rt.issorted, A)) == e, f"rt.issorted of {kind}", expected=e)
