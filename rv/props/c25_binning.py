"""C25: cut, qcut, quantile and cut_time put every value into the bin that contains it."""
import warnings
from datetime import datetime
from zoneinfo import ZoneInfo
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

warnings.simplefilter("ignore")


def values(r, n, lo=-60, hi=60):
    """(FastArray, float values with NaN for missing)"""
    k = r.pick(["f8", "f8", "f4", "i4", "i8", "i1", "i2", "u1", "u4"], p=[.25, .15, .1, .15, .1, .1, .05, .05, .05])
    if k[0] == "f":
        a = (r.g.integers(lo * 2, hi * 2, n) / 2).astype(k) if r.chance(.5) else r.g.normal(0, hi / 2, n).astype(k)
        if r.chance(.5):
            a[r.g.random(n) < .15] = np.nan
        if r.chance(.25):
            a[r.g.random(n) < .1] = r.pick([np.inf, -np.inf])
    else:
        a = r.g.integers(max(lo, 0) if k[0] == "u" else lo, hi, n).astype(k)
        ii = np.iinfo(k)
        if k[1] != "8" and r.chance(.3):
            a = r.g.choice([ii.min + 1, ii.min + 2, 0, 1, ii.max - 1, ii.max - 2], n).astype(k)
        elif r.chance(.15):
            a[r.g.random(n) < .2] = r.pick([ii.max - 1, ii.min + 1 + (k[0] == "u")]) if k[1] in "12" else 1000
        if r.chance(.35):
            a[r.g.random(n) < .15] = np.iinfo(k).min if k[0] == "i" else np.iinfo(k).max
    if r.chance(.2):
        a = np.repeat(a, 2)[::2] if r.chance(.6) else np.ascontiguousarray(a[::-1])[::-1]
    fa = rt.FastArray(a)
    f = a.astype("f8")
    if k[0] != "f":
        f[a == (np.iinfo(k).min if k[0] == "i" else np.iinfo(k).max)] = np.nan
    return fa, f


def where_bin(f, edges):
    """1-based index of the bin (edges[i-1], edges[i]] holding f, the first bin closed on both sides; 0 outside"""
    out = np.zeros(len(f), dtype=int)
    for i, v in enumerate(f.tolist()):
        if v != v:
            continue
        for b in range(1, len(edges)):
            if (edges[b - 1] < v or (b == 1 and v == edges[0])) and v <= edges[b]:
                out[i] = b
                break
    return out


def judged(x, f, edges):
    """rows whose bin is not in doubt: an infinite value at an infinite edge, a float32 rounding onto an edge"""
    ok = ~(np.isinf(f) & np.isin(f, edges))
    if x.dtype == np.float32:
        ok &= ~(np.isin(plain(x), edges.astype("f4")) & ~np.isin(f, edges))
        ok &= ~(np.isin(plain(x), edges.astype("f4")) & np.isin(f, edges) & (edges != edges.astype("f4")).any())
    return ok


def edge_list(r, f):
    k = r.int(1, 6)
    ok = f[np.isfinite(f)]
    if len(ok) and r.chance(.5):
        e = np.unique(r.g.choice(ok, k + 1))
    else:
        e = np.unique(r.g.integers(-70, 70, k + 1).astype("f8") / r.pick([1, 2, 3]))
    if r.chance(.12):
        # many edges that differ only far behind the point: labels need the digits
        d = r.pick([1e-2, 1e-4, 1e-6, 1e-8])
        e = np.round(r.int(-5, 5) + d * np.unique(r.g.integers(0, 60, r.int(2, 30))), 9)
    if len(e) < 2:
        e = np.array([e[0], e[0] + 5.])
    if r.chance(.15):
        e[0] = -np.inf
    if r.chance(.15):
        e[-1] = np.inf
    return e


def label_num(s):
    return [float(x) for x in gen.txt(s).split("->")]


def labels_match(m, cat_labels, edges, what, precision=3, ctx={}):
    good = len(cat_labels) == len(edges) - 1
    m.check(good, what + "-label-count", **dict(ctx, labels=cat_labels, edges=edges))
    if not good:
        return
    m.check(len(set(cat_labels)) == len(cat_labels), what + "-labels-distinct", **dict(ctx, labels=cat_labels, edges=edges))
    for i, lab in enumerate(cat_labels):
        try:
            lo, hi = label_num(lab)
        except ValueError:
            m.check(False, what + "-label-form", **dict(ctx, label=lab))
            return
        tol = 1.01 * 10.0 ** -precision
        for g, w in ((lo, edges[i]), (hi, edges[i + 1])):
            m.check(g == w or abs(g - w) <= tol * max(1, abs(w)), what + "-label-edge", **dict(ctx, label=lab, want=w))


@case(n=220, thorough=3000)
def cut_edges(m, r):
    n = r.int(0, 80) + 1
    x, f = values(r, n)
    edges = edge_list(r, f)
    flt = None
    if r.chance(.35):
        flt = r.g.random(n) < .7
        f = np.where(flt, f, np.nan)
    bins = r.pick([edges, edges.tolist(), rt.FastArray(edges)])
    if np.all(edges == np.round(edges)) and r.chance(.5):
        bins = [int(e) if np.isfinite(e) else e for e in edges]
    want = where_bin(f, edges)
    ctx = dict(x=x, edges=edges, filter=flt)
    kw = {} if flt is None else dict(filter=rt.FastArray(flt))
    snap = plain(x).copy()
    prec = r.pick([3, 3, 1, 6])
    if prec != 3:
        kw["precision"] = prec
    # infinite values: inside an infinite edge, else outside
    c, got_edges = m.call("cut", rt.cut, x, bins, retbins=True, **kw)
    ok = judged(x, f, edges)
    codes = plain(c._fa)
    m.same(codes.astype(int)[ok], want[ok], "cut-codes", **ctx)
    m.same(np.asarray(got_edges, "f8"), edges, "cut-retbins", **ctx)
    labels_match(m, [gen.txt(v) for v in plain(c.category_array).tolist()], edges, "cut", prec, ctx)
    m.check(c.base_index == 1, "cut-base-index", **ctx)
    # without labels: the same codes
    c2 = m.call("cut", rt.cut, x, bins, labels=False, **kw)
    m.same(plain(c2).astype(int)[ok], want[ok], "cut-codes-unlabelled", **ctx)
    # custom labels
    names = ["bin%d" % i for i in r.perm(list(range(len(edges) - 1)))]
    c3 = m.call("cut", rt.cut, x, bins, labels=r.pick([names, np.array(names), rt.FastArray(names)]), **kw)
    lab = [names[w - 1] if w else None for w in want.tolist()]
    m.same([v for v, o in zip(gen.decode(c3), ok) if o], [v for v, o in zip(lab, ok) if o], "cut-custom-labels", **ctx)
    m.raises("cut", rt.cut, x, bins, labels=names + ["extra"], exc=Exception)
    m.same(plain(x), snap, "cut-keeps-input", **ctx)
    m.note(rows=n, outside=int((want == 0).sum()))


@case(n=120, thorough=1500)
def cut_count(m, r):
    n = r.int(0, 80) + 2
    x, f = values(r, n)
    fin = f[np.isfinite(f)]
    if np.isinf(f).any() or len(fin) == 0:
        return
    k = r.int(1, 7)
    flt, kw = None, {}
    if r.chance(.3):
        flt = r.g.random(n) < .7
        kw = dict(filter=rt.FastArray(flt))
        f = np.where(flt, f, np.nan)
        fin = f[np.isfinite(f)]
        if len(fin) == 0:
            return
    if r.chance(.2):
        k = np.int64(k)
    c, edges = m.call("cut", rt.cut, x, k, retbins=True, **kw)
    edges = np.asarray(edges, "f8")
    ctx = dict(x=x, k=k, filter=flt, edges=edges)
    m.check(len(edges) == k + 1, "cut-count-edges", **ctx)
    w = np.diff(edges)
    m.check(bool((w > 0).all()) and bool(np.allclose(w, w.mean(), rtol=1e-6, atol=1e-9 + 1e-14 * abs(edges).max())), "cut-equal-width", **ctx)
    if fin.min() < fin.max():
        m.close(edges[[0, -1]], np.array([fin.min(), fin.max()]), "cut-count-range", rtol=1e-6, **ctx)
    codes = plain(c._fa).astype(int)
    want = where_bin(f, edges)
    ok = judged(x, f, edges)
    m.same(codes[ok], want[ok], "cut-count-codes", **ctx)
    m.check(bool((codes[~np.isnan(f)] > 0).all()), "cut-count-covers-all", **ctx)
    m.same(gen.decode(c), [gen.txt(plain(c.category_array)[v - 1]) if v else None for v in codes.tolist()], "cut-count-labels", **ctx)
    labels_match(m, [gen.txt(v) for v in plain(c.category_array).tolist()], edges, "cut-count", ctx=ctx)


@case(n=60, thorough=600)
def cut_open_left(m, r):
    """right=False as documented: lowest edge and below in no bin, above the last edge an extra code"""
    n = r.int(0, 60) + 1
    x, f = values(r, n)
    edges = edge_list(r, f)
    if np.isinf(edges).any():
        return
    codes = plain(m.call("cut", rt.cut, x, edges, labels=False, right=False)).astype(int)
    ctx = dict(x=x, edges=edges)
    ok = judged(x, f, edges)
    for i, v in enumerate(f.tolist()):
        if not ok[i]:
            continue
        if v == v and edges[0] < v < edges[-1] and v not in edges:
            m.check(codes[i] >= 1 and edges[codes[i] - 1] < v < edges[codes[i]], "cut-open-left-interior", **dict(ctx, i=i, code=codes[i]))
        elif v == v and v in edges[1:-1].tolist():
            m.check(1 <= codes[i] < len(edges) and edges[codes[i] - 1] <= v <= edges[codes[i]], "cut-open-left-edge", **dict(ctx, i=i, code=codes[i]))
        elif v == v and v < edges[0]:
            m.check(codes[i] == 0, "cut-open-left-below", **dict(ctx, i=i, code=codes[i]))


@case(n=60, thorough=600)
def cut_duplicates(m, r):
    n = r.int(0, 40) + 1
    x, f = values(r, n)
    edges = edge_list(r, f)
    if np.isinf(edges).any() or len(edges) < 3:
        return
    dup = np.sort(np.concatenate([edges, r.g.choice(edges, r.int(1, 2))]))
    m.raises("cut", rt.cut, x, dup, exc=ValueError)
    c, e = m.call("cut", rt.cut, x, dup, duplicates="drop", retbins=True)
    m.same(np.asarray(e, "f8"), edges, "cut-drop-edges", x=x, dup=dup)
    ok = judged(x, f, edges)
    m.same(plain(c._fa).astype(int)[ok], where_bin(f, edges)[ok], "cut-drop-codes", x=x, dup=dup)
    m.raises("cut", rt.cut, x, edges[::-1].copy(), exc=ValueError)
    m.raises("cut", rt.cut, x, 0, exc=ValueError)


def quantiles(f, qs, how="fraction"):
    s = np.sort(f[np.isfinite(f)])
    out = []
    for q in qs:
        if len(s) == 0:
            out.append(np.nan)
            continue
        p = q * (len(s) - 1)
        lo = int(np.floor(p))
        hi = min(lo + 1, len(s) - 1)
        if p == lo:
            out.append(s[lo])
        elif how == "lower":
            out.append(s[lo])
        elif how == "higher":
            out.append(s[hi])
        else:
            out.append(s[lo] + (s[hi] - s[lo]) * (p - lo))
    return np.array(out)


@case(n=150, thorough=2000)
def quantile_values(m, r):
    n = r.int(0, 80) + 1
    x, f = values(r, n)
    qs = [r.pick([0., 1., .5, .25, float(r.g.random())]) for _ in range(r.int(1, 5))]
    how = r.pick(["fraction", "fraction", "lower", "higher"])
    kw = {} if how == "fraction" and r.chance(.5) else dict(interpolation_method=how)
    want = quantiles(f, qs, how)
    tol = dict(rtol=1e-5 if x.dtype == np.float32 else 1e-12, atol=1e-5 if x.dtype == np.float32 else 1e-12)
    got, lsort, counts = m.call("quantile", rt.quantile, x, r.pick([qs, np.array(qs)]), **kw)
    ctx = dict(x=x, q=qs, how=how)
    m.close(np.asarray(got, "f8"), want, "quantile", **tol, **ctx)
    one = m.call("quantile", rt.quantile, x, qs[0], **kw)[0]
    m.close(np.array([float(one)]), want[:1], "quantile-scalar", **tol, **ctx)
    m.check(sum(int(c) for c in counts) == int((~np.isfinite(f)).sum()), "quantile-counts", **dict(ctx, counts=counts))
    ls = plain(lsort).astype(int)
    m.same(np.sort(ls), np.arange(n), "quantile-sort-permutation", **ctx)


@case(n=200, thorough=3000)
def qcut_values(m, r):
    n = r.int(0, 80) + 2
    x, f = values(r, n)
    flt, kw = None, {}
    if r.chance(.35):
        flt = r.g.random(n) < .75
        kw = dict(filter=rt.FastArray(flt))
        f = np.where(flt, f, np.nan)
    if r.chance(.6):
        k = r.int(1, 6)
        qs, arg = np.linspace(0, 1, k + 1), k
    else:
        qs = np.unique(np.concatenate([[r.pick([0., .1])], r.g.random(r.int(1, 3)), [r.pick([1., .9])]]))
        arg = r.pick([qs, qs.tolist()])
    want_edges = quantiles(f, qs)
    ctx = dict(x=x, q=arg, filter=flt)
    snap = plain(x).copy()
    if np.isnan(want_edges).any():
        return
    u = np.unique(want_edges)
    tol = 1e-5 if x.dtype == np.float32 else 1e-9
    close_edges = bool((np.diff(u) < tol * np.maximum(1, np.abs(u[1:]))).any())
    res, err = m.attempt("qcut", rt.qcut, x, arg, retbins=True, **kw)
    if len(u) < len(want_edges) and len(want_edges) != 2:
        m.check(err is not None or close_edges, "qcut-refuses-duplicate-edges", **ctx)
        res, err = m.attempt("qcut", rt.qcut, x, arg, retbins=True, duplicates="drop", **kw)
        kw["duplicates"] = "drop"
    if close_edges:
        return
    m.check(err is None, "qcut-works", **dict(ctx, err=err))
    if err is not None:
        return
    c, e = res
    e = np.asarray(e, "f8")
    if len(want_edges) == 2 and len(u) == 1:
        u = want_edges
    m.check(len(e) == len(u), "qcut-edge-count", **dict(ctx, edges=e, want=u))
    if len(e) != len(u):
        return
    m.close(e, u, "qcut-edges", rtol=tol, atol=tol, **ctx)
    codes = plain(c._fa).astype(int)
    inside = where_bin(f, e)
    want = np.where(~np.isfinite(f), 0, np.where(inside > 0, inside + 1, 1))
    m.same(codes, want, "qcut-codes", **dict(ctx, edges=e))
    labs = [gen.txt(v) for v in plain(c.category_array).tolist()]
    m.check(labs[0] == "Clipped", "qcut-clipped-label", **dict(ctx, labels=labs))
    labels_match(m, labs[1:], e, "qcut", ctx=ctx)
    m.same(gen.decode(c), [labs[w - 1] if w else None for w in want.tolist()], "qcut-labels", **ctx)
    m.same(plain(m.call("qcut", rt.qcut, x, arg, labels=False, **kw)).astype(int), want, "qcut-unlabelled", **ctx)
    names = ["q%d" % i for i in r.perm(list(range(len(e) - 1)))]
    c3 = m.call("qcut", rt.qcut, x, arg, labels=r.pick([names, np.array(names), rt.FastArray(names), tuple(names)]), **kw)
    m.same(gen.decode(c3), [(["Clipped"] + names)[w - 1] if w else None for w in want.tolist()], "qcut-custom-labels", **ctx)
    m.raises("qcut", rt.qcut, x, arg, labels=names + ["extra"], **kw, exc=Exception)
    m.same(plain(x), snap, "qcut-keeps-input", **ctx)
    if len(e) > 1 and 0. in qs.tolist() and 1. in qs.tolist():
        m.check(int((codes >= 2).sum()) == int(np.isfinite(f).sum()), "qcut-conserves-rows", **ctx)


NS = 1_000_000_000


def tup_ns(t):
    h, mi, s, ms = tuple(t) + (0,) * (4 - len(t))
    return (((h * 60 + mi) * 60 + s) * 1000 + ms) * 1_000_000


@case(n=120, thorough=1500)
def cut_time(m, r):
    n = r.int(0, 60) + 1
    tz = r.pick(["NYC", "DUBLIN", "GMT"])
    zone = ZoneInfo({"NYC": "America/New_York", "DUBLIN": "Europe/Dublin", "GMT": "UTC"}[tz])
    base = int(datetime(2019, 1, 1, tzinfo=ZoneInfo("UTC")).timestamp())
    secs = base + r.g.integers(0, 3 * 365 * 86400, n)
    step = r.pick([1, 60, 900, 1800])
    secs = secs - secs % step
    sub = r.pick([0, 0, 1, 500_000_000, 999_999_999])
    ns = secs * NS + sub
    miss = r.g.random(n) < .15 if r.chance(.4) else np.zeros(n, bool)
    ns = np.where(miss, r.pick([0, np.iinfo("i8").min]), ns)
    x = rt.DateTimeNano(ns, from_tz="GMT", to_tz=tz)
    if r.chance(.25):
        x = rt.DateTimeNano(np.repeat(ns, 2), from_tz="GMT", to_tz=tz)[::2]
    day = []
    for v, mi in zip(ns.tolist(), miss.tolist()):
        if mi:
            day.append(None)
            continue
        d = datetime.fromtimestamp(v // NS, zone)
        day.append((d.hour * 3600 + d.minute * 60 + d.second) * NS + v % NS)
    # clock readings on change days are counted from local midnight in elapsed time by design: leave those rows out
    skip = []
    for v, mi in zip(ns.tolist(), miss.tolist()):
        if mi:
            skip.append(False)
            continue
        d = datetime.fromtimestamp(v // NS, zone)
        skip.append(d.replace(hour=0, minute=0, second=0).utcoffset() != d.utcoffset())
    pre, post = r.chance(.3), r.chance(.3)
    kw = {}
    if r.chance(.35):
        pts = sorted({(r.int(1, 22), r.pick([0, 15, 30])) + r.pick([(), (0,), (30,), (5, 250)]) for _ in range(r.int(2, 5))})
        if len(pts) < 2:
            return
        arg = [tuple(p) for p in r.perm(list(range(len(pts)))) and [pts[i] for i in r.perm(list(range(len(pts))))]]
        cuts = sorted(tup_ns(p) for p in pts)
        if len(set(cuts)) < len(cuts):
            return
    else:
        a, b = (r.int(0, 11), r.pick([0, 30])), (r.int(12, 23), r.pick([0, 15, 45]))
        mins = r.pick([7, 30, 60, 45, 300])
        if r.chance(.2):
            a, b = (9, 30), (16, 15)
            kw["nyc"] = True
        else:
            kw.update(start_time=a, end_time=b)
        arg = r.pick([mins, rt.TimeSpan(mins, "m")])
        cuts, t = [], tup_ns(a)
        while t < tup_ns(b):
            cuts.append(t)
            t += mins * 60 * NS
        cuts.append(tup_ns(b))
    left = r.chance(.6)
    c = m.call("cut_time", x.cut_time, arg, add_pre_bucket=pre, add_post_bucket=post, label="left" if left else "right", **kw)
    if pre:
        cuts = [0] + cuts
    if post:
        cuts = cuts + [24 * 3600 * NS]
    ctx = dict(x=x, arg=arg, cuts=cuts, tz=tz, pre=pre, post=post)
    codes = plain(c._fa).astype(int)
    labs = [gen.txt(v) for v in plain(c.category_array).tolist()]
    m.check(len(labs) == len(cuts) - 1, "cut-time-label-count", **dict(ctx, labels=labs))
    m.check(len(codes) == n, "cut-time-rows", **ctx)
    for i in range(n):
        d = day[i]
        if skip[i] or (d is not None and (d == cuts[0] or d == 0)):
            continue
        w = 0 if d is None else next((b for b in range(1, len(cuts)) if cuts[b - 1] < d <= cuts[b]), 0)
        m.check(codes[i] == w, "cut-time-bucket", **dict(ctx, i=i, code=int(codes[i]), want=w, nanos=d))
    for i, lab in enumerate(labs):
        if pre and i == 0:
            m.check(lab == "pre", "cut-time-pre", **dict(ctx, labels=labs))
        elif post and i == len(labs) - 1:
            m.check(lab == "post", "cut-time-post", **dict(ctx, labels=labs))
        else:
            w = cuts[i if left else i + 1]
            p = lab.split(":")
            got = int(p[0]) * 3600 + int(p[1]) * 60 + (float(p[2]) if len(p) > 2 else 0)
            m.check(abs(got * NS - w) < (1e6 if len(p) > 2 else 60 * NS), "cut-time-label", **dict(ctx, label=lab, want=w))
    m.note(rows=n)
