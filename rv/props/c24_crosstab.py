"""C24: cross-tabulations and their margins account for every row exactly once."""
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

warnings.simplefilter("ignore")


def keys(r, n, side):
    """(argument for Accum2, labels per row (None when in no group), categories in order or None)"""
    k = r.pick(["S", "U", "cat", "codes", "int", "enum"] + (["multi"] if side == "row" else []))
    pool = {"row": ["a", "b", "cc", "dd", "e"], "col": ["x", "y", "zz", "w w"]}[side]
    if k in ("S", "U"):
        v = [r.pick(pool) for _ in range(n)]
        return rt.FastArray(np.array(v, dtype=k)), v, None
    if k == "cat":
        v = [r.pick(pool) for _ in range(n)]
        f = r.g.random(n) > .25 if r.chance(.5) else None
        if f is not None and not f.any():
            f[0] = True
        c = rt.Cat(np.array(v), filter=f, ordered=r.chance(.7), sort_gb=r.chance(.2))
        if c._sort_gb:
            return c, [x if f is None or f[i] else None for i, x in enumerate(v)], None
        return c, [x if f is None or f[i] else None for i, x in enumerate(v)], [gen.txt(x) for x in plain(c.category_array).tolist()]
    if k == "codes":
        cats = list(r.perm(pool))[:r.int(1, len(pool))]
        base = r.pick([1, 1, 0])
        codes = r.g.integers(1 if base and r.chance(.6) else 0, len(cats) + base, n).astype(r.pick(["i1", "i4"]))
        return rt.Cat(codes, np.array(cats), base_index=base), [cats[c - base] if c >= base else None for c in codes.tolist()], cats
    if k == "int":
        v = [r.pick([3, 1, 20, 100]) for _ in range(n)]
        a = np.array(v, dtype=r.pick(["i4", "i8", "i1"]))
        return (rt.Cat(a) if r.chance(.5) else rt.FastArray(a)), [str(x) for x in v], None
    if k == "enum":
        mp = {10: "p", 20: "q", 7: "r"}
        v = [r.pick(list(mp)) for _ in range(n)]
        return rt.Cat(np.array(v), mp), [mp[x] for x in v], None
    v1, v2 = [r.pick(pool[:3]) for _ in range(n)], [r.pick([1, 2]) for _ in range(n)]
    return rt.Cat([np.array(v1), np.array(v2)]), [(x, str(y)) for x, y in zip(v1, v2)], None


def val(r, n):
    k = r.pick(["f8", "f8", "i4", "i8", "i1", "f4"], p=[.3, .2, .2, .15, .1, .05])
    if k[0] == "f":
        a = np.round(r.g.normal(0, 10, n), 3).astype(k)
        if r.chance(.4):
            a[r.g.random(n) < .2] = np.nan
    else:
        a = r.g.integers(-50, 50, n).astype(k)
        if r.chance(.3):
            a[r.g.random(n) < .2] = np.iinfo(k).min
    if n > 1 and r.chance(.1):
        a = np.repeat(a, 2)[::2]
    return rt.FastArray(a)


def red(f, x):
    """x: float values with NaN for missing"""
    ok = x[~np.isnan(x)]
    if f == "sum":
        return x.sum()
    if f == "nansum":
        return ok.sum()
    y = ok if f.startswith("nan") or f == "median" else x
    if len(y) == 0 or np.isnan(y).any():
        return np.nan
    g = f.replace("nan", "")
    if g in ("var", "std"):
        return getattr(np, g)(y, ddof=1) if len(y) > 1 else np.nan
    return getattr(np, g)(y)


FUNCS = ["sum", "nansum", "mean", "nanmean", "min", "max", "nanmin", "nanmax", "var", "std", "nanvar", "nanstd", "median", "count"]


def row_labels(ds):
    cols = [ds[c] for c in ds.label_get_names()]
    cols = [[gen.txt(x) if not isinstance(x, str) else x for x in (c.expand_array if isinstance(c, rt.Categorical) else plain(c)).tolist()] for c in cols]
    return [t[0] if len(t) == 1 else t for t in zip(*[[str(x) for x in c] for c in cols])]


def num(a):
    a = np.asarray(plain(a))
    f = a.astype("f8")
    if a.dtype.kind in "iu":
        f[gen.is_inv(a)] = np.nan
    return f


@case(n=500)
def accum(m, r):
    n = r.pick([1, 2, r.int(3, 12), r.int(12, 80), 2000], p=[.05, .1, .4, .44, .01])
    ra, rl, rc_ = keys(r, n, "row")
    ca, cl, cc = keys(r, n, "col")
    v = val(r, n)
    f = r.pick(FUNCS)
    filt = r.g.random(n) > .3 if r.chance(.35) else None
    how = r.pick(["ctor", "call", "both"]) if filt is not None else None
    show = r.chance(.25)
    totals = r.chance(.9)
    m.note(func=f, n=n, rows=rl[:5], cols=cl[:5], dtype=str(v.dtype), filter=how, showfilter=show, strided=not v.flags.contiguous)
    if f in ("median", "sum") and (f == "median" or v.dtype.kind == "i"):
        v = rt.FastArray(np.where(np.isnan(num(v)), 0, plain(v)).astype(v.dtype))
    x = num(v)
    s0 = [gen.snap(a) for a in (ra, ca, v)]
    f1 = f2 = filt
    if how == "both":
        f1, f2 = filt, r.g.random(n) > .3
        filt = f1 & f2
    kw = {"filter": f1} if how in ("ctor", "both") else {}
    A = m.call("Accum2", lambda: rt.Accum2(ra, ca, totals=totals, sort_gb=r.chance(.2), ordered=r.chance(.5), showfilter=show and r.chance(.5), **kw))
    kw = {"filter": f2} if how in ("call", "both") else {}
    kw["showfilter"] = show
    res = m.call(f"Accum2.{f}", lambda: A.count(**kw) if f == "count" else getattr(A, f)(v, **kw))
    for a, s, w in zip((ra, ca, v), s0, ("rows", "columns", "values")):
        m.check(not gen.snap_diff(s, gen.snap(a)), f"{w} unchanged")
    keep = np.ones(n, bool) if filt is None else filt
    ok = np.array([keep[i] and rl[i] is not None and cl[i] is not None for i in range(n)])
    labs = row_labels(res)
    if show and not rl[0].__class__ is tuple and not labs[0].lstrip("-").isdigit():
        m.check("Filtered" in str(labs[0]), "the first row holds the filtered rows", got=labs[0])
    body = labs[1:] if show else labs
    if rc_ is not None:
        m.check(body == rc_, "row labels", got=body, expected=rc_)
    m.check(len(set(body)) == len(body) and set(x for x in rl if x is not None) <= set(body), "every row key has one row", got=body)
    names = [c for c in res.keys() if c not in res.label_get_names() and c not in res.summary_get_names()]
    cols = [c for c in names if c != "Filtered"]
    if cc is not None:
        m.check(cols == cc, "column labels", got=cols, expected=cc)
    m.check(set(x for x in cl if x is not None) <= set(cols), "every column key has one column", got=cols)
    off = 1 if show else 0

    def reduce_(mask):
        return float(mask.sum()) if f == "count" else red(f, x[mask])

    def judge(g, mask, what, mech=None):
        e = reduce_(mask)
        m.check((np.isnan(g) and np.isnan(e)) or abs(g - e) <= 1e-9 * (1 + abs(e)) * (1e5 if v.dtype == np.float32 else 1), what, got=float(g), expected=float(e), rows=int(mask.sum()), mech=mech)
    R = {b: np.array([rl[i] == b for i in range(n)]) for b in body}
    C = {c: np.array([cl[i] == c for i in range(n)]) for c in cols}
    Rn, Cn = np.array([x is None for x in rl]), np.array([x is None for x in cl])
    for c in cols:
        g = num(res[c])
        for i, b in enumerate(body):
            judge(g[i + off], keep & R[b] & C[c], f"cell of {f}")
    if show and f in ("sum", "nansum", "count"):
        # everything that is in no cell is in the filtered margins
        tot = sum(float(np.nansum(num(res[c]))) for c in names)
        if f != "sum" or not np.isnan(x).any():
            e = reduce_(np.ones(n, bool))
            m.check(abs(tot - e) <= 1e-6 * (1 + abs(e)) * (100 if v.dtype == np.float32 else 1), "cells and filtered margins add up to all rows", got=tot, expected=float(e))
    if show:
        # the margins of what lies in no group: rows of that key whose other key is missing
        g = num(res["Filtered"])
        for i, b in enumerate(body):
            judge(g[i + 1], keep & R[b] & Cn, f"Filtered column of {f}")
        for c in cols:
            judge(num(res[c])[0], keep & Rn & C[c], f"Filtered row of {f}")
    if not totals:
        m.check(not res.summary_get_names(), "no totals when not asked for", got=res.summary_get_names())
        return
    mech = None
    if show:
        ok = keep
    sm = res.summary_get_names()
    m.check(len(sm) == 1, "one summary column", got=sm)
    g = num(res[sm[0]])
    for i, b in enumerate(body):
        judge(g[i + off], ok & R[b], f"row margin of {f}", mech)
    fd = res.footer_get_dict()
    m.check(len(fd) == 1, "one footer row", got=list(fd))
    fd = list(fd.values())[0]
    m.check(set(cols + sm) <= set(fd), "a footer for every column", got=sorted(fd), expected=cols + sm)

    def scal(y):
        return float(num(np.array([y]))[0])
    for c in cols:
        judge(scal(fd[c]), ok & C[c], f"column margin of {f}", mech)
    if show and f in ("sum", "nansum", "count"):
        ok = np.ones(n, bool)           # the filtered rows are shown and added too
    judge(scal(fd[sm[0]]), ok, f"grand total of {f}", mech)
    m.check([gen.txt(x) for x in res.label_get_names()] == res.label_get_names(), "labels")


@case(n=150)
def several(m, r):
    """several value columns at once, and a function of the user's"""
    n = r.int(2, 60)
    ra, rl, _ = keys(r, n, "row")
    ca, cl, _ = keys(r, n, "col")
    vs = {f"v{i}": rt.FastArray(np.round(r.g.normal(0, 10, n), 2)) for i in range(r.int(2, 3))}
    f = r.pick(["sum", "nanmean", "nanmax"])
    m.note(func=f, n=n, rows=rl[:5], cols=cl[:5])
    user = r.chance(.3)
    A = m.call("Accum2", lambda: rt.Accum2(ra, ca))
    ds = rt.Dataset(vs)
    if user:
        one = list(vs)[0]
        res = {one: m.call("apply_reduce", lambda: A.apply_reduce(lambda q: np.nansum(q) * 2, vs[one]))}
        fn = lambda y: y.sum() * 2
    else:
        out = m.call("several columns", lambda: getattr(A, f)(ds) if r.chance(.5) else getattr(A, f)(list(vs.values())))
        m.check(isinstance(out, rt.Multiset) and len(out.keys()) == len(vs), "one table per value column", got=type(out).__name__)
        res = {k: out[o] for k, o in zip(vs, out.keys())}
        fn = lambda y: red(f, y)
    for k, t in res.items():
        labs = row_labels(t)
        for c in [c for c in t.keys() if c not in t.label_get_names() and c not in t.summary_get_names()]:
            g = num(t[c])
            for i, b in enumerate(labs):
                msk = np.array([rl[j] == b and cl[j] == c for j in range(n)])
                if user and not msk.any():
                    continue
                e = fn(plain(vs[k])[msk])
                m.check((np.isnan(g[i]) and np.isnan(e)) or abs(g[i] - e) < 1e-8, f"cell of {'apply_reduce' if user else f} in {k}", got=float(g[i]), expected=float(e))


def table(r, n, two=True):
    """string or Categorical keys without rows in no group"""
    rl = [r.pick(["a", "b", "cc", "dd"]) for _ in range(n)]
    cl = [r.pick(["x", "y", "zz"]) for _ in range(n)]
    rcat = rt.Cat(np.array(rl))
    ccat = rt.Cat(np.array(cl)) if two else None
    return rl, cl, rcat, ccat


def near(m, g, e, what, **ctx):
    g, e = float(g), float(e)
    m.check((np.isnan(g) and np.isnan(e)) or g == e or abs(g - e) <= 1e-9 * (1 + abs(e)), what, got=g, expected=e, **ctx)


@case(n=200)
def ratios(m, r):
    n = r.int(1, 60)
    rl, cl, rcat, ccat = table(r, n)
    if r.chance(.15):                                   # a key named like a margin
        cl = ["Ratio" if c == "x" else c for c in cl]
        ccat = rt.Cat(np.array(cl))
    two = r.chance(.7)
    R, C = np.array(rl), np.array(cl) if two else np.array(["NotGrouped"] * n)
    v1, v2 = np.round(r.g.uniform(1, 10, n), 2), np.round(r.g.uniform(1, 10, n), 2)
    f1 = r.g.random(n) > .3 if r.chance(.5) else None
    f2 = r.g.random(n) > .3 if f1 is not None and r.chance(.5) else None
    kind = r.pick(["ratio", "ratiop"])
    s0 = [gen.snap(a) for a in (rcat, ccat)]
    m.note(kind=kind, n=n, two=two, filters=[f1 is not None, f2 is not None])
    ones = np.ones(n, bool)
    k1 = ones if f1 is None else f1
    k2 = k1 if f2 is None else f2
    with np.errstate(all="ignore"):
        if kind == "ratio":
            func = r.pick(["nansum", "sum", "nanmean"])
            agg = {"nansum": np.sum, "sum": np.sum, "nanmean": lambda y: y.mean() if len(y) else np.nan}[func]
            inn, inc = r.chance(.4), r.chance(.7)
            res = m.call("accum_ratio", lambda: rt.accum_ratio(rcat, ccat if two else None, rt.FA(v1), rt.FA(v2), f1, f2, func1=func, include_numer=inn, include_denom=inc))
            labs = row_labels(res)
            cols = sorted(set(C.tolist()))
            for c in cols:
                g = num(res["Ratio_" if c == "Ratio" else c])
                for i, b in enumerate(labs):
                    s = (R == b) & (C == c)
                    near(m, g[i], np.float64(agg(v1[s & k1])) / np.float64(agg(v2[s & k2])), "accum_ratio cell", func=func)
            g = num(res["Ratio"])
            for i, b in enumerate(labs):
                near(m, g[i], np.float64(agg(v1[(R == b) & k1])) / np.float64(agg(v2[(R == b) & k2])), "accum_ratio row margin", func=func)
            fd = res.footer_get_dict()
            for c in cols:
                near(m, fd["Ratio"]["Ratio_" if c == "Ratio" else c], np.float64(agg(v1[(C == c) & k1])) / np.float64(agg(v2[(C == c) & k2])), "accum_ratio column margin", func=func)
            near(m, fd["Ratio"]["Ratio"], np.float64(agg(v1[k1])) / np.float64(agg(v2[k2])), "accum_ratio grand total", func=func)
            for nm, on, vv, kk in (("Numer", inn, v1, k1), ("Denom", inc, v2, k2)):
                m.check((nm in res.keys()) == on, f"{nm} shown as asked", got=list(res.keys()))
                if on:
                    for i, b in enumerate(labs):
                        near(m, num(res[nm])[i], agg(vv[(R == b) & kk]), f"{nm} column")
                    for c in cols:
                        near(m, fd[nm]["Ratio_" if c == "Ratio" else c], agg(vv[(C == c) & kk]), f"{nm} footer")
        else:
            norm = r.pick(["T", "R", "C", "t"])
            tot = r.chance(.5)
            res = m.call("accum_ratiop", lambda: rt.accum_ratiop(rcat, ccat if two else None, rt.FA(v1), filter=f1, norm_by=norm, include_total=tot))
            labs = row_labels(res)
            for c in sorted(set(C.tolist())):
                g = num(res[c])
                for i, b in enumerate(labs):
                    s = v1[(R == b) & (C == c) & k1].sum()
                    den = {"T": v1[k1].sum(), "R": v1[(R == b) & k1].sum(), "C": v1[(C == c) & k1].sum()}[norm.upper()]
                    near(m, g[i], 100 * np.float64(s) / np.float64(den), "accum_ratiop cell", norm=norm)
            if tot:
                for i, b in enumerate(labs):
                    near(m, num(res["Total"])[i], v1[(R == b) & k1].sum(), "accum_ratiop total column")
    for a, s, w in zip((rcat, ccat), s0, ("rows", "columns")):
        m.check(not gen.snap_diff(s, gen.snap(a)), f"{w} unchanged by accum_{kind}")


@case(n=150)
def cols(m, r):
    """accum_cols and AccumTable"""
    n = r.int(1, 60)
    rl, cl, rcat, ccat = table(r, n)
    R, C = np.array(rl), np.array(cl)
    k = r.int(1, 4)
    vals = [np.round(r.g.uniform(1, 10, n), 2) for _ in range(k)]
    filts = [r.g.random(n) > .3 if r.chance(.4) else np.ones(n, bool) for _ in range(k)]
    funcs = [r.pick(["nansum", "nanmean", "nanmax", "nanmin"]) for _ in range(k)]
    names = [f"col_{chr(65 + i)}" for i in range(k)]
    kinds = [r.pick(["plain", "plain", "ratio", "p"]) if funcs[i] == "nansum" else "plain" for i in range(k)]
    m.note(n=n, kinds=kinds, funcs=funcs)
    other = np.round(r.g.uniform(1, 10, n), 2)

    def ag(f, y):
        return np.float64(red(f, y))
    if r.chance(.6):
        arg = [rt.FA(v) if q == "plain" else ([rt.FA(v), "p"] if q == "p" else (rt.FA(v), rt.FA(other))) for v, q in zip(vals, kinds)]
        res = m.call("accum_cols", lambda: rt.accum_cols(rcat, arg, names, [x for x in filts], funcs))
        labs = row_labels(res) if res.label_get_names() else [gen.txt(x) for x in plain(list(res.values())[0]).tolist()]
        m.check([c for c in res.keys()][-k:] == names, "names of accum_cols", got=list(res.keys()))
        tot = res.footer_get_dict()["Total"]
        with np.errstate(all="ignore"):
            for v, f, fn, q, nm in zip(vals, filts, funcs, kinds, names):
                def E(s):
                    if q == "plain":
                        return ag(fn, v[s])
                    return ag(fn, v[s]) / ag(fn, other[s]) if q == "ratio" else 100 * ag(fn, v[s]) / ag(fn, v[f])
                for i, b in enumerate(labs):
                    near(m, num(res[nm])[i], E((R == b) & f), f"accum_cols {q}", func=fn)
                near(m, tot[nm], E(f), f"accum_cols total of {q}", func=fn)
        return
    T = m.call("AccumTable", lambda: rt.AccumTable(rcat, ccat))
    for v, f, fn, nm in zip(vals, filts, funcs, names):
        T[nm] = m.call("inner table", lambda: getattr(T, fn)(rt.FA(v), filter=f))
    show = r.pick(names)
    marg = r.subset(names, 0, k)
    foot = r.subset(names, 0, k)
    m.call("margins", lambda: (T.set_margin_columns(marg), T.set_footer_rows(foot)))
    res = m.call("gen", lambda: T.gen(show, remove_blanks=False))
    labs = row_labels(res)
    byname = dict(zip(names, zip(vals, filts, funcs)))
    v, f, fn = byname[show]
    for c in sorted(set(cl)):
        for i, b in enumerate(labs):
            near(m, num(res[c])[i], ag(fn, v[(R == b) & (C == c) & f]), "AccumTable cell", func=fn)
    for q in [show] + [x for x in marg if x != show]:
        v, f, fn = byname[q]
        for i, b in enumerate(labs):
            near(m, num(res[q])[i], ag(fn, v[(R == b) & f]), "AccumTable margin column", func=fn)
    m.check(set(res.summary_get_names()) == set([show] + marg), "margin columns are as set", got=res.summary_get_names(), expected=[show] + marg)
    fd = res.footer_get_dict()
    m.check(set(fd) == set([show] + foot), "footer rows are as set", got=list(fd), expected=[show] + foot)
    for q in fd:
        v, f, fn = byname[q]
        for c in sorted(set(cl)):
            near(m, fd[q][c], ag(fn, v[(C == c) & f]), "AccumTable footer row", func=fn)


@case(n=250)
def bad(m, r):
    """rows and columns declared bad keep their cells and leave the margins"""
    n = r.int(3, 60)
    rl, cl, _, _ = table(r, n)
    lex, srt = r.chance(.6), r.chance(.2)
    rcat, ccat = [rt.Cat(np.array(x), ordered=lex, sort_gb=srt) for x in (rl, cl)]
    R, C = np.array(rl), np.array(cl)
    v = np.round(r.g.normal(0, 10, n), 2)
    f = r.pick(["sum", "nansum", "mean", "nanmean", "max", "nanmin", "var", "median"])
    filt = r.g.random(n) > .3 if r.chance(.4) else None
    keep = np.ones(n, bool) if filt is None else filt
    kw, badk = {}, {}
    for side, cat, labs in (("badrows", rcat, rl), ("badcols", ccat, cl)):
        if r.chance(.6):
            names = r.subset(sorted(set(labs)))
            if 0 < len(names) < len(set(labs)):
                cats = [gen.txt(x) for x in plain(cat.category_array).tolist()]
                if r.chance(.7) or srt:
                    kw[side] = np.array(names)
                else:
                    kw[side] = np.array([cats.index(x) for x in names], dtype=r.pick(["i4", "i8"]))
                badk[side] = set(names)
    m.note(func=f, kw={k: x.tolist() for k, x in kw.items()}, n=n, filter=filt is not None, ordered=lex, sort=srt)
    A = m.call("Accum2", lambda: rt.Accum2(rcat, ccat))
    fkw = {} if filt is None else {"filter": rt.FA(filt)}
    arg = dict(kw)
    show = r.chance(.25)
    if show:
        arg["showfilter"] = True
    off = int(show)
    s0 = {k: x.copy() for k, x in kw.items()}
    res = m.call(f"{f}(badrows/badcols)", lambda: A.count(**fkw, **arg) if f == "count" else getattr(A, f)(rt.FA(v), **fkw, **arg))
    for k in s0:
        m.check((s0[k] == kw[k]).all(), "bad keys unchanged")
    red_ = lambda mask: float(mask.sum()) if f == "count" else red(f, v[mask])
    labs = row_labels(res)[off:]
    cols_ = sorted(set(cl))
    for c in cols_:
        for i, b in enumerate(labs):
            near(m, num(res[c])[i + off], red_(keep & (R == b) & (C == c)), "cell", func=f)
    br, bc = badk.get("badrows", set()), badk.get("badcols", set())
    gr = keep & ~np.isin(R, list(br)) if br else keep
    gc = keep & ~np.isin(C, list(bc)) if bc else keep
    sm = res.summary_get_names()[0]
    fd = list(res.footer_get_dict().values())[0]
    for i, b in enumerate(labs):
        if b not in br:
            near(m, num(res[sm])[i + off], red_(gc & (R == b)), "margin of a good row", func=f)
    for c in cols_:
        if c not in bc:
            near(m, fd[c], red_(gr & (C == c)), "margin of a good column", func=f)
    if not show:
        near(m, fd[sm], red_(gr & gc), "grand total without bad rows and columns", func=f)


@case(n=150)
def cells(m, r):
    """an Accum2 tells the two keys of every row, and AccumTable lines its margins up with the rows left"""
    n = r.int(1, 40)
    rl, cl, rcat, ccat = table(r, n)
    A = m.call("Accum2", lambda: rt.Accum2(rcat, ccat))
    m.check(len(A) == n, "one bin per row")
    for i in range(n):
        m.check(tuple(gen.txt(x) for x in A[i]) == (cl[i], rl[i]), "keys of a row", have=str(A[i]), want=(cl[i], rl[i]))
    R, C = np.array(rl), np.array(cl)
    v, w = [np.round(r.g.uniform(1, 9, n), 2) for _ in range(2)]
    blank = r.pick(["a", "b", "cc", "dd"])
    f1 = R != blank
    f2 = r.g.random(n) > .3
    if not f1.any():
        return
    at = m.call("AccumTable", lambda: rt.AccumTable(rcat, ccat))
    at["Sum"] = A.sum(rt.FA(v), filter=rt.FA(f1))
    at["Mean"] = A.nanmean(rt.FA(w), filter=rt.FA(f2))
    at["Cnt"] = A.count(filter=rt.FA(f2))
    at.set_margin_columns(["Mean", "Cnt"])
    at.set_footer_rows(["Cnt"])
    rb = r.chance(.7)
    out = m.call("gen", lambda: at.gen("Sum", remove_blanks=rb))
    labs = row_labels(out)
    if rb:
        m.check(blank not in labs, "blank rows removed", have=labs)
    else:
        m.check(set(labs) == set(rl), "all rows", have=labs)
    m.check({x for x in set(rl) if x != blank} <= set(labs), "rows with data stay", have=labs)
    for c in sorted(set(cl)):
        if c not in out.keys():
            m.check(rb and not (f1 & (C == c)).any(), "column removed only when blank", col=c)
            continue
        for i, b in enumerate(labs):
            near(m, num(out[c])[i], v[f1 & (R == b) & (C == c)].sum(), "cell of the inner table")
        near(m, out.footer_get_dict()["Cnt"][c] if (f2 & (C == c)).any() else 0, (f2 & (C == c)).sum(), "footer row")
    for i, b in enumerate(labs):
        y = w[f2 & (R == b)]
        near(m, num(out["Mean"])[i], y.mean() if len(y) else np.nan, "margin column Mean")
        near(m, num(out["Cnt"])[i], len(y), "margin column Cnt")
        near(m, num(out["Sum"])[i], v[f1 & (R == b)].sum(), "margin column of the table itself")


@case(n=150)
def dataset_entry(m, r):
    """ds.accum1 / ds.accum2 / Categorical keys by name: cells and margins account for every row once."""
    n = r.int(1, 60)
    R = [r.pick(["x", "yy", "z"]) for _ in range(n)]
    C = [r.pick([1, 20, 3, 4]) for _ in range(n)]
    v = r.g.integers(-50, 50, n) * 1.0
    ds = rt.Dataset({"R": R, "C": rt.FastArray(np.array(C)), "v": rt.FastArray(v)})
    filt = gen.bools(r, n, .7) if r.chance(.4) else None
    live = np.ones(n, bool) if filt is None else filt
    m.note(R=R, C=C, filt=filt)
    if not live.any():
        return
    ordered = r.pick([None, True, False])
    kw = {} if ordered is None else {"ordered": ordered}
    if filt is not None:
        kw["filter"] = rt.FastArray(filt)
    A = m.call("ds.accum2", ds.accum2, "R", "C", **kw)
    f = r.pick(["sum", "count", "max"])
    res = m.call("accum2." + f, lambda: A.count() if f == "count" else getattr(A, f)(ds.v))
    names = [c for c in res.keys() if c not in ("R",)]
    rk = [gen.txt(x) for x in gen.decode(res.R).tolist()]
    rows = sorted(set(R)) if ordered is not False else list(dict.fromkeys(R))
    m.check(sorted(rk) == sorted(rows), f"row keys {rk}")
    m.check([c for c in names if c.lstrip("-").isdigit()] == [str(c) for c in (sorted(set(C)) if ordered is not False else list(dict.fromkeys(C)))], f"column keys {names}")
    margin = [c for c in names if not c.lstrip("-").isdigit()]
    m.check(len(margin) == 1, f"margins {margin}")
    for i, k in enumerate(rk):
        for c in names:
            sel = [j for j in range(n) if live[j] and R[j] == k and (c == margin[0] or str(C[j]) == c)]
            got = plain(res[c])[i]
            if f == "max" and not sel:
                m.check(got != got, f"max of an empty cell {k},{c} is {got}")
            else:
                e = len(sel) if f == "count" else v[sel].sum() if f == "sum" else v[sel].max()
                m.check(got == e, f"accum2 {f} cell {k},{c}: {got} != {e}")
    g = m.call("ds.accum1", ds.accum1, "R")
    s = m.call("accum1.sum", lambda: g.sum())
    for k, got in zip(gen.decode(s.R).tolist(), plain(s.v).tolist()):
        m.check(got == sum(v[j] for j in range(n) if R[j] == gen.txt(k)), f"accum1 sum of {k}: {got}")
    m.check(len(s) == len(set(R)) if not hasattr(s, "shape") else s.shape[0] == len(set(R)), "accum1 rows")
