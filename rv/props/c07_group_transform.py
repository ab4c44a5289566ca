"""C07: per-row group operations stay aligned with their rows and confined to their group."""
import logging
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen, gb

logging.disable(logging.WARNING)

VK = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "f4", "f8", "f8", "f8"]


def nrows(r):
    n = r.pick([0, 1, 2, 3, r.int(4, 30), r.int(4, 30), r.int(31, 200)])
    return n if not r.chance(0.006) else r.int(17000, 70000)


def vcols(r, n, inv=0, k=None, kinds=VK, lo=-20, hi=100):
    out = {}
    for i in range(k or r.int(1, 2)):
        kd = r.pick(kinds)
        p = inv if inv is not None else r.pick([0, 0.2, 0.5])
        a = gen.num(r, n, kd, inv=p if (kd[0] == "f" or inv is None) else 0, lo=lo, hi=hi)
        if kd[0] == "f":
            a = np.round(a, 1)
        out[f"v{i}"] = rt.FastArray(a)
    return out


def arr_eq(m, got, exp, what, tol=None, **kw):
    if tol:
        m.close(got, exp, what, rtol=tol, atol=tol, **kw)
    else:
        m.same(got, exp, what, **kw)


def miss1(a):
    return gen.is_inv(plain(a))


def place(g, n, fn, exp_dtype=np.float64, fill=np.nan):
    """fn(rows) -> values of those rows; rows in no group keep `fill`."""
    out = np.full(n, fill, dtype=exp_dtype)
    for rows in g.part.rows:
        if rows:
            out[rows] = fn(np.array(rows))
    return out


def cmp_missing(m, got, exp, g, what, tol=1e-9, also=None, nogroup="missing"):
    """got: result column; exp: float64 array with NaN = missing."""
    got = plain(got)
    m.check(len(got) == len(exp), f"{what}: {len(got)} results for {len(exp)} rows")
    if len(exp) == 0:
        return
    mi = miss1(got)
    em = np.isnan(exp)
    judged = g.inb if nogroup == "skip" else np.ones(len(exp), bool)
    bad = judged & (mi != em)
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        m.check(False, f"{what}: row {i}: {got[i]!r} but expected {exp[i]!r} ({int(bad.sum())} rows)", mech=also(i, got) if also else None)
    use = judged & ~em
    gf = got[use].astype(np.float64)
    with np.errstate(all="ignore"):
        d = ~(np.abs(gf - exp[use]) <= tol * np.maximum(1, np.abs(exp[use])))
    d &= ~(gf == exp[use])
    if d.any():
        i = int(np.flatnonzero(use)[np.flatnonzero(d)[0]])
        m.check(False, f"{what}: row {i}: {got[i]!r} but expected {exp[i]!r} ({int(d.sum())} rows)", mech=also(i, got) if also else None)


def tolof(v):
    return 2e-4 if plain(v).dtype == np.float32 else 1e-9


@case(n=900)
def cumulative(m, r):
    n = nrows(r)
    op = r.pick(["cumsum", "cummin", "cummax", "cumprod"])
    skip = r.chance(0.7)
    cols = vcols(r, n, inv=r.pick([0, 0, 0.15]) if op in ("cumsum", "cumprod") else None, lo=1 if op == "cumprod" else -20, hi=2 if op == "cumprod" else 100)
    if op == "cumprod":
        cols = {c: (v if plain(v).dtype.kind == "f" else rt.FastArray(np.where(plain(v) > 1, 1, plain(v)).astype(plain(v).dtype) + 0)) for c, v in cols.items()}
        if n > 300:
            cols = {c: rt.FastArray(np.ones(n, dtype=plain(v).dtype)) for c, v in cols.items()}
    g = gb.Grouped(m, r, n, cols)
    filt = gen.bools(r, n, 0.6) if r.chance(0.4) else None
    reset = gen.bools(r, n, 0.2) if r.chance(0.4) else None
    kw = {}
    if filt is not None:
        kw["filter"] = filt if r.chance() else rt.FastArray(filt)
    if reset is not None:
        kw["reset_filter"] = reset
    if op in ("cummin", "cummax") and not skip:
        kw["skipna"] = False
    m.note(n=n, op=op, kind=g.kind, pre=g.pre is not None, filt=filt, reset=reset, skip=skip, kv=np.array([str(x) for x in g.kv[:40]]), v=cols["v0"])
    if n == 0 or g.part.count == 0:
        return
    before = {c: plain(v).copy() for c, v in cols.items()}
    res = g.run(op, **kw)
    start = {"cumsum": 0.0, "cumprod": 1.0}.get(op, np.nan)

    for c, v in cols.items():
        pv = plain(v).astype(np.float64)
        pv[gen.is_inv(plain(v))] = np.nan

        def one(rows):
            out, acc, seen = [], start, False
            for i in rows:
                if filt is None or filt[i]:
                    if reset is not None and reset[i]:
                        acc, seen = start, False
                    x = pv[i]
                    if op == "cumsum":
                        acc = acc + x
                    elif op == "cumprod":
                        acc = acc * x
                    elif not seen:
                        acc = x
                        seen = not (skip and x != x)
                    elif x != x:
                        acc = acc if skip else np.nan
                    elif acc == acc:
                        acc = min(acc, x) if op == "cummin" else max(acc, x)
                out.append(acc)
            return out
        exp = place(g, n, one)
        got = res[c]
        big = np.abs(np.where(np.isnan(exp), 0, exp)) > 1e15
        if big.any():
            return
        cmp_missing(m, got, exp, g, f"{g.kind}.{op}({','.join(kw)})[{c}]", tolof(v) * (1 if n < 1000 else 50))
        m.check(np.array_equal(plain(v), before[c], equal_nan=plain(v).dtype.kind == "f"), f"{op} changed its input")


@case(n=900)
def rolling(m, r):
    n = nrows(r)
    op = r.pick(["rolling_sum", "rolling_nansum", "rolling_mean", "rolling_nanmean", "rolling_median", "rolling_quantile", "rolling_diff", "rolling_shift"])
    nanop = "nan" in op or op in ("rolling_median", "rolling_quantile", "rolling_shift")
    inv = None if nanop else r.pick([0, 0, 0, 0.1])
    cols = vcols(r, n, inv=inv)
    if op == "rolling_diff":
        cols = {c: (v if plain(v).dtype.kind in "f" else rt.FastArray(np.clip(plain(v).astype(np.int64), 0, 60).astype(r.pick(["i2", "i4", "i8"])))) for c, v in cols.items()}
    g = gb.Grouped(m, r, n, cols)
    w = r.pick([1, 2, 3, 4, 7, 20, 500])
    if op in ("rolling_diff", "rolling_shift"):
        w = r.pick([1, 1, 2, 3, -1, -2, 20])
    kw = {"window": w}
    q = None
    if op == "rolling_quantile":
        q = kw["q"] = r.pick([0, 0.5, 1, 0.25])
    filt = gen.bools(r, n, 0.6) if r.chance(0.3) else None
    if filt is not None:
        kw["filter"] = filt
    m.note(n=n, op=op, kind=g.kind, w=w, q=q, pre=g.pre is not None, filt=filt, kv=np.array([str(x) for x in g.kv[:40]]), v=cols["v0"])
    if n == 0 or g.part.count == 0:
        return
    res = g.run(op, **kw)
    part = gb.Part(g.kv, g.inb if filt is None else g.inb & filt)
    for c, v in cols.items():
        pv = plain(v).astype(np.float64)
        pv[gen.is_inv(plain(v))] = np.nan
        exp = np.full(n, np.nan)
        tainted = np.zeros(n, bool)
        for rows in part.rows:
            x = pv[rows]
            for j, i in enumerate(rows):
                lo = max(0, j - w + 1)
                win = x[lo:j + 1] if w > 0 else None
                if op in ("rolling_shift", "rolling_diff"):
                    s = x[j - w] if 0 <= j - w < len(x) else np.nan
                    exp[i] = s if op == "rolling_shift" else x[j] - s
                elif op == "rolling_sum":
                    exp[i] = win.sum()
                elif op == "rolling_mean":
                    exp[i] = win.mean()
                else:
                    ok = np.sort(win[~np.isnan(win)])
                    if op == "rolling_nansum":
                        exp[i] = ok.sum()
                    elif len(ok):
                        if op == "rolling_nanmean":
                            exp[i] = ok.mean()
                        else:
                            p = (0.5 if op == "rolling_median" else q) * (len(ok) - 1)
                            exp[i] = (ok[int(np.floor(p))] + ok[int(np.ceil(p))]) / 2
                tainted[i] = np.isnan(x[:j + 1]).any()
        mech = lambda i, a: "rolling-nan-sticky" if op in ("rolling_sum", "rolling_mean") and tainted[i] and np.isnan(a[i]) else None
        cmp_missing(m, res[c], exp, g, f"{g.kind}.{op}(w={w})[{c}]", max(tolof(v), 1e-7) * (1 if n < 1000 else 100), also=mech)


@case(n=400)
def counting(m, r):
    n = nrows(r)
    cols = vcols(r, n)
    g = gb.Grouped(m, r, n, cols)
    if n == 0 or g.part.count == 0:
        return
    filt = gen.bools(r, n, 0.6) if r.chance(0.4) else None
    kw = {} if filt is None else {"filter": filt}
    asc = r.chance(0.6)
    m.note(n=n, kind=g.kind, filt=filt, asc=asc, kv=np.array([str(x) for x in g.kv[:40]]))
    got = plain(m.call("cumcount", g.g.cumcount, **dict(kw, **({} if asc else {"ascending": False}))))
    part = gb.Part(g.kv, g.inb if filt is None else g.inb & filt)
    exp = np.full(n, np.nan)
    for rows in part.rows:
        k = np.arange(len(rows))
        exp[rows] = k if asc else k[::-1]
    cmp_missing(m, got, exp, g, f"{g.kind}.cumcount")


@case(n=500)
def shifts(m, r):
    """shift of every column class keeps class and moves whole values within the group."""
    n = r.pick([1, 2, 5, r.int(3, 60), r.int(3, 60)])
    cols = {f"c{i}": gen.column(r, n, r.pick(["num", "bool", "S", "U", "date", "dtn", "span", "S"]), 0.1) for i in range(r.int(1, 4))}
    g = gb.Grouped(m, r, n, cols, kinds=["gb", "gbu", "gblex", "ds.cat", "Cat", "catdict", "Cat0", "CatEnum", "CatCodes"])
    if g.part.count == 0:
        return
    w = r.pick([1, 1, 2, -1, -2, 5])
    op = r.pick(["rolling_shift", "shift"])
    filt = gen.bools(r, n, 0.6) if r.chance(0.3) else None
    kw = {r.pick(["window", "periods"]) if op == "shift" else "window": w}
    if filt is not None:
        kw["filter"] = filt
    m.note(n=n, kind=g.kind, op=op, kw=kw, classes=[type(v).__name__ for v in cols.values()], kv=np.array([str(x) for x in g.kv[:40]]))
    if op == "shift" and g.kind == "ds.cat":
        res = {c: list(m.call(op, g.g.shift, v, **kw).values())[0] for c, v in cols.items()}
    elif op == "shift" and not g.is_gb:
        res = {}
        for c, v in cols.items():
            x = m.call(op, g.g.shift, v, **kw)
            m.check(isinstance(x, rt.Dataset), f"shift returned {type(x)}")
            res[c] = x[[k for k in x.keys() if not isinstance(x[k], rt.Categorical)][0]]
    else:
        res = g.run(op, **kw)
    part = gb.Part(g.kv, g.inb if filt is None else g.inb & filt)
    for c, v in cols.items():
        out = res[c]
        m.check(type(out) is type(v), f"{op}: class {type(out).__name__} of a {type(v).__name__} column")
        pv, po = plain(v), plain(out)
        m.check(len(po) == n, f"{op}: {len(po)} rows")
        src = np.full(n, -1)
        for rows in part.rows:
            rows = np.array(rows, dtype=int)
            if w > 0 and w < len(rows):
                src[rows[w:]] = rows[:-w]
            elif w < 0 and -w < len(rows):
                src[rows[:w]] = rows[-w:]
        have = src >= 0
        m.same(po[have], pv[src[have]], f"{g.kind}.{op}({w})[{c}]")
        if pv.dtype.kind != "b":
            mi = miss1(po)[~have]
            m.check(bool(mi.all()), f"{g.kind}.{op}({w})[{c}]: rows with no neighbour are not invalid: {po[~have][:5]}")
        else:
            m.check(not po[~have].any(), f"{op}: bool rows with no neighbour not False")


@case(n=700)
def fills(m, r):
    n = nrows(r)
    n = min(n, 3000)
    cols = vcols(r, n, inv=None)
    g = gb.Grouped(m, r, n, cols)
    if n == 0 or g.part.count == 0:
        return
    back = r.chance()
    op = r.pick(["fill_backward", "backfill"] if back else ["fill_forward", "pad"]) if g.is_gb else ("fill_backward" if back else "fill_forward")
    if not hasattr(g.g, op):
        op = "fill_backward" if back else "fill_forward"
    kw = {}
    lim = r.pick([0, 0, 1, 2, 5])
    if lim or r.chance(0.3):
        kw["limit"] = lim
    fv = r.pick([None, None, 7, 0])
    if fv is not None:
        kw["fill_val"] = fv
    inplace = r.chance(0.25)
    if inplace:
        kw["inplace"] = True
    m.note(n=n, kind=g.kind, op=op, kw=kw, pre=g.pre is not None, kv=np.array([str(x) for x in g.kv[:40]]), v=cols["v0"])
    before = {c: plain(v).copy() for c, v in cols.items()}
    res = g.run(op, **kw)
    for c, v in cols.items():
        x = before[c]
        mi = gen.is_inv(x)
        exp = x.copy()
        for rows in g.part.rows:
            rows = rows[::-1] if back else rows
            last, cnt, have = None, 0, False
            for i in rows:
                if mi[i]:
                    cnt += 1
                    if lim and cnt > lim:
                        continue
                    if have:
                        exp[i] = last
                    elif fv is not None:
                        exp[i] = fv
                else:
                    last, cnt, have = x[i], 0, True
        got = plain(res[c])
        m.check(got.dtype == x.dtype, f"{op}: dtype {got.dtype} from {x.dtype}")
        m.same(got[g.inb], exp[g.inb], f"{g.kind}.{op}({kw})[{c}]")
        m.same(got[~g.inb], x[~g.inb], f"{g.kind}.{op}({kw})[{c}] rows in no group")
        if inplace:
            if g.kind not in ("gb", "gbu", "gblex", "ds.cat"):
                m.same(plain(v), got, f"{op}(inplace) did not change the input")
            else:
                m.same(plain(g.ds[c]), got, f"{op}(inplace) did not change the input")
        else:
            m.same(plain(v), before[c], f"{op} changed its input")


@case(n=700)
def ema(m, r):
    n = nrows(r)
    cols = vcols(r, n, inv=0, kinds=["f8", "f4", "i4", "i8", "u1", "i2"])
    g = gb.Grouped(m, r, n, cols)
    if n == 0 or g.part.count == 0:
        return
    op = r.pick(["ema_decay", "ema_normal", "ema_weighted"])
    d = r.pick([0.5, 0.1, 1.0, 0.01, 2.0]) if op != "ema_weighted" else r.pick([0.5, 0.1, 0.9])
    t = np.cumsum(r.g.integers(0, 4, n)).astype(r.pick(["f8", "i4", "i8"]))
    kw = {"decay_rate": d}
    if op != "ema_weighted":
        kw["time"] = rt.FastArray(t)
    filt = gen.bools(r, n, 0.6) if r.chance(0.3) else None
    reset = gen.bools(r, n, 0.2) if r.chance(0.3) else None
    if filt is not None:
        kw["filter"] = filt
    if reset is not None:
        kw["reset_filter"] = reset
    m.note(n=n, kind=g.kind, op=op, d=d, filt=filt, reset=reset, pre=g.pre is not None, t=t, kv=np.array([str(x) for x in g.kv[:40]]), v=cols["v0"])
    res = g.run(op, **kw)
    tf = t.astype(np.float64)
    for c, v in cols.items():
        pv = plain(v).astype(np.float64)
        got = plain(res[c])
        m.check(len(got) == n, f"{op}: {len(got)} rows")
        if op == "ema_decay" and reset is not None and (filt is not None or (g.is_gb and g.pre is not None)):
            ff = g.inb if filt is None else g.inb & filt
            m.check(bool(got[ff].any()) or not pv[ff].any(), f"{op}: all zero with both filter and reset_filter", mech="ema-decay-filter-and-reset")
        elif filt is None and (reset is None or op == "ema_decay"):
            def one(rows):
                out, last, lt = [], None, None
                for i in rows:
                    if reset is not None and reset[i]:
                        last = None
                    x = pv[i]
                    if last is None:
                        last = x
                    elif op == "ema_decay":
                        last = x + last * np.exp(-d * (tf[i] - lt))
                    elif op == "ema_normal":
                        wgt = np.exp(-d * (tf[i] - lt))
                        last = x * (1 - wgt) + last * wgt
                    else:
                        last = x * (1 - d) + last * d
                    lt = tf[i]
                    out.append(last)
                return out
            exp = place(g, n, one)
            cmp_missing(m, got, exp, g, f"{g.kind}.{op}[{c}]", 1e-3 if got.dtype == np.float32 else 1e-6, nogroup="skip")
        # confinement: the same computation on one group's rows alone gives the same numbers
        if n <= 300:
            rows = np.array(r.pick([x for x in g.part.rows if x]))
            one_cat = rt.Cat(np.array(["g"] * len(rows)))
            kw2 = {k: (x[rows] if isinstance(x, np.ndarray) else x) for k, x in kw.items()}
            alone = plain(m.call(op + "(one group)", getattr(one_cat, op), v[rows], **kw2)["col_0"])
            m.close(got[rows], alone, f"{g.kind}.{op}[{c}]: rows of one group differ from that group alone", rtol=1e-6, atol=1e-6)


@case(n=500)
def confinement(m, r):
    """Changing values of other groups, or permuting whole rows while keeping the order in each group, changes nothing."""
    n = r.pick([2, 5, r.int(3, 60), r.int(60, 400)])
    op = r.pick(["cumsum", "cummin", "cummax", "rolling_sum", "rolling_nanmean", "rolling_shift", "rolling_diff", "fill_forward", "fill_backward", "rolling_median", "cumprod"])
    v = rt.FastArray(np.round(gen.num(r, n, "f8", inv=0.2 if op in ("rolling_nanmean", "fill_forward", "fill_backward", "cummin") else 0, lo=-1, hi=1), 2))
    codes = r.g.integers(0, r.int(1, 6), n)
    m.note(n=n, op=op, codes=codes, v=v)

    def run(k, vals):
        res = m.call(op, getattr(rt.Cat(rt.FastArray(k)), op), vals)
        return plain(res["col_0"])
    base = run(codes, v)
    gsel = int(codes[r.int(0, n - 1)])
    other = codes != gsel
    v2 = v.copy()
    plain(v2)[other] = r.g.normal(size=int(other.sum()))
    m.close(run(codes, v2)[~other], base[~other], f"{op}: group {gsel} depends on other groups", rtol=1e-9, atol=1e-9)
    perm = np.argsort(codes, kind="stable")
    m.close(run(codes[perm], v[perm]), base[perm], f"{op}: result depends on how groups interleave", rtol=1e-9, atol=1e-9)


@case(n=120)
def rolling_quantiles(m, r):
    """several quantiles in one call: one column per column and quantile, equal to the single calls"""
    n = r.pick([3, 8, 30])
    cols = {c: rt.FastArray(v) for c, v in vcols(r, n).items()}
    key = rt.FastArray(r.g.integers(0, 3, n))
    ds = rt.Dataset({"key": key, **cols})
    qs = r.subset([0, .1, .25, .5, .75, .9, 1], 2, 4)
    w = r.pick([1, 2, 3, 50])
    g = ds.gb("key") if r.chance() else rt.Categorical(key)
    run = (lambda **kw: g.rolling_quantile(**kw)) if isinstance(g, rt.GroupBy) else (lambda **kw: g.rolling_quantile(ds[list(cols)], **kw))
    many = m.call("rolling_quantile", run, q=qs, window=w)
    for q in qs:
        one = m.call("rolling_quantile", run, q=q, window=w)
        for c in cols:
            name = f"{c}_q" + f"{q:.3g}".replace(".", "_")
            m.check(name in many, "a quantile column is missing", name=name, have=list(many.keys()))
            m.same(plain(many[name]), plain(one[c]), "rolling_quantile of several quantiles")
    m.check(len([k for k in many.keys() if "_q" in k]) == len(cols) * len(qs), "rolling_quantile: columns", have=list(many.keys()))


@case(n=300, thorough=3000)
def defaults(m, r):
    """Without arguments: windows of 3 (rolling) or 1 (shift, diff), ascending counts, population/sample conventions as documented; and the source stays."""
    n = r.pick([1, 2, r.int(3, 40)])
    k = [r.int(0, 3) for _ in range(n)]
    x = r.g.integers(-40, 40, n) * 0.5
    nan = gen.bools(r, n, 0.2)
    xn = np.where(nan, np.nan, x)
    ds = rt.Dataset({"k": rt.FastArray(np.array(k)), "v": rt.FastArray(x.copy()), "w": rt.FastArray(xn.copy())})
    how = r.pick(["gb", "cat"])
    op = r.pick(["rolling_sum", "rolling_mean", "rolling_nansum", "rolling_diff", "rolling_shift", "cumcount", "fill_forward", "fill_backward", "cumsum", "std", "var"])
    if op.startswith("fill"):
        how = "gb"
    m.note(k=k, x=x, how=how, op=op)
    rows_of = [[i for i in range(n) if k[i] == q] for q in sorted(set(k))]

    def go(name, col, *a, **kw):
        if how == "gb":
            return plain(m.call("gb." + name, getattr(ds.gb("k"), name), *a, **kw)[col])
        c = rt.Cat(ds.k)
        res = m.call("cat." + name, getattr(c, name), ds[col], *a, **kw)
        return plain(res[[q for q in res.keys()][-1]] if isinstance(res, rt.Struct) else res)

    if op in ("std", "var"):
        c = rt.Cat(ds.k)
        got = plain(m.call("cat." + op, getattr(c, op), ds.v)[-1 if False else "v"])
        e = np.array([getattr(np, op)(x[rows], ddof=1) if len(rows) > 1 else np.nan for rows in rows_of])
        m.close(got, e, op, rtol=1e-9, atol=1e-9)
    elif op == "cumcount":
        got = plain(m.call("cumcount", (ds.gb("k") if how == "gb" else rt.Cat(ds.k)).cumcount))
        for rows in rows_of:
            m.same(got[rows], np.arange(len(rows)), op)
    else:
        got = go(op, "w" if op.startswith("fill") else "v")
        for rows in rows_of:
            g, y = got[rows], x[rows]
            if op in ("rolling_sum", "rolling_nansum"):
                m.close(g, np.array([y[max(0, i - 2):i + 1].sum() for i in range(len(rows))]), op, rtol=1e-9, atol=1e-9)
            elif op == "rolling_mean":
                m.close(g, np.array([y[max(0, i - 2):i + 1].mean() for i in range(len(rows))]), op, rtol=1e-9, atol=1e-9)
            elif op == "cumsum":
                m.close(g, np.cumsum(y), op, rtol=1e-9, atol=1e-9)
            elif op == "rolling_diff":
                m.same(g[1:], np.diff(y), op)
            elif op == "rolling_shift":
                m.same(g[1:], y[:-1], op)
            else:
                z = xn[rows][::-1] if op == "fill_backward" else xn[rows]
                e, last = [], np.nan
                for v in z:
                    last = v if v == v else last
                    e.append(last)
                m.same(g, np.array(e[::-1] if op == "fill_backward" else e), op)
    m.same(plain(ds.v), x, f"{op} changed the source")
    m.same(plain(ds.w), xn, f"{op} changed the source")
