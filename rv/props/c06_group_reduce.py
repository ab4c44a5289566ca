"""C06: group reductions equal the same function computed per group, through every entry point."""
import logging
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen, gb

logging.disable(logging.WARNING)

OPS = ["sum", "nansum", "mean", "nanmean", "min", "nanmin", "max", "nanmax", "first", "last", "median", "nanmedian", "mode", "var", "nanvar", "std", "nanstd",
       "quantile", "nanquantile", "percentile", "nanpercentile", "count_uniques", "nth"]
VKINDS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "f8", "f8"]
KEYK = ["i1", "i4", "i8", "u2", "S", "S", "U", "date", "bool", "f8", "dtn"]


def reduce_one(op, v, q=None, nth=0):
    """Expected value for one group: (value or None for missing). v: plain 1-d array."""
    inv = gen.is_inv(v)
    nan = op.startswith("nan")
    base = op[3:] if nan else op
    if base == "first":
        return None if len(v) == 0 else v[0]
    if base == "last":
        return None if len(v) == 0 else v[-1]
    if base == "nth":
        i = nth if nth >= 0 else len(v) + nth
        return v[i] if 0 <= i < len(v) else None
    if base == "count_uniques":
        return len({("nan",) if isinstance(x, float) and x != x else x for x in v.tolist()})
    if nan:
        v = v[~inv]
    elif inv.any():
        return None
    if base == "sum":
        if v.dtype.kind == "f":
            return float(np.sum(v.astype(np.float64)))
        return int(sum(int(x) for x in v.tolist()))
    if len(v) == 0:
        return None
    f = v.astype(np.float64)
    if base == "mean":
        return float(f.mean())
    if base == "min":
        return v.min()
    if base == "max":
        return v.max()
    if base == "median":
        return float(np.median(f))
    if base in ("var", "std"):
        if len(f) == 1:
            return None
        x = float(np.var(f, ddof=1))
        return x if base == "var" else float(np.sqrt(x))
    if base in ("quantile", "percentile"):
        f = np.sort(f)
        p = q * (len(f) - 1)
        if abs(p - round(p)) < 1e-6:
            p = round(p)
            return float(f[int(p)]), {float(f[max(int(p) - 1, 0)]), float(f[min(int(p) + 1, len(f) - 1)])}
        return float((f[int(np.floor(p))] + f[int(np.ceil(p))]) / 2)
    raise AssertionError(op)


def miss(x):
    return bool(gen.is_inv(np.atleast_1d(plain(x)))[0])


def eq(got, exp, v, op):
    if op == "mode":
        return True
    if exp is None:
        return miss(got)
    if isinstance(exp, tuple):
        exp = exp[0]
    g, e = np.atleast_1d(plain(got))[0], exp
    if isinstance(g, (bytes, str)) or isinstance(e, (bytes, str)):
        return gen.txt(g) == gen.txt(e)
    if isinstance(e, (int, np.integer, bool, np.bool_)) and isinstance(g, (int, np.integer, np.bool_)):
        return int(g) == int(e) or (op in ("sum", "nansum") and (int(g) - int(e)) % 2**64 == 0)      # 64-bit sums wrap
    g, e = float(g), float(e)
    if g != g and e != e:
        return True
    av = np.abs(v.astype(np.float64)) if v.dtype.kind in "iufb" else np.ones(1)
    av = av[~np.isnan(av)]
    scale = float(av.max()) if len(av) else 1.0
    if v.dtype == np.float32:
        rt_, at = 2e-4, 2e-4 * max(scale, 1) ** (2 if "var" in op else 1) if op not in ("std", "nanstd") else 2e-2 * max(scale, 1)
    else:
        rt_, at = 1e-8, 1e-8 * max(scale, 1) ** (2 if "var" in op else 1) if op not in ("std", "nanstd") else 1e-5 * max(scale, 1)
    return abs(g - e) <= at + rt_ * abs(e)


def values(r, n, op):
    k = r.pick(VKINDS)
    if op in ("first", "last", "nth", "count_uniques") and r.chance(0.5):
        c = gen.column(r, n, r.pick(["S", "U", "date", "dtn", "span", "bool"]), 0.15)
        return c
    if op == "mode":
        return rt.FastArray(gen.num(r, n, k, inv=0, card=r.int(1, 4)))
    if op in ("var", "std", "nanvar", "nanstd", "mean", "nanmean", "median", "nanmedian", "quantile", "nanquantile", "percentile", "nanpercentile") or k[0] == "f":
        inv = r.pick([0, 0, 0.2])
        if not op.startswith("nan") and k[0] in "iu":
            inv = 0
        a = gen.num(r, n, k, inv=inv, lo=-100, hi=100)
        if k[0] == "f":
            a = np.round(a, 2) + a.dtype.type(0)        # no negative zeros: a finding of C14
        return rt.FastArray(a)
    inv = r.pick([0, 0, 0.2]) if op.startswith("nan") or op in ("first", "last", "nth", "count_uniques") else 0
    return rt.FastArray(gen.num(r, n, k, inv=inv))


def judge(m, op, col, v, p, filt, what, q=None, nth=0, mode_keys=None):
    """col: result column in p's group order."""
    col = col if not isinstance(col, rt.Categorical) else gen.decode(col)
    m.check(len(col) == p.count, f"{what}: {len(col)} results for {p.count} groups")
    pc = plain(col)
    pv = plain(v)
    for j, rows in enumerate(p.rows):
        sub = pv[rows]
        m.oracles += 1
        if op == "mode":
            if len(sub) == 0:
                m.check(miss(pc[j]), f"{what}: mode of an empty group")
                continue
            vals, cn = np.unique(sub, return_counts=True)
            ok = pc[j] in vals[cn == cn.max()]
            m.check(ok, f"{what}: mode of group {p.keys[j]!r} = {pc[j]!r}, rows {sub[:20]}")
            continue
        e = reduce_one(op, sub, q, nth)
        if e is None and pv.dtype.kind == "b":
            continue
        if not eq(pc[j], e, sub, op):
            if isinstance(e, tuple):
                # the quantile position falls on an element within rounding of q
                lo = {round((e[0] + x) / 2, 9) for x in e[1]}
                if round(float(pc[j]), 9) in lo and 0 < q < 1:
                    continue
                e = e[0]
            if e is None and len(sub) == 0 and (isinstance(v, rt.DateTimeNano) or isinstance(v, rt.Date)) and int(pc[j]) == 0:
                continue
            m.check(False, f"{what}: group {p.keys[j]!r}: {pc[j]!r} != {e!r}", rows=sub[:30])


def order_of(g, kind, p):
    if kind == "gb":
        return sorted(p.keys, key=gb.okey)
    return p.keys


def opkw(r, op):
    kw, q, nth = {}, None, 0
    if op.endswith("quantile"):
        q = r.pick([0, 0.1, 0.25, 0.5, 0.75, 0.9, 1, 0.33])
        kw["q"] = q if r.chance() else [q]
    elif op.endswith("percentile"):
        q = r.pick([0, 10, 25, 50, 75, 99, 100])
        kw["q"] = q
        q = q / 100
    elif op == "nth":
        nth = r.pick([0, 0, 1, 2, 3, -1])
    return kw, q, nth


@case(n=2500)
def entry_points(m, r):
    n = r.pick([1, 2, 3, r.int(4, 30), r.int(31, 120), r.int(121, 500), r.int(121, 500)])
    if r.chance(0.006):
        n = r.int(17000, 90000)
    op = r.pick(OPS)
    nk = r.pick([1, 1, 2])
    ks = [gb.key(r, n, r.pick(KEYK), card=r.pick([1, 2, 4, 8, 30])) for _ in range(nk)]
    kv = gb.tuples([v for _, v in ks])
    names = ["k%d" % i for i in range(nk)]
    vcols = {f"v{i}": values(r, n, op) for i in range(r.int(1, 3))}
    ds = rt.Dataset(dict(r.perm(list(zip(names, [a for a, _ in ks])) + list(vcols.items()))))
    pre = gen.bools(r, n, 0.7) if r.chance(0.25) else None
    post = gen.bools(r, n, 0.6) if r.chance(0.35) else None
    kind = r.pick(["gb", "gbu", "gblex", "ds.cat", "Cat", "catlist", "catdict"])
    if op == "nth" and kind not in ("ds.cat", "Cat", "catlist", "catdict"):
        nth_direct = True
        post = None
    else:
        nth_direct = False
    transform = r.chance(0.25) and not nth_direct
    kw, q, nth = opkw(r, op)
    m.note(n=n, op=op, kind=kind, kw=kw, nth=nth, keys=[(type(a).__name__, str(a.dtype)) for a, _ in ks], vals=[(type(v).__name__, str(v.dtype)) for v in vcols.values()],
           pre=pre is not None, post=post is not None, transform=transform, k0=ks[0][0], v0=list(vcols.values())[0])
    before = gen.snap(ds)
    by = names if nk > 1 else names[0]
    fkw = {"filter": pre} if pre is not None else {}
    if kind == "gb":
        g = m.call("gb", ds.gb, by, **fkw)
    elif kind == "gbu":
        g = m.call("gbu", ds.gbu, by, **fkw)
    elif kind == "gblex":
        g = m.call("gb(lex)", ds.gb, by, lex=True, **fkw)
    elif kind == "ds.cat":
        g = m.call("ds.cat", ds.cat, by, **fkw)
    else:
        g = m.call("Cat", rt.Cat, [a for a, _ in ks] if nk > 1 else ks[0][0], **dict(fkw, **({"ordered": r.chance()} if r.chance() else {})))
    part_all = gb.Part(kv, pre)
    if part_all.count == 0:
        return
    order = part_all.keys
    if kind == "gb" or kind == "gblex" or (kind not in ("gbu",) and (g.ordered or g.sort_gb)):
        order = sorted(part_all.keys, key=gb.okey)
    f = post if pre is None else (pre if post is None else pre & post)
    p = gb.Part(kv, f).reorder(order)
    args, cols = [], list(vcols)
    if kind in ("ds.cat",):
        args = [] if r.chance(0.3) and op != "nth" else [ds[list(vcols)]]
    elif kind == "Cat":
        v = ds[cols[0]]
        args, cols = [v], cols[:1]
    elif kind == "catlist":
        args = [[ds[c] for c in cols]]
    elif kind == "catdict":
        args = [{c: ds[c] for c in cols}]
    if post is not None:
        kw["filter"] = post if r.chance() else rt.FastArray(post)
    if transform:
        kw["transform"] = True
    if post is not None and n < 600:
        gen.dirty(r, p.count)
    if nth_direct:
        res = m.call("nth", g.nth, nth)
    elif op == "nth":
        res = m.call("nth", g.nth, *args, n=nth, **kw)
    elif op == "count_uniques" and kind in ("gb", "gbu", "gblex"):
        res = m.call(op, g.count_uniques, **kw)
    else:
        res = m.call(op, getattr(g, op), *args, **kw)
    what = f"{kind}.{op}"
    m.check(isinstance(res, rt.Dataset), f"{what}: returned {type(res)}")
    if transform:
        data = [k for k in res.keys()]
        m.check(res.shape[0] == n, f"{what}: transform returned {res.shape[0]} rows of {n}")
        got = {}
        for c in cols:
            m.check(c in data, f"{what}: column {c} missing from {data}")
        rowsof = {}
        for j, k in enumerate(p.keys):
            rowsof[k] = j
        for c in cols:
            col = plain(res[c])
            pv = plain(vcols[c])
            exp = [reduce_one(op, pv[rows], q, nth) if op != "mode" else None for rows in p.rows]
            first = {}
            lastv = None
            for i in range(n):
                if pre is not None and not pre[i]:
                    continue
                j = rowsof[kv[i]]
                if op == "mode":
                    if j in first:
                        m.check(col[i] == col[first[j]] or (col[i] != col[i]), f"{what}: transform not constant in group")
                    else:
                        first[j] = i
                    continue
                if exp[j] is None and pv.dtype.kind == "b":
                    continue
                if j in first:
                    a, b = col[i], col[first[j]]
                    m.check(a == b or (a != a and b != b), f"{what}: transform not constant in group {p.keys[j]!r} (rows {first[j]}, {i})")
                    continue
                first[j] = i
                judge(m, op, col[i:i + 1], vcols[c], p.reorder([p.keys[j]]), f, what + " transform", q, nth)
            if pre is not None and not pre.all() and op != "mode" and pv.dtype.kind != "b":
                w = np.flatnonzero(~pre)
                # rows outside every group must be missing; today they repeat the value of the last bin
                for i in w[:3]:
                    if not miss(col[i]):
                        lastbin = gb.Part(kv, pre, None) if kind not in ("gblex",) and not (kind in ("Cat", "catlist", "catdict", "ds.cat") and g.ordered) else gb.Part(kv, pre, "sorted")
                        lk = lastbin.keys[-1]
                        lj = [x for x in range(n) if kv[x] == lk and pre[x]]
                        same = col[lj[0]] == col[i]
                        m.check(False, f"{what}: transform gave a value {col[i]!r} to row {i}, which is in no group", mech="transform-prefiltered-rows" if same else None)
    else:
        labs = res.label_get_names()
        m.check(list(labs) == (names if kind not in ("Cat", "catlist", "catdict") else list(labs)) and len(labs) == nk, f"{what}: labels {labs}")
        lab = gb.label_list([res[k] for k in labs])
        m.check(lab == p.keys, f"{what}: keys {lab[:8]} != {p.keys[:8]}")
        data = [k for k in res.keys() if k not in labs]
        if kind != "Cat":
            m.check(sorted(data) == sorted(cols), f"{what}: result columns {data} != {cols}")
        for c, d in zip(cols, data if kind == "Cat" else cols):
            judge(m, op, res[d], vcols[c], p, f, f"{what}[{c}]", q, nth)
    d = gen.snap_diff(before, gen.snap(ds))
    m.check(d is None, f"{what} changed its input: {d}")
    # the grouping survives: a second, different operation still sees every row
    cnt = m.call("count", g.count)
    pc = part_all.reorder(order)
    m.same(plain(cnt["Count"]), np.array([len(x) for x in pc.rows]), f"count() after {what}")


@case(n=500)
def unused_and_odd_categories(m, r):
    """Categoricals with unused categories, base 0, enum mapping, invalid rows; sliced with a step."""
    n = r.int(1, 60)
    kind = r.pick(["codes", "ordered0", "enum", "str", "int"])
    c = gen.cat(r, n, 0.3, kind)
    if r.chance(0.3):
        s = slice(None, None, r.pick([2, 3, -1, -2]))
        c = c[s]
        n = len(c)
        if n == 0:
            return
    op = r.pick([o for o in OPS if "quantile" not in o and "percentile" not in o])
    v = values(r, n, op)
    filt = gen.bools(r, n, 0.6) if r.chance(0.4) else None
    kw, q, nth = opkw(r, op)
    if op == "nth":
        kw["n"] = nth
    if filt is not None:
        kw["filter"] = filt
    kv = gen.decode(c).tolist()
    ok = np.array([x is not None for x in kv])
    f = ok if filt is None else ok & filt
    m.note(n=n, kind=kind, op=op, codes=plain(c), v=v, filt=filt)
    gen.dirty(r, len(set(kv)))
    res = m.call(op, getattr(c, op), v, **kw)
    labs = res.label_get_names()
    lab = gb.label_list([res[k] for k in labs])
    m.check(len(set(lab)) == len(lab), f"{op}: repeated group labels {lab}")
    present = {k for k in kv if k is not None}
    m.check(present <= set(lab), f"{op}: labels {sorted(map(str, present - set(lab)))} missing")
    p = gb.Part(kv, f).reorder(lab)
    data = [k for k in res.keys() if k not in labs]
    judge(m, op, res[data[0]], v, p, f, f"Cat[{kind}].{op}", q, nth)
    kw["transform"] = True
    res = m.call(op + "(transform)", getattr(c, op), v, **kw)
    col = plain(list(res.values())[0])
    m.check(len(col) == n, f"{op}: transform length {len(col)}")
    if op != "mode":
        rj = {k: j for j, k in enumerate(lab)}
        for i in range(n):
            if kv[i] is not None:
                judge(m, op, col[i:i + 1], v, p.reorder([kv[i]]), f, f"Cat[{kind}].{op}(transform) row {i}", q, nth)
    cnt = m.call("count", c.count)
    p = gb.Part(kv, ok).reorder(gb.label_list([cnt[k] for k in cnt.label_get_names()]))
    m.same(plain(cnt["Count"]), np.array([len(x) for x in p.rows]), "count()")
    ct = plain(list(m.call("count(transform)", c.count, transform=True).values())[0])
    sz = {k: len(x) for k, x in zip(p.keys, p.rows)}
    for i in range(n):
        if kv[i] is not None:
            m.check(int(ct[i]) == sz[kv[i]], f"count(transform) row {i}: {ct[i]} != {sz[kv[i]]}")
    if filt is not None:
        cf = m.call("count(filter)", c.count, filter=filt)
        pf = gb.Part(kv, f).reorder(gb.label_list([cf[k] for k in cf.label_get_names()]))
        m.same(plain(cf["Count"]), np.array([len(x) for x in pf.rows]), "count(filter)")


@case(n=500)
def showfilter(m, r):
    """showfilter adds exactly one leading row holding the reduction of the rows in no group."""
    n = r.int(2, 80)
    k, kv = gb.key(r, n, r.pick(["S", "i4", "U"]), card=r.int(1, 6))
    op = r.pick(["sum", "nansum", "mean", "min", "max", "first", "last", "median", "nanmean"])
    v = values(r, n, op)
    while not (type(v) is rt.FastArray and plain(v).dtype.kind in "iuf"):
        v = values(r, n, op)
    pre = gen.bools(r, n, 0.7)
    post = gen.bools(r, n, 0.7) if r.chance() else None
    ds = rt.Dataset({"k": k, "v": v})
    kind = r.pick(["gb", "gbu", "cat"])
    m.note(n=n, op=op, kind=kind, k=k, v=v, pre=pre, post=post)
    p = gb.Part(kv, pre)
    if not p.count:
        return
    g = {"gb": ds.gb, "gbu": ds.gbu, "cat": ds.cat}[kind]("k", filter=pre)
    f = pre if post is None else pre & post
    kw = {"showfilter": True}
    if post is not None:
        kw["filter"] = post
    res = m.call(op, getattr(g, op), *([ds[["v"]]] if kind == "cat" else []), **kw)
    order = sorted(p.keys, key=gb.okey) if kind == "gb" or (kind == "cat" and (g.ordered or g.sort_gb)) else p.keys
    q = gb.Part(kv, f).reorder(order)
    m.check(res.shape[0] == q.count + 1, f"showfilter: {res.shape[0]} rows for {q.count} groups")
    lab = gb.label_list([res["k"] if "k" in res else res[res.label_get_names()[0]]])
    m.check(lab[1:] == order, f"showfilter labels {lab[:6]} != {order[:6]}")
    col = res["v"]
    judge(m, op, col[1:], v, q, f, f"{kind}.{op}(showfilter)")
    out = gb.Part.__new__(gb.Part)
    out.keys, out.rows, out.count, out.n = ["Filtered"], [np.flatnonzero(~f).tolist()], 1, n
    judge(m, op, col[:1], v, out, f, f"{kind}.{op}(showfilter) filtered row")


@case(n=500)
def aggregate(m, r):
    n = r.int(1, 80)
    k, kv = gb.key(r, n, r.pick(["S", "i4", "U", "date"]), card=r.int(1, 6))
    cols = {f"v{i}": rt.FastArray(np.round(gen.num(r, n, "f8", inv=r.pick([0, 0.2]), lo=-100, hi=100), 2) + 0.0) if r.chance() else rt.FastArray(gen.num(r, n, "i4", inv=0, lo=-50, hi=50))
            for i in range(r.int(1, 3))}
    ds = rt.Dataset(dict({"k": k}, **cols))
    names = ["sum", "mean", "min", "max", "first", "last", "median", "std", "var", "nansum", "nanmean", "nanmin", "nanmax", "nanstd", "nanvar", "nanmedian"]
    kind = r.pick(["gb", "gbu", "cat"])
    g = {"gb": ds.gb, "gbu": ds.gbu, "cat": ds.cat}[kind]("k")
    p = gb.Part(kv)
    order = sorted(p.keys, key=gb.okey) if kind == "gb" or (kind == "cat" and (g.ordered or g.sort_gb)) else p.keys
    p = p.reorder(order)
    npf = {"sum": np.sum, "mean": np.mean, "min": np.min, "max": np.max, "std": np.std, "var": np.var, "median": np.median, "nansum": np.nansum, "nanmean": np.nanmean}

    def form(o):
        return npf[o] if o in npf and r.chance(0.4) else o
    m.note(n=n, kind=kind, k=k)
    if r.chance():
        ops = r.subset(names, 1, 4)
        ms = m.call("agg(list)", g.agg, [form(o) for o in ops], *([ds[list(cols)]] if kind == "cat" and r.chance() else []))
        want = {o.capitalize(): list(cols) for o in ops}
    else:
        dct, want = {}, {}
        for c in r.subset(list(cols), 1):
            ops = r.subset(names, 1, 3)
            dct[c] = [form(o) for o in ops] if len(ops) > 1 or r.chance() else form(ops[0])
            for o in ops:
                want.setdefault(o.capitalize(), []).append(c)
        m.note(dct=dct)
        ms = m.call("agg(dict)", g.agg, dct)
    m.check(sorted(ms.keys()) == sorted(want), f"agg results {list(ms.keys())} != {list(want)}")
    for nm, cs in want.items():
        sub = ms[nm]
        lab = gb.label_list([sub[x] for x in sub.label_get_names()])
        m.check(lab == order, f"agg {nm}: keys {lab[:5]} != {order[:5]}")
        data = [x for x in sub.keys() if x not in sub.label_get_names()]
        m.check(sorted(data) == sorted(cs), f"agg {nm}: columns {data} != {cs}")
        for c in cs:
            judge(m, nm.lower(), sub[c], cols[c], p, None, f"agg {nm}[{c}]")


@case(n=500)
def select_columns(m, r):
    """gb['x'], gb.x, gb[['x','y']], col_idx, return_all; many quantiles at once."""
    n = r.int(1, 80)
    k, kv = gb.key(r, n, r.pick(["S", "i4", "U"]), card=r.int(1, 6))
    cols = {f"v{i}": rt.FastArray(np.round(gen.num(r, n, "f8", inv=r.pick([0, 0.2]), lo=-100, hi=100), 2) + 0.0) for i in range(3)}
    ds = rt.Dataset(dict(r.perm([("k", k)] + list(cols.items()) + [("s", gen.column(r, n, "S"))])))
    kind = r.pick(["gb", "gbu"])
    g = {"gb": ds.gb, "gbu": ds.gbu}[kind]("k")
    p = gb.Part(kv)
    order = sorted(p.keys, key=gb.okey) if kind == "gb" else p.keys
    p = p.reorder(order)
    op = r.pick(["sum", "nansum", "mean", "nanmin", "max", "median", "nanstd"])
    how = r.pick(["item", "attr", "list", "tuple", "col_idx", "quantiles", "percentiles"])
    m.note(n=n, kind=kind, op=op, how=how, k=k)
    cs = r.subset(list(cols), 1)
    if how == "item":
        cs = cs[:1]
        res = m.call("gb[c]." + op, lambda: getattr(g[cs[0]], op)())
    elif how == "attr":
        cs = cs[:1]
        res = m.call("gb.c." + op, lambda: getattr(getattr(g, cs[0]), op)())
    elif how == "list":
        res = m.call("gb[[c]]." + op, lambda: getattr(g[cs], op)())
    elif how == "tuple":
        res = m.call("gb[(c,)]." + op, lambda: getattr(g[tuple(cs)], op)())
    elif how == "col_idx":
        res = m.call(op + "(col_idx)", getattr(g, op), col_idx=cs)
    else:
        qs = r.subset([0, 0.25, 0.5, 0.75, 1] if how == "quantiles" else [0, 25, 50, 75, 100], 2, 4)
        fn = r.pick(["quantile", "nanquantile"] if how == "quantiles" else ["percentile", "nanpercentile"])
        tr = r.chance(0.3)
        res = m.call(fn, getattr(g[cs], fn), q=qs, transform=tr)
        for c in cs:
            for q in qs:
                one = m.call(fn, getattr(g[cs], fn), q=q, transform=tr)
                name = c + ("_q" if how == "quantiles" else "_p") + f"{q:.3g}".replace(".", "_")
                m.check(name in res, f"{fn}: column {name} missing from {list(res.keys())}")
                m.same(plain(res[name]), plain(one[c]), f"{fn}: {name} differs from the single quantile")
                if not tr:
                    judge(m, fn, one[c], cols[c], p, None, f"{fn}[{c}]", q if how == "quantiles" else q / 100)
        if not tr:
            m.check(gb.label_list([res["k"]]) == order, f"{fn}: keys")
        return
    m.check(gb.label_list([res["k"]]) == order, f"{how}: keys")
    data = [x for x in res.keys() if x != "k"]
    m.check(sorted(data) == sorted(cs), f"{how}: columns {data} != {cs}")
    for c in cs:
        judge(m, op, res[c], cols[c], p, None, f"{how} {op}[{c}]")


@case(n=200)
def totals(m, r):
    n = r.int(1, 60)
    k, kv = gb.key(r, n, r.pick(["S", "i4"]), card=r.int(1, 6))
    v = rt.FastArray(gen.num(r, n, "i8", inv=0, lo=-100, hi=100))
    ds = rt.Dataset({"k": k, "v": v})
    m.note(n=n, k=k, v=v)
    g = m.call("accum1", ds.accum1, "k")
    res = m.call("accum1.sum", g.sum, v)
    col = [plain(res[c]) for c in res.keys() if c not in res.label_get_names()][0]
    m.check(int(col.sum()) == int(plain(v).sum()), "accum1: groups do not sum to the total")
    foot = res.footer_get_values()
    tot = list(foot.values())[0][-1] if isinstance(foot, dict) else None
    if tot is not None:
        m.check(int(tot) == int(plain(v).sum()), f"accum1: Total {tot} != {int(plain(v).sum())}")


@case(n=300)
def empty_groups(m, r):
    """Groups whose rows are all filtered out, with freshly freed garbage around: results must be defined."""
    n = r.int(1, 12)
    k = r.g.integers(0, 4, n)
    ds = rt.Dataset({"k": k})
    f = gen.bools(r, n, r.pick([0.0, 0.3]))
    p = gb.Part(k.tolist())
    p = gb.Part(k.tolist(), f).reorder(sorted(p.keys))
    m.note(n=n, k=k, f=f)
    for dt in gen.NUMS:
        v = gen.num(r, n, dt, inv=0, lo=1, hi=50)
        ds.v = v
        op = r.pick(["sum", "nansum", "nansum", "nanmean", "nanmin", "max", "last", "median", "nanvar"])
        kind = r.pick(["gb", "lex", "cat"])
        g = {"gb": lambda: ds.gb("k"), "lex": lambda: ds.gb("k", lex=True), "cat": lambda: ds.cat("k", ordered=True)}[kind]()
        gen.dirty(r, p.count)
        res = m.call(op, getattr(g, op), *([ds[["v"]]] if kind == "cat" else []), filter=f)
        judge(m, op, res["v"], rt.FastArray(v), p, f, f"{kind}.{op} {dt}")


@case(n=600, thorough=6000)
def history(m, r):
    """One Categorical / GroupBy used again and again: earlier operations (filters, packings, edits of rows) never change later answers."""
    n = r.pick([2, 5, r.int(6, 60), r.int(61, 300)])
    card = r.pick([1, 2, 4, 9])
    lab = [r.int(0, card - 1) for _ in range(n)]
    gf = gen.bools(r, n, 0.8) if r.chance(0.3) else np.ones(n, bool)
    words = [f"k{x}" for x in lab]
    c = m.call("Cat", rt.Cat, words, **({} if gf.all() else {"filter": gf}))
    x = r.g.integers(-50, 50, n)
    fx = x.astype("f8") + 0.25
    codes = [i if g else 0 for i, g in zip(gb.Part(lab, None, "sorted").ikey.tolist(), gf)]
    order = sorted({words[i] for i in range(n) if gf[i]})
    if not order:
        return
    m.note(n=n, words=words, gf=gf)
    X, F = rt.FastArray(x), rt.FastArray(fx)

    def groups(f):
        return [[i for i in range(n) if gf[i] and f[i] and words[i] == k] for k in order]

    def val(ds, col=None):
        k = [q for q in ds.keys() if q not in ds.label_get_names()][-1]
        return plain(ds[k])

    steps = []
    for _ in range(r.int(4, 10)):
        f = gen.bools(r, n, r.pick([0.2, 0.5, 0.9])) if r.chance(0.5) else None
        ff = np.ones(n, bool) if f is None else f
        kw = {} if f is None else {"filter": f if r.chance() else rt.FastArray(f)}
        gs = groups(ff)
        op = r.pick(["sum", "count", "count_plain", "median", "apply", "first", "last", "nth", "cumsum", "cumcount", "rank", "shift", "mode", "min", "unique", "transform", "agg", "iter", "index", "copy", "nonreduce", "ncount"])
        steps.append(op + ("+f" if f is not None else ""))
        what = " > ".join(steps)
        if op in ("sum", "min", "first", "last", "median", "mode", "nth"):
            if op == "mode":
                got, err = m.attempt("c.mode", c.mode, X, **kw)
                if err is not None:
                    continue
            elif op == "nth":
                j = r.int(0, 2)
                got = m.call("c.nth", c.nth, F, n=j, **kw) if False else m.call("c.nth", c.nth, F, j, **kw)
            else:
                got = m.call("c." + op, getattr(c, op), F, **kw)
            v = val(got)
            m.check(len(v) == len(order), f"{what}: {len(v)} rows for {len(order)} groups")
            for k, (rows, o) in enumerate(zip(gs, v.tolist())):
                q = fx[rows]
                if op == "sum":
                    ok = o == q.sum()
                elif len(rows) == 0 or (op == "nth" and len(rows) <= j):
                    ok = o != o or (op == "mode")
                elif op == "mode":
                    cnt = {a: list(x[rows]).count(a) for a in x[rows]}
                    ok = cnt.get(o, 0) == max(cnt.values())
                else:
                    e = {"min": q.min, "first": lambda: q[0], "last": lambda: q[-1], "median": lambda: np.median(q), "nth": lambda: q[j]}[op]()
                    ok = o == e
                m.check(ok, f"{what}: group {order[k]} gives {o}", rows=rows, values=q)
        elif op == "count":
            got = m.call("c.count", c.count, **kw)
            m.same(val(got), np.array([len(q) for q in gs]), f"{what}")
        elif op == "count_plain":
            m.same(val(m.call("c.count", c.count)), np.array([len(q) for q in groups(np.ones(n, bool))]), what)
        elif op == "ncount":
            nc = plain(m.call("ncountgroup", lambda: c.grouping.ncountgroup))
            m.same(nc[1:], np.array([len(q) for q in groups(np.ones(n, bool))]), what + " ncountgroup")
            ig, ifg = plain(c.grouping.igroup), plain(c.grouping.ifirstgroup)
            for k, q in enumerate(groups(np.ones(n, bool))):
                m.same(ig[ifg[k + 1]: ifg[k + 1] + nc[k + 1]], np.array(q, dtype=np.int64), f"{what} rows of group {order[k]}")
        elif op == "apply":
            got = m.call("apply_reduce", c.apply_reduce, lambda z: z.sum(), F, **kw)
            v = val(got).tolist()
            for k, rows in enumerate(gs):
                m.check(v[k] == fx[rows].sum() if rows else (v[k] != v[k] or v[k] == 0), f"{what}: group {order[k]} gives {v[k]}", rows=rows)
        elif op == "nonreduce":
            got = val(m.call("apply_nonreduce", c.apply_nonreduce, lambda z: z - z[0], F))
            for rows in groups(np.ones(n, bool)):
                if rows:
                    m.same(got[rows], fx[rows] - fx[rows[0]], what)
        elif op in ("cumsum", "cumcount", "rank", "shift"):
            if op == "cumcount":
                got, rows_of = plain(m.call("cumcount", c.cumcount, **kw)), gs
                for rows in gs:
                    m.same(got[rows], np.arange(len(rows)), what)
            elif op == "cumsum":
                got = val(m.call("cumsum", c.cumsum, F, **kw))
                for rows in gs:
                    m.close(got[rows], np.cumsum(fx[rows]), what, rtol=1e-12)
            elif op == "shift":
                got = val(m.call("shift", c.shift, F, 1))
                for rows in groups(np.ones(n, bool)):
                    m.same(got[rows[1:]], fx[rows[:-1]], what)
            else:
                got, err = m.attempt("rank", c.rank, F)
                if err is None:
                    got = plain(got) if not isinstance(got, rt.Dataset) else val(got)
                    for rows in groups(np.ones(n, bool)):
                        m.check(sorted(set(np.argsort(got[rows], kind="stable").tolist())) == list(range(len(rows))), what)
        elif op == "transform":
            got = val(m.call("sum(transform)", c.sum, F, transform=True, **kw))
            for k, rows in enumerate(gs):
                m.same(got[rows], np.full(len(rows), fx[rows].sum()), what)
        elif op == "agg":
            got = m.call("agg", c.agg, ["sum", "mean"], F, **kw)
            m.check(isinstance(got, rt.Struct), what)
        elif op == "iter":
            it = [(gen.txt(k), plain(v).tolist()) for k, v in m.call("groups", lambda: [*c.groups.items()] if hasattr(c, "groups") and isinstance(c.groups, dict) else [])]
            for k, rows in it:
                m.check(rows == groups(np.ones(n, bool))[order.index(k)], f"{what}: groups[{k}]")
        elif op == "unique":
            m.check([gen.txt(z) for z in plain(c.category_array).tolist()] == order, f"{what}: categories {c.category_array}")
        elif op == "index":
            sel = r.g.permutation(n)[: r.int(1, n)]
            d = m.call("c[fancy]", lambda: c[sel])
            got = val(m.call("c[fancy].sum", d.sum, F[sel])).tolist()
            dc = [gen.txt(z) for z in plain(d.category_array).tolist()]
            for k, nm in enumerate(dc):
                m.check(got[k] == sum(fx[i] for i in sel if gf[i] and words[i] == nm), f"{what}: c[fancy].sum {nm}")
        elif op == "copy":
            c = m.call("copy", c.copy)


@case(n=500, thorough=5000)
def reuse_groupby(m, r):
    """A GroupBy stays what it was after column selections, copies, iteration and per-row operations; its copies answer like it."""
    n = r.pick([2, r.int(3, 30), r.int(31, 120)])
    k, kv = gb.key(r, n, r.pick(["S", "i4", "U", "i8"]), card=r.int(1, 6))
    cols = {f"v{i}": r.g.integers(-99, 99, n) * 0.5 for i in range(3)}
    order0 = r.perm([("k", k)] + [(c, rt.FastArray(v.copy())) for c, v in cols.items()])
    ds = rt.Dataset(dict(order0))
    filt = gen.bools(r, n, 0.7) if r.chance(0.4) else None
    g = m.call("gb", ds.gb, "k", **({} if filt is None else {"filter": filt}))
    p = gb.Part(kv, filt, "sorted")
    if not p.count:
        return
    m.note(n=n, k=k, filt=filt)
    steps = []
    names = [c for c, _ in order0 if c != "k"]
    for _ in range(r.int(3, 7)):
        op = r.pick(["select", "attr", "copy", "iter", "cumsum", "fill", "sum", "mean", "count", "last", "dict", "filtered", "nth"])
        steps.append(op)
        what = " > ".join(steps)
        if op == "select":
            cs = r.subset(names, 1)
            res = m.call("gb[c].sum", lambda: g[cs[0] if len(cs) == 1 and r.chance() else cs].sum())
            m.check([q for q in res.keys() if q != "k"] == cs, f"{what}: columns {list(res.keys())} != {cs}")
            for c in cs:
                m.same(plain(res[c]), np.array([cols[c][rows].sum() for rows in p.rows]), f"{what} {c}")
        elif op == "attr":
            c = r.pick(names)
            res = m.call("gb.c.max", lambda: getattr(g, c).max())
            m.check([q for q in res.keys() if q != "k"] == [c], f"{what}: columns {list(res.keys())}")
        elif op == "copy":
            h = m.call("gb.copy", g.copy, deep=r.chance())
            if r.chance():
                g = h
            else:
                m.call("copy.sum", h.sum)
        elif op == "iter":
            got = [(kk, plain(v).tolist() if isinstance(v, np.ndarray) else None) for kk, v in m.call("iter_groups", lambda: list(g.iter_groups()))]
            m.check(sorted(b for _, b in got) == sorted(p.rows), f"{what}: iter_groups rows")
        elif op == "cumsum":
            res = m.call("gb.cumsum", g.cumsum)
            for c in names:
                for rows in p.rows:
                    m.same(plain(res[c])[rows], np.cumsum(cols[c][rows]), f"{what} {c}")
        elif op == "fill":
            fn = r.pick(["fill_backward", "fill_forward"])
            m.call("gb." + fn, getattr(g, fn))
        elif op == "dict":
            d = m.call("gb.groups", lambda: g.groups)
            m.check(sorted(plain(v).tolist() for v in d.values()) == sorted(p.rows), f"{what}: groups")
        elif op == "filtered":
            f2 = gen.bools(r, n, 0.5)
            res = m.call("gb.sum(filter)", g.sum, filter=f2)
            both = f2 if filt is None else f2 & filt
            for c in names:
                m.same(plain(res[c]), np.array([sum(cols[c][i] for i in rows if both[i]) for rows in p.rows]), f"{what} {c}")
        elif op == "count":
            res = m.call("gb.count", g.count)
            m.same(plain(res["Count"]), np.array([len(x) for x in p.rows]), what)
        elif op == "nth":
            j = r.int(0, 3)
            res = m.call("gb.nth", g.nth, n=j)
            for c in names:
                for rows, v in zip(p.rows, plain(res[c]).tolist()):
                    m.check(v == cols[c][rows[j]] if j < len(rows) else v != v, f"{what}({j}) {c}: {v}")
        res = m.call("gb.sum", g.sum) if op != "mean" else m.call("gb.mean", g.mean)
        m.check([q for q in res.keys() if q != "k"] == names, f"{what}: later columns {list(res.keys())} != {names}")
        for c in names:
            e = np.array([(cols[c][rows].sum() if op != "mean" else cols[c][rows].mean()) for rows in p.rows])
            m.close(plain(res[c]), e, f"{what} then reduce {c}", rtol=1e-12, atol=1e-9)
    for c, v in cols.items():
        m.same(plain(ds[c]), v, f"{' > '.join(steps)}: the Dataset's column {c}")
