"""C08: user functions applied per group see exactly that group's rows, and results land at that group."""
import logging
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen, gb

logging.disable(logging.WARNING)


def ids(n, dt="f8", off=0):
    """A column whose value identifies its row."""
    return rt.FastArray((np.arange(n) + off).astype(dt))


def setup(m, r, cols, n, **kw):
    g = gb.Grouped(m, r, n, cols, **kw)
    filt = gen.bools(r, n, 0.7) if r.chance(0.35) else None
    part = gb.Part(g.kv, g.inb if filt is None else g.inb & filt)
    return g, filt, part


def check_calls(m, calls, part, n, what):
    """The recorded calls are exactly one per non-empty group (in row order); one more with the rows in no group is tolerated."""
    want = {tuple(x) for x in part.rows if x}
    rest = tuple(sorted(set(range(n)) - {i for x in part.rows for i in x}))
    got = list(calls)
    if rest and rest in got and rest not in want:
        got.remove(rest)
    got = [c for c in got if c]
    m.check(len(got) == len(want), f"{what}: {len(got)} calls for {len(want)} non-empty groups")
    for c in got:
        m.check(c in want, f"{what}: called with rows {c[:12]}, which are not the rows of one group in order")
    m.check(len(set(got)) == len(got), f"{what}: a group was passed twice")


def result_rows(m, g, res, part, what):
    labs = res.label_get_names()
    if g.kind in ("gb", "gbu", "gblex", "ds.cat"):
        m.check(list(labs) == g.names, f"{what}: labels {labs} != {g.names}")
    lab = gb.label_list([res[k] for k in labs])
    m.check(len(set(lab)) == len(lab), f"{what}: repeated keys {lab[:8]}")
    if g.order is not None:
        m.check([x for x in lab] == [x for x in g.order if x in set(lab)], f"{what}: key order {lab[:8]}")
    return lab, [k for k in res.keys() if k not in labs]


@case(n=1800)
def apply_reduce(m, r):
    n = r.pick([1, 2, 3, r.int(4, 40), r.int(41, 200)])
    multi = r.chance(0.35)
    cols = {"a": ids(n, "f8"), "b": ids(n, r.pick(["i4", "i8", "f4"]), 1000)}
    if not multi and r.chance(0.5):
        cols.pop("b")
    g, filt, part = setup(m, r, cols, n)
    if not any(part.rows):
        return
    extra = r.pick([0, 0, 3])
    style = r.pick(["arg", "func_param", "kw"]) if extra else "none"
    off = 0 if not extra else extra
    calls = []
    dts = []

    def f(x, *rest, add=0, **k2):
        if multi:
            y, rest = rest[0], rest[1:]
            calls.append(tuple(int(v) for v in plain(x)))
            m.check(np.array_equal(plain(y).astype(np.float64), plain(x).astype(np.float64) + 1000), "apply_reduce: the two arrays hold different rows")
        else:
            o = 1000 if len(x) and x[0] >= 1000 else 0
            calls.append(tuple(int(v) - o for v in plain(x)))
        dts.append(type(x).__name__)
        e = add + sum(rest)
        return float(plain(x).astype(np.float64).sum() * 2 + len(x) + e)
    kw = {}
    args = []
    if style == "arg" and not g.is_gb:
        args = [extra]
    elif style == "func_param":
        kw["func_param"] = (extra,)
    elif style in ("kw", "arg"):
        kw["add"] = extra
    if filt is not None:
        kw["filter"] = filt
    if r.chance(0.2):
        kw["dtype"] = np.dtype(r.pick(["f8", "i8", "f4"]))
    transform = r.chance(0.2)
    if transform:
        kw["transform"] = True
    m.note(n=n, kind=g.kind, multi=multi, style=style, filt=filt, kw=list(kw), pre=g.pre is not None, kv=np.array([str(x) for x in g.kv[:40]]))
    data = list(cols.values())
    if multi:
        if g.is_gb:
            res = m.call("apply_reduce", g.g["a"].apply_reduce, f, (g.ds["b"],), **kw)
        else:
            res = m.call("apply_reduce", g.g.apply_reduce, f, tuple(data), *args, **kw)
        use = {"a": None}
    else:
        if g.is_gb:
            res = m.call("apply_reduce", g.g.apply_reduce, f, **kw)
        elif len(cols) == 1 and r.chance():
            res = m.call("apply_reduce", g.g.apply_reduce, f, data[0], *args, **kw)
        elif r.chance():
            res = m.call("apply_reduce", g.g.apply_reduce, f, dict(cols), *args, **kw)
        else:
            res = m.call("apply_reduce", g.g.apply_reduce, f, data, *args, **kw)
        use = cols
    what = f"{g.kind}.apply_reduce"
    m.check(isinstance(res, rt.Dataset), f"{what}: returned {type(res)}")
    per = len(use)
    if per == 1:
        check_calls(m, calls, part, n, what)
    else:
        half = len(calls) // 2
        m.check(len(calls) % 2 == 0, f"{what}: {len(calls)} calls for two columns")
        for half_calls in (calls[:half], calls[half:]):
            check_calls(m, half_calls, part, n, what)
    exp = {}
    for c in use:
        o = 1000 if c == "b" else 0
        exp[c] = {k: float(sum(2 * (x + o) for x in rows) + len(rows) + off) for k, rows in zip(part.keys, part.rows) if rows}
    if transform:
        if res.shape[0] != n:
            m.check(False, f"{what}: transform gave {res.shape[0]} rows")
        dat = [k for k in res.keys() if not isinstance(res[k], rt.Categorical) and not (g.names and k in g.names)]
        for c, d in (zip(use, dat) if not g.is_gb else zip(use, use)):
            col = plain(res[d])
            for i in range(n):
                if g.inb[i] and g.kv[i] in exp[c]:
                    m.check(abs(float(col[i]) - exp[c][g.kv[i]]) <= 1e-3 * max(1, abs(exp[c][g.kv[i]])), f"{what}(transform): row {i} of group {g.kv[i]!r}: {col[i]!r} != {exp[c][g.kv[i]]!r}")
        return
    lab, dat = result_rows(m, g, res, part, what)
    m.check(len(dat) == per, f"{what}: result columns {dat}")
    need = {k for k, rows in zip(part.keys, part.rows) if rows}
    m.check(need <= set(lab), f"{what}: groups missing from the result")
    for c, d in (zip(use, dat) if not g.is_gb else zip(use, use)):
        col = plain(res[d])
        for j, k in enumerate(lab):
            if k in exp[c]:
                m.check(abs(float(col[j]) - exp[c][k]) <= 1e-3 * max(1, abs(exp[c][k])), f"{what}: group {k!r}: {col[j]!r} != {exp[c][k]!r}")
            else:
                m.check(bool(gen.is_inv(col[j:j + 1])[0]), f"{what}: empty group {k!r} has value {col[j]!r}")


@case(n=1800)
def apply_nonreduce(m, r):
    n = r.pick([1, 2, 3, r.int(4, 40), r.int(41, 200)])
    multi = r.chance(0.35)
    cols = {"a": ids(n, "f8")}
    if multi or r.chance(0.3):
        cols["b"] = ids(n, r.pick(["i4", "f4"]), 1000)
    g, filt, part = setup(m, r, cols, n)
    if not any(part.rows):
        return
    calls = []
    extra = r.pick([0, 5])

    def f(x, *rest, add=0):
        if multi:
            y, rest = rest[0], rest[1:]
            m.check(np.array_equal(plain(y).astype(np.float64), plain(x).astype(np.float64) + 1000), "apply_nonreduce: the two arrays hold different rows")
            o = 0
        else:
            o = 1000 if len(x) and x[0] >= 1000 else 0
        calls.append(tuple(int(v) - o for v in plain(x)))
        return rt.FastArray(np.cumsum(plain(x).astype(np.float64)) + add + sum(rest))
    kw = {}
    if extra:
        if r.chance():
            kw["func_param"] = (extra,)
        else:
            kw["add"] = extra
    if filt is not None:
        kw["filter"] = filt
    if r.chance(0.2):
        kw["dtype"] = np.float64
    m.note(n=n, kind=g.kind, multi=multi, filt=filt, kw=list(kw), pre=g.pre is not None, kv=np.array([str(x) for x in g.kv[:40]]))
    data = list(cols.values())
    use = list(cols)
    if multi:
        use = ["a"]
        res = m.call("apply_nonreduce", g.g["a"].apply_nonreduce, f, (g.ds["b"],), **kw) if g.is_gb else m.call("apply_nonreduce", g.g.apply_nonreduce, f, tuple(data), **kw)
    elif g.is_gb:
        res = m.call("apply_nonreduce", g.g.apply_nonreduce, f, **kw)
    else:
        res = m.call("apply_nonreduce", g.g.apply_nonreduce, f, data[0] if len(data) == 1 and r.chance() else (dict(cols) if r.chance() else data), **kw)
    what = f"{g.kind}.apply_nonreduce"
    m.check(isinstance(res, rt.Dataset) and res.shape[0] == n, f"{what}: returned {type(res)} {getattr(res, 'shape', None)}")
    k = len(calls) // len(use)
    for j in range(len(use)):
        check_calls(m, calls[j * k:(j + 1) * k], part, n, what)
    dat = [c for c in res.keys() if not isinstance(res[c], rt.Categorical) and not (g.names and c in g.names)]
    m.check(len(dat) == len(use), f"{what}: result columns {dat} for {use}")
    for c, d in (zip(use, dat) if not g.is_gb else zip(use, use)):
        col = plain(res[d])
        o = 1000 if c == "b" else 0
        for rows in part.rows:
            if rows:
                m.close(col[rows], np.cumsum(np.array(rows, dtype=np.float64) + o) + extra, f"{what}[{c}]: rows {rows[:8]}", rtol=1e-9, atol=1e-6)


@case(n=1400)
def apply_dataset(m, r):
    n = r.pick([1, 2, 3, r.int(4, 40), r.int(41, 120)])
    cols = {"a": ids(n), "s": rt.FastArray(np.array([f"s{i}" for i in range(n)])), "d": rt.Date(np.arange(n, dtype=np.int32) + 1)}
    g, filt, part = setup(m, r, cols, n, kinds=["gb", "gbu", "gblex", "ds.cat", "catdict", "CatCodes", "Cat0"])
    filt, part = None, gb.Part(g.kv, g.inb)
    if not any(part.rows):
        return
    style = r.pick(["reduce_ds", "reduce_dict", "full_new", "full_same", "scalar_args"])
    calls = []
    m.note(n=n, kind=g.kind, style=style, pre=g.pre is not None, kv=np.array([str(x) for x in g.kv[:40]]))

    def f(ds, *args, mul=1):
        rows = tuple(int(v) for v in plain(ds.a))
        m.check(tuple(rt.FastArray(ds.s).astype("U").tolist()) == tuple(f"s{i}" for i in rows) and tuple(plain(ds.d).tolist()) == tuple(i + 1 for i in rows), f"apply: columns of different rows passed together: {rows[:8]}")
        calls.append(rows)
        tot = float(sum(rows)) * mul + sum(args)
        if style in ("reduce_ds", "scalar_args"):
            return rt.Dataset({"tot": [tot], "cnt": [len(rows)]})
        if style == "reduce_dict":
            return {"tot": rt.FastArray([tot]), "cnt": rt.FastArray([len(rows)])}
        if style == "full_new":
            return rt.Dataset({"cs": np.cumsum(plain(ds.a)), "s": ds.s})
        ds.cs = np.cumsum(plain(ds.a))
        return ds if r.chance() else None if style == "never" else ds
    args, kw = ([], {}) if style != "scalar_args" else (([7], {}) if g.is_gb else ([], {"mul": 3}))
    if g.is_gb:
        res = m.call("apply", g.g.apply, f, *args, **kw)
    elif g.kind == "ds.cat":
        res = m.call("apply", g.g.apply, f, *args, dataset=g.ds[list(cols)], **kw) if r.chance() else m.call("apply", g.g.apply, f, g.ds[list(cols)], *args, **kw)
    else:
        res = m.call("apply", g.g.apply, f, dict(cols), *args, **kw)
    what = f"{g.kind}.apply({style})"
    check_calls(m, calls, part, n, what)
    groups = sum(1 for x in part.rows if x)
    if style in ("reduce_ds", "reduce_dict", "scalar_args") and n != groups:
        labs = res.label_get_names()
        m.check(res.shape[0] == groups, f"{what}: {res.shape[0]} rows for {groups} groups")
        if labs:
            lab = gb.label_list([res[k] for k in labs])
        elif g.names:
            lab = gb.label_list([res[k] for k in g.names])
        else:
            return
        d = {k: rows for k, rows in zip(part.keys, part.rows) if rows}
        m.check(sorted(map(str, lab)) == sorted(map(str, d)), f"{what}: keys {lab[:8]}")
        if g.order is not None:
            m.check(lab == [x for x in g.order if x in d], f"{what}: key order {lab[:8]}")
        for j, k in enumerate(lab):
            e = float(sum(d[k])) * kw.get("mul", 1) + sum(args)
            m.check(float(res["tot"][j]) == e and int(res["cnt"][j]) == len(d[k]), f"{what}: group {k!r}: {res['tot'][j]},{res['cnt'][j]} != {e},{len(d[k])}")
    elif style.startswith("full") and groups not in (n, int(g.inb.sum())):
        m.check(res.shape[0] == n, f"{what}: {res.shape[0]} rows of {n}")
        cs = plain(res["cs"])
        for rows in part.rows:
            if rows:
                m.close(cs[rows], np.cumsum(np.array(rows, dtype=np.float64)), f"{what}: rows {rows[:8]}")
                m.check([gen.txt(x) for x in plain(res["s"])[rows].tolist()] == [f"s{i}" for i in rows], f"{what}: strings moved to other rows")
        out = np.flatnonzero(~g.inb)
        if len(out):
            m.check(bool(np.isnan(cs[out]).all()), f"{what}: rows in no group are not invalid: {cs[out][:5]}")


@case(n=500)
def outputs_protocol(m, r):
    """dtype={name: dtype}: the function receives writable output slices belonging to its group."""
    n = r.pick([1, 2, 3, r.int(4, 60)])
    cols = {"a": ids(n), "b": ids(n, "f8", 1000)}
    g = gb.Grouped(m, r, n, cols, kinds=["Cat", "CatCodes", "Cat0", "CatEnum"])
    part = g.part
    if not any(part.rows):
        return
    reduce = r.chance()
    calls = []
    m.note(n=n, kind=g.kind, reduce=reduce, kv=np.array([str(x) for x in g.kv[:40]]))

    def f(a, b, o1, o2):
        if len(a) == 0:
            return
        calls.append(tuple(int(v) for v in plain(a)))
        m.check(np.array_equal(plain(b), plain(a) + 1000), "outputs: arrays of different rows")
        if reduce:
            o1[0] = plain(a).sum()
            o2[0] = len(a)
        else:
            o1[:] = np.cumsum(plain(a))
            o2[:] = np.arange(len(a))
    fn = g.g.apply_reduce if reduce else g.g.apply_nonreduce
    res = m.call("apply(outputs)", fn, f, tuple(cols.values()), dtype={"x": np.float64, "y": np.int32})
    check_calls(m, calls, part, n, "outputs")
    x, y = plain(res["x"]), plain(res["y"])
    if reduce:
        lab = gb.label_list([res[k] for k in res.label_get_names()])
        d = {k: rows for k, rows in zip(part.keys, part.rows) if rows}
        for j, k in enumerate(lab):
            if k in d:
                m.check(float(x[j]) == sum(d[k]) and int(y[j]) == len(d[k]), f"outputs: group {k!r}: {x[j]},{y[j]}")
    else:
        for rows in part.rows:
            m.same(x[rows], np.cumsum(np.array(rows, dtype=float)), "outputs: first output")
            m.same(y[rows], np.arange(len(rows)), "outputs: second output")


_NB = {}


def nbfuncs():
    if not _NB:
        import numba as nb
        _NB["sum"] = (nb.njit(lambda x: x.sum()), lambda x: x.sum())
        _NB["last"] = (nb.njit(lambda x: x[-1] * 1.0), lambda x: x[-1])
        _NB["cumdiff"] = (nb.njit(lambda x: x - x[0]), lambda x: x - x[0])
    return _NB


@case(n=40, thorough=400)
def numba_apply(m, r):
    n = r.pick([1, 2, 5, 30, 200])
    v = rt.FastArray(r.g.integers(0, 999, n).astype("f8"))
    keys = gen.words(r, n, card=r.pick([1, 2, 5])) if r.chance() else r.g.integers(0, 5, n)
    pre = gen.bools(r, n, .7) if r.chance(.3) else None
    if pre is not None:
        pre[0] = True
    c = rt.Categorical(keys, filter=pre, ordered=r.chance(), lex=False)
    filt = gen.bools(r, n, .7) if r.chance(.4) else None
    fn = r.pick(["sum", "last", "cumdiff"])
    tr = fn != "cumdiff" and r.chance()
    nbf, py = nbfuncs()[fn]
    m.note(n=n, fn=fn, transform=tr, filt=filt is not None, pre=pre is not None)
    labs = gen.cat_labels(c)
    rows = {}
    for i, x in enumerate(labs):
        if x is not None and (filt is None or filt[i]):
            rows.setdefault(x, []).append(i)
    seen = {x for x in labs if x is not None}
    if fn == "last" and set(rows) != seen:
        return  # the function is undefined on the empty groups it is called with
    if fn == "cumdiff" and set(rows) != seen:
        return
    res = m.call("numba_apply", c.numba_apply, nbf, v, filter=filt, transform=tr)
    pv = plain(v)
    if fn != "cumdiff" and not tr:
        lab = res.label_get_names()[0]
        val = [k for k in res.keys() if k != lab][0]
        got = dict(zip([gen.txt(x) if isinstance(x, (bytes, str)) else x for x in plain(res[lab]).tolist()], plain(res[val]).tolist()))
        for k, ix in rows.items():
            m.check(got.get(k) == py(pv[ix]), "numba_apply: value of a group", key=k, have=got.get(k), want=float(py(pv[ix])))
        for k in seen - set(rows):
            m.check(k in got and (got[k] == 0 or got[k] != got[k]), "numba_apply: value of an empty group", key=k)
    else:
        got = plain(res[list(res.keys())[0]])
        m.check(len(got) == n, "numba_apply: one value per row")
        exp = np.full(n, np.nan)
        for k, ix in rows.items():
            exp[ix] = py(pv[ix])
        m.same(got, exp, "numba_apply: values at the rows of the group")
