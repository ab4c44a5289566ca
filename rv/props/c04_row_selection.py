"""C04: row selection keeps rows whole: right rows, right order, all columns from the same source row."""
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen


def table(r, n, k=None, inv=0.15, kinds=None):
    k = k or r.int(1, 6)
    cols = {f"c{i}": gen.column(r, n, kinds[i % len(kinds)] if kinds else None, inv) for i in range(k)}
    items = list(cols.items())
    items.insert(r.int(0, len(items)), ("rid", rt.arange(n)))
    return rt.Dataset(dict(items))


def whole(m, got, ds, rows, what, cols=None, classes=True):
    """got's rows are exactly source rows `rows`, in that order, with every column intact."""
    cols = list(ds.keys()) if cols is None else list(cols)
    rows = np.asarray(rows, dtype=np.int64)
    m.check(list(got.keys()) == cols, f"{what}: columns {list(got.keys())} != {cols}")
    m.check(got.shape == (len(rows), len(cols)), f"{what}: shape {got.shape} != {(len(rows), len(cols))}")
    if "rid" in cols:
        m.same(plain(got["rid"]), rows, f"{what}: selected rows")
    for c in cols:
        if classes:
            m.check(gen.kind_of(got[c]) == gen.kind_of(ds[c]), f"{what}/{c}: class {gen.kind_of(got[c])} != {gen.kind_of(ds[c])}")
        m.same(gen.decode(got[c]), gen.decode(ds[c])[rows], f"{what}/{c}")


def selector(r, n):
    """(selector object, expected source rows)"""
    k = r.pick(["mask", "mask", "fmask", "idx", "idx", "fidx", "list", "slice", "slice", "stepslice", "neg", "int", "listmask", "empty", "smallidx"])
    if k in ("mask", "fmask", "listmask"):
        mk = gen.bools(r, n)
        rows = np.flatnonzero(mk)
        if k == "listmask":
            return mk, rows
        return (rt.FastArray(mk) if k == "fmask" else mk), rows
    if k == "empty":
        return np.zeros(n, dtype=bool), np.array([], dtype=int)
    if n == 0:
        return slice(None), np.arange(0)
    if k in ("idx", "fidx", "list", "smallidx"):
        ix = r.g.integers(0, n, r.int(1, min(2 * n, 60)))
        if k == "fidx":
            return rt.FastArray(ix.astype(r.pick(["i4", "i8"]))), ix
        if k == "smallidx":
            ix = np.minimum(ix, 120)
            return ix.astype(r.pick(["i1", "u1", "i2", "u4"])), ix
        return (ix.tolist() if k == "list" else ix), ix
    if k == "neg":
        ix = r.g.integers(-n, n, r.int(1, 20))
        return ix, np.arange(n)[ix]
    if k == "int":
        i = r.int(-n, n - 1)
        return i, np.array([i % n])
    if k == "slice":
        s = slice(r.pick([None, r.int(-n - 2, n + 2)]), r.pick([None, r.int(-n - 2, n + 2)]))
        return s, np.arange(n)[s]
    s = slice(r.pick([None, r.int(-n, n)]), r.pick([None, r.int(-n, n)]), r.pick([2, 3, -1, -2, 7]))
    return s, np.arange(n)[s]


@case(n=1600)
def getitem(m, r):
    n = r.size(big=0.01)
    ds = table(r, n)
    sel, rows = selector(r, n)
    m.note(n=n, cols=[(k, type(v).__name__, str(v.dtype)) for k, v in ds.items()], sel=sel)
    before = gen.snap(ds)
    how = r.pick(["all", "all", "cols", "onecol", "filter", "colslice", "colmask", "colint"])
    names = list(ds.keys())
    if how == "all":
        got = m.call("ds[rows,:]", ds.__getitem__, (sel, slice(None)))
        whole(m, got, ds, rows, "ds[rows,:]")
    elif how == "cols":
        cs = r.subset(names, 1)
        got = m.call("ds[rows,cols]", ds.__getitem__, (sel, cs))
        whole(m, got, ds, rows, "ds[rows,cols]", cs)
    elif how == "colslice":
        i = r.int(0, len(names) - 1)
        got = m.call("ds[rows,i:]", ds.__getitem__, (sel, slice(i, None)))
        whole(m, got, ds, rows, "ds[rows,i:]", names[i:])
    elif how == "colmask":
        mk = gen.bools(r, len(names), 0.6)
        mk[r.int(0, len(names) - 1)] = True
        got = m.call("ds[rows,mask]", ds.__getitem__, (sel, mk))
        whole(m, got, ds, rows, "ds[rows,mask]", [k for k, b in zip(names, mk) if b])
    elif how == "onecol" and not isinstance(sel, int):
        c = r.pick(names)
        got = m.call("ds[rows,'c']", ds.__getitem__, (sel, c))
        m.check(gen.kind_of(got) == gen.kind_of(ds[c]), f"ds[rows,'c'] class {gen.kind_of(got)}")
        m.same(gen.decode(got), gen.decode(ds[c])[rows], "ds[rows,'c']")
    elif how == "colint" and not isinstance(sel, int):
        i = r.int(-len(names), len(names) - 1)
        got = m.call("ds[rows,i]", ds.__getitem__, (sel, i))
        m.same(gen.decode(got), gen.decode(ds[names[i]])[rows], "ds[rows,i]")
    elif how == "filter" and not isinstance(sel, (slice, int)):
        if r.chance():
            got = m.call("filter", ds.filter, sel)
            whole(m, got, ds, rows, "filter")
        else:
            d2 = ds.copy()
            keep = ds.copy()
            got = m.call("filter(inplace)", d2.filter, sel, inplace=True)
            m.check(got is d2, "filter(inplace) returned another object")
            whole(m, d2, keep, rows, "filter(inplace)")
    m.check(gen.snap_diff(before, gen.snap(ds)) is None, f"selection changed its source: {gen.snap_diff(before, gen.snap(ds))}")


@case(n=300)
def bad_selectors(m, r):
    n = r.int(2, 30)
    ds = table(r, n)
    m.note(n=n)
    before = gen.snap(ds)
    how = r.pick(["masklen", "filterlen", "missing", "2dfilter", "floatfilter", "threedim", "oob"])
    if how == "masklen":
        m.raises("ds[mask of wrong length]", ds.__getitem__, (np.ones(n + r.pick([-1, 1, 5]), dtype=bool), slice(None)))
    elif how == "filterlen":
        m.raises("filter(mask of wrong length)", ds.filter, np.ones(n + r.pick([-1, 1, 5]), dtype=bool), inplace=r.chance())
    elif how == "missing":
        m.raises("ds[missing column]", ds.__getitem__, (slice(None), "nope"))
    elif how == "2dfilter":
        m.raises("filter(2d)", ds.filter, np.ones((n, 1), dtype=bool))
    elif how == "floatfilter":
        m.raises("filter(float)", ds.filter, np.arange(n) * 1.0)
    elif how == "threedim":
        m.raises("ds[a,b,c]", ds.__getitem__, (0, 0, 0))
    else:
        m.raises("ds[out of bounds int]", ds.__getitem__, (n + 3, slice(None)))
    m.check(gen.snap_diff(before, gen.snap(ds)) is None, "rejected selection changed the dataset")


@case(n=400)
def head_tail_sample(m, r):
    n = r.size(big=0.005)
    ds = table(r, n)
    k = r.pick([0, 1, 2, 5, n, n + 3, max(n - 1, 0), 20])
    m.note(n=n, k=k, cols=[type(v).__name__ for v in ds.values()])
    before = gen.snap(ds)
    whole(m, m.call("head", ds.head, k), ds, np.arange(min(n, k)), f"head({k})")
    whole(m, m.call("tail", ds.tail, k), ds, np.arange(n - min(n, k), n), f"tail({k})")
    if n and k:
        filt = gen.bools(r, n, 0.6) if r.chance() else None
        pool = np.flatnonzero(filt) if filt is not None else np.arange(n)
        seed = r.int(0, 1000)
        got = m.call("sample", ds.sample, k, filter=filt, seed=seed)
        rid = plain(got["rid"])
        m.check(len(rid) == min(k, len(pool)), f"sample({k}) of {len(pool)} returned {len(rid)} rows")
        m.check(len(set(rid.tolist())) == len(rid), "sample repeated a row")
        m.check(set(rid.tolist()) <= set(pool.tolist()), "sample returned a filtered row")
        m.check((np.diff(rid) > 0).all(), "sample is not in original order")
        whole(m, got, ds, rid, "sample")
        again = m.call("sample", ds.sample, k, filter=filt, seed=seed)
        m.same(plain(again["rid"]), rid, "same seed, same sample")
    m.check(gen.snap_diff(before, gen.snap(ds)) is None, "source changed")


def rowkeys(ds, subset):
    cols = [gen.decode(ds[c]).tolist() for c in subset]
    return [tuple("nan" if isinstance(v, float) and v != v else v for v in t) for t in zip(*cols)]


@case(n=700)
def duplicates(m, r):
    n = r.pick([1, 2, 3, r.int(4, 40), r.int(41, 300)])
    nk = r.int(1, 3)
    cols = {}
    for i in range(nk):
        kd = r.pick(["i4", "S", "f8", "date", "bool", "i8", "U"])
        if kd in ("i4", "i8", "f8"):
            cols[f"k{i}"] = rt.FastArray(gen.num(r, n, kd, inv=0, card=r.int(1, 6)))
        elif kd == "date":
            cols[f"k{i}"] = rt.Date(gen.dates(r, n, 0, card=4))
        elif kd == "bool":
            cols[f"k{i}"] = rt.FastArray(gen.bools(r, n, 0.5))
        else:
            cols[f"k{i}"] = rt.FastArray(gen.words(r, n, kd, card=4), unicode=kd == "U")
    keys = list(cols)
    cols["rid"] = rt.arange(n)
    cols["v"] = gen.column(r, n, r.pick(["f8", "S", "date", "dtn", "i4"]), 0.1)
    ds = rt.Dataset(dict(r.perm(list(cols.items()))))
    keep = r.pick(["first", "last", False])
    kk = rowkeys(ds, keys)
    first, last, cnt = {}, {}, {}
    for i, k in enumerate(kk):
        first.setdefault(k, i)
        last[k] = i
        cnt[k] = cnt.get(k, 0) + 1
    kept = {"first": sorted(first.values()), "last": sorted(last.values()), False: [i for i, k in enumerate(kk) if cnt[k] == 1]}[keep]
    m.note(n=n, keys=kk[:30], keep=keep)
    before = gen.snap(ds)
    dup = plain(m.call("duplicated", ds.duplicated, keys if len(keys) > 1 or r.chance() else keys[0], keep=keep))
    exp = np.ones(n, bool)
    exp[kept] = False
    m.same(dup, exp, f"duplicated(keep={keep!r})")
    got = m.call("drop_duplicates", ds.drop_duplicates, keys, keep=keep)
    rid = plain(got["rid"])
    m.check(sorted(rid.tolist()) == kept, f"drop_duplicates(keep={keep!r}) kept rows {rid.tolist()[:20]}, expected {kept[:20]}")
    if keep != "last":
        m.same(rid, np.array(kept, dtype=int), "drop_duplicates order")
    m.check(sorted(got.keys()) == sorted(ds.keys()), "drop_duplicates columns")
    whole(m, got[list(ds.keys())], ds, rid, "drop_duplicates")
    m.check(gen.snap_diff(before, gen.snap(ds)) is None, "source changed by drop_duplicates")
    d2 = ds.copy()
    res = m.call("drop_duplicates(inplace)", d2.drop_duplicates, keys, keep=keep, inplace=True)
    m.check(d2.shape[0] == len(kept), f"inplace rows {d2.shape[0]} != {len(kept)}")
    whole(m, d2[list(ds.keys())], ds, plain(d2["rid"]), "drop_duplicates(inplace)")
    m.check(sorted(plain(d2["rid"]).tolist()) == kept, "drop_duplicates(inplace) rows")
    del res


@case(n=300)
def trim_keep(m, r):
    n = r.int(1, 40)
    k = r.int(1, 4)
    data = {}
    for i in range(k):
        dt = r.pick(["i4", "f8", "f4", "i8"])
        a = gen.num(r, n, dt, inv=0.3, lo=-3, hi=3)
        if dt[0] == "f":
            a = np.round(a)
        a[gen.bools(r, n, 0.4)] = 0
        if r.chance(0.15):
            a[:] = 0
        data[f"c{i}"] = rt.FastArray(a)
    lab = rt.FastArray(gen.words(r, n, "S"))
    ds = rt.Dataset(dict(data, lab=lab))
    z, na = r.pick([(True, True), (True, False), (False, True)])
    m.note(n=n, z=z, nans=na, cols={c: plain(v) for c, v in data.items()})
    masks = {}
    for c, v in data.items():
        p = plain(v)
        mk = np.zeros(n, bool)
        if z:
            mk |= p == 0
        if na:
            mk |= gen.is_inv(p)
        masks[c] = mk
    before = gen.snap(ds)
    got = m.call("trim", ds.trim, zeros=z, nans=na)
    keepc = [c for c in data if not masks[c].all()]
    rows = np.arange(n)
    if keepc:
        allbad = np.logical_and.reduce([masks[c] for c in keepc])
        rows = np.flatnonzero(~allbad)
    whole(m, got, ds, rows, "trim", keepc + ["lab"])
    got = m.call("trim(columns=False)", ds.trim, zeros=z, nans=na, columns=False)
    allbad = np.logical_and.reduce([masks[c] for c in data])
    whole(m, got, ds, np.flatnonzero(~allbad), "trim(columns=False)", list(ds.keys()))
    got = m.call("trim(rows=False)", ds.trim, zeros=z, nans=na, rows=False)
    whole(m, got, ds, np.arange(n), "trim(rows=False)", keepc + ["lab"])
    m.check(gen.snap_diff(before, gen.snap(ds)) is None, "trim changed its source")


def item(v):
    v = gen.txt(v)
    return v.item() if isinstance(v, np.generic) else v


@case(n=250)
def iterate_rows(m, r):
    n = r.int(0, 15)
    kinds = ["i4", "f8", "bool", "S", "U"] if r.chance(0.6) else ["i4", "cat", "date", "S", "f8"]
    ds = table(r, n, r.int(1, 4), 0.1, kinds)
    m.note(n=n, kinds=[type(v).__name__ for v in ds.values()])
    seen = 0
    for i, row in m.call("iterrows", ds.iterrows):
        m.check(i == seen, f"iterrows index {i} at step {seen}")
        for c in ds.keys():
            v, e = row[c], ds[c][i]
            v = v[0] if isinstance(v, (np.ndarray, list)) and not isinstance(v, (str, bytes)) and len(v) == 1 else v
            a, b = item(v), item(e)
            m.check(str(a) == str(b) or (a != a and b != b), f"iterrows row {i} column {c}: {a!r} != {b!r}")
        seen += 1
    m.check(seen == n, f"iterrows yielded {seen} rows of {n}")
    rows = m.call("tolist", ds.tolist)
    for i in range(min(n, len(rows) if len(rows) == n else 0)):
        for j, c in enumerate(ds.keys()):
            a, b = item(rows[i][j]), item(ds[c][i])
            if isinstance(a, (int, float, str, bool)):
                m.check(str(a) == str(b) or (a != a and b != b), f"tolist row {i} column {c}: {a!r} != {b!r}")


@case(n=250)
def label_rows(m, r):
    """Row selection by label values."""
    n = r.int(1, 20)
    keys = [f"k{i}" for i in range(n)]
    ds = rt.Dataset({"key": rt.FastArray(np.array(r.perm(keys))), "rid": rt.arange(n), "v": gen.column(r, n)})
    ds.label_set_names(["key"])
    names = [gen.txt(x) for x in plain(ds["key"]).tolist()]
    pick = r.subset(names, 1)
    m.note(names=names, pick=pick)
    got = m.call("ds[labels,:]", ds.__getitem__, (pick if len(pick) > 1 or r.chance() else pick[0], slice(None)))
    rows = [i for i, k in enumerate(names) if k in pick]
    whole(m, got, ds, rows, "label selection")
