"""C28: results do not depend on history, configuration, worker threads, recycling or size."""
import gc
import re
import sys
import warnings
import numpy as np
import riptable as rt
from rv.core import R, case, plain, differs
from rv import gen
from rv.ops import OPS, build, state

warnings.simplefilter("ignore")
RANDOM = {"a.sample", "i.sample", "ds.sample"}
DET = [(n, f) for n, f in OPS if n not in RANDOM]


def seen(x, depth=0):
    """an independent record of everything observable in a result"""
    t = type(x)
    if isinstance(x, rt.Categorical):
        s = gen.snap(x)
        s["labels"] = state(x)["ncat"]
        return s
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            return ("objects", [repr(v) for v in x.tolist()])
        if x.dtype.names:
            return ("records", [(k, plain(x[k]).copy()) for k in x.dtype.names])
        return gen.snap(x)
    if isinstance(x, (rt.Struct, dict)) and depth < 5:
        lab = list(x.label_get_names()) if isinstance(x, rt.Dataset) else []
        # a Categorical takes the name of the last Dataset it was put in, and names its results' label column after that
        s = {"t": t.__name__, "items": [("label" if k in lab else k, seen(v, depth + 1)) for k, v in x.items()]}
        if isinstance(x, rt.Dataset):
            s["labels"], s["summary"] = len(lab), list(x.summary_get_names())
        return s
    if isinstance(x, (list, tuple)) and depth < 5:
        return {"t": t.__name__, "items": [(str(i), seen(v, depth + 1)) for i, v in enumerate(x)]}
    if t.__module__.startswith("pandas"):
        return ("pandas", x.to_csv())
    if t.__module__.startswith("pyarrow"):
        return ("arrow", str(x.type) if hasattr(x, "type") else str(x.schema), x.to_pylist())
    if t is str and "<html" in x:
        return ("html", re.sub(r"tbl-\d+", "tbl", x))  # a table gets a random style name
    if isinstance(x, (int, float, complex, str, bytes, bool, np.generic, type(None))):
        return ("scalar", t.__name__, x if x == x else "nan")
    if hasattr(x, "__next__"):
        return ("iterator", [seen(v, depth + 1) for v in x])
    return ("other", t.__name__)


def loose(a, b):
    """difference of two records, floats to rounding (the order of a sum may differ between thread counts)"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.kind == "f":
        if a.dtype != b.dtype or a.shape != b.shape:
            return f"{a.dtype}{a.shape} vs {b.dtype}{b.shape}"
        tol = 1e-3 if a.dtype.itemsize == 4 else 1e-9
        bad = ~np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True)
        return f"element {np.flatnonzero(bad.ravel())[0]}: {a.ravel()[bad.ravel()][0]!r} vs {b.ravel()[bad.ravel()][0]!r}" if bad.any() else None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.dtype != b.dtype:
            return f"{getattr(a, 'dtype', type(a))} vs {getattr(b, 'dtype', type(b))}"
        return differs(a, b)
    if type(a) is not type(b):
        return f"{type(a).__name__} vs {type(b).__name__}"
    if isinstance(a, dict):
        a, b = list(a.items()), list(b.items())
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = loose(x, y)
            if d:
                return f"[{i}]{d}"
        return None
    if isinstance(a, (float, np.floating)):
        return None if np.isclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True) else f"{a!r} vs {b!r}"
    return None if a == b else f"{a!r} vs {b!r}"


def run(fn, w, seed):
    try:
        return seen(fn(w, R(seed)))
    except Exception as e:
        return ("raised", type(e).__name__)


def churn(r, k=20):
    """allocate, fill and drop arrays of many sizes and types, so that recycled memory is dirty"""
    live = []
    for _ in range(k):
        n = r.pick([1, 3, 8, 30, 33, 64, 200, 1000, 4096])
        x = rt.FastArray(np.full(n, 0x5A, r.pick(["i1", "i2", "i4", "i8", "f4", "f8", "u8"])))
        live.append(x + x)
        if len(live) > 3:
            del live[r.int(0, 3)]
    y = rt.FastArray(np.array(["~~~~~~~~~~"] * 40))
    return len(live), y.str.upper


class Config:
    """a named configuration; entering sets it, leaving restores the defaults"""
    def __init__(self, name, r):
        self.name, self.r = name, r

    def __enter__(self):
        self.sw = sys.getswitchinterval()
        if self.name == "threads off":
            rt.FastArray._TOFF()
        elif self.name == "one thread":
            rt.rc.SetThreadWakeUp(1) if hasattr(rt.rc, "SetThreadWakeUp") else rt.FastArray._TOFF()
        elif self.name == "recycling off":
            rt.FastArray._ROFF(quiet=True)
        elif self.name == "recycler emptied":
            rt.FastArray._GCNOW()
        elif self.name == "dirty memory":
            churn(self.r)
        elif self.name == "ledger on":
            rt.FastArray._LON()
        elif self.name == "gc":
            gc.collect()

    def __exit__(self, *a):
        if self.name in ("threads off", "one thread"):
            rt.FastArray._TON()
        elif self.name == "recycling off":
            rt.FastArray._RON(quiet=True)
        elif self.name == "ledger on":
            rt.FastArray._LOFF()
            rt.FastArray._LCLEAR()


CONFIGS = ["threads off", "recycling off", "recycler emptied", "dirty memory", "ledger on", "gc", "plain"]


@case(n=len(DET), thorough=len(DET) * 8)
def configuration(m, r):
    """every operation gives the same result again, and in every configuration"""
    name, fn = DET[m.idx % len(DET)]
    s = r.int(0, 1 << 30)
    w, _ = build(r)
    base = run(fn, w, s)
    for c in CONFIGS:
        with Config(c, r):
            res = m.call("run " + c, run, fn, w, s)
        d = loose(base, res)
        m.check(d is None, f"{name}: result differs with {c}", difference=d, again=res, first=base)
    m.note(op=name, raised=base[0] == "raised" if isinstance(base, tuple) else False)


@case(n=len(DET), thorough=len(DET) * 8)
def history(m, r):
    """an operation after others on the same objects gives the result it gives on freshly built ones"""
    name, fn = DET[m.idx % len(DET)]
    ws, s = r.int(0, 1 << 30), r.int(0, 1 << 30)
    w, _ = build(R(ws))
    fresh = run(fn, w, s)
    w2, _ = build(R(ws))
    done = []
    for _ in range(r.pick([1, 2, 4, 8])):
        # prefer operations on the same object: those share its caches
        pre = name.split(".")[0]
        near = [q for q in DET if q[0].split(".")[0] == pre]
        o = r.pick(near) if r.chance(.6) else r.pick(DET)
        if r.chance(.4):
            o = r.pick([q for q in DET if q[0].startswith(("c.", "ds.gb", "gb", "acc", "c2.", "accum", "repr", "Cat"))])
        done.append(o[0])
        run(o[1], w2, r.int(0, 1 << 30))
        if r.chance(.2):
            churn(r, 5)
    res = m.call("run after", run, fn, w2, s)
    d = loose(fresh, res)
    m.check(d is None, f"{name}: result differs after other operations", difference=d, history=done)
    m.note(op=name, history=done)


def span(a):
    p = plain(a)
    return np.lib.array_utils.byte_bounds(p) if hasattr(np.lib, "array_utils") else np.byte_bounds(p)


@case(n=80, thorough=1000)
def recycled_memory(m, r):
    """live results never share memory with each other, and keep their contents whatever is allocated and dropped"""
    live = []

    def make():
        n = r.pick([5, 16, 40, 65, 300, 1200, 5000])
        x = rt.FastArray(np.round(r.g.normal(0, 9, n), 1))
        y = rt.FastArray(r.g.integers(-9, 9, n).astype(r.pick(["i1", "i4", "i8"])))
        c = rt.Cat(rt.FastArray(r.g.integers(0, 4, n)))
        f = x > 0
        ops = [lambda: x + 1, lambda: x * x, lambda: y + y, lambda: x > 1, lambda: x[f], lambda: x[y.argsort()], lambda: x.cumsum(), lambda: rt.where(f, x, 0.), lambda: rt.sort(x),
               lambda: rt.unique(y), lambda: c.sum(x)[1], lambda: c.sum(x, transform=True)[0], lambda: x.astype("f4"), lambda: y.astype("i8") + 1, lambda: -x, lambda: x.fillna(0), lambda: x.shift(1),
               lambda: rt.hstack([x, x]), lambda: rt.ismember(y, y[:3])[1], lambda: abs(x), lambda: x.copy(), lambda: x.isnan(), lambda: ~f, lambda: c.cumsum(x)[0], lambda: rt.Cat(y)._fa,
               lambda: rt.arange(n), lambda: rt.zeros(n), lambda: rt.ones(n, dtype="i4"), lambda: rt.full(n, 7.), lambda: rt.FastArray(list(range(n))), lambda: x.rolling_sum(3), lambda: c.expand_array]
        o = r.pick(ops)
        out = o()
        if not isinstance(out, np.ndarray) or out.size == 0:
            return
        # a view keeps its parent's memory alive even after the parent's name is gone
        if r.chance(.3) and len(out) > 4:
            out = out[r.int(0, 2):]
        live.append((out, plain(out).copy()))

    for _ in range(r.pick([10, 30, 60])):
        m.call("make", make)
        if live and r.chance(.4):
            live.pop(r.int(0, len(live) - 1))
        if r.chance(.1):
            churn(r, 5)
        if r.chance(.05):
            rt.FastArray._GCNOW()
        if r.chance(.05):
            gc.collect()
    for x, was in live:
        m.same(plain(x), was, "a live result keeps its contents")
    sp = sorted((span(x), i) for i, (x, _) in enumerate(live))
    for (a, i), (b, j) in zip(sp, sp[1:]):
        m.check(a[1] <= b[0], "two live results overlap in memory", one=str(live[i][0].dtype), two=str(live[j][0].dtype))
    m.note(live=len(live))


# ---- size
def big(r):
    return r.pick([70_000, 131_073, 300_000, 600_000])


def keys(r, n, u, dtype="i8"):
    k = r.g.integers(0, u, n).astype(dtype)
    return k


@case(n=24, thorough=240)
def large_groups(m, r):
    """grouping and group functions over many rows, including the high-unique packing path, against counting in NumPy"""
    n = r.pick([200_000, 1_000_001, 1_200_000]) if m.idx % 2 else big(r)
    u = r.pick([3, 200, 40_000, n // 30, n // 3])
    k = keys(r, n, u, r.pick(["i4", "i8"]))
    k[r.g.integers(0, n)] = 0
    v = r.g.integers(-50, 50, n)
    kind = r.pick(["num", "num", "str", "multi"])
    if kind == "str":
        key = rt.FastArray(k.astype("S8"))
    elif kind == "multi":
        key = [rt.FastArray(k // 7), rt.FastArray((k % 7).astype("i2"))]
    else:
        key = rt.FastArray(k)
    flt = r.g.random(n) < .8 if r.chance(.3) else None
    kw = {} if flt is None else {"filter": rt.FastArray(flt)}
    kw["ordered"] = r.chance()
    c = m.call("Cat", rt.Cat, key, **kw)
    codes = plain(c._fa).astype("i8")
    use = np.ones(n, bool) if flt is None else flt
    m.check(bool(((codes > 0) == use).all()), "every unfiltered row in a group")
    # same code iff same key: one key per code, one code per key
    uk, inv = np.unique(k[use], return_inverse=True)
    cu = codes[use]
    m.check(c.unique_count == len(uk), "number of groups", have=int(c.unique_count), want=len(uk))
    first = np.full(len(uk) + 1, -1)
    first[cu] = inv
    m.check(bool((first[cu] == inv).all()), "rows of one group share one key")
    pos = np.zeros(len(uk) + 1, "i8")
    pos[inv] = cu
    m.check(bool((pos[inv] == cu).all()), "equal keys are in one group")
    g = c.grouping
    ig, ifirst, ncount = plain(g.igroup), plain(g.ifirstgroup), plain(g.ncountgroup)
    m.check(len(ig) == n and bool((np.sort(ig) == np.arange(n)).all()), "igroup is a permutation of the rows")
    m.same(ncount.astype("i8"), np.bincount(codes, minlength=len(uk) + 1), "group sizes")
    exp = np.argsort(codes, kind="stable")
    m.same(ig.astype("i8"), exp, "rows of each group in order")
    fs = np.concatenate([[0], np.cumsum(np.bincount(codes, minlength=len(uk) + 1))[:-1]])
    m.same(ifirst.astype("i8")[ncount > 0], fs[ncount > 0], "start of each group")
    s = np.bincount(codes, weights=v, minlength=len(uk) + 1)
    val = rt.Dataset({"val_": rt.FastArray(v)})
    m.same(plain(c.sum(val)["val_"]).astype("i8"), s[1:].astype("i8"), "sum of each group")
    ordv = v[exp][int((codes == 0).sum()):]
    starts = (fs - int((codes == 0).sum()))[1:].astype("i8")
    m.same(plain(c.min(val)["val_"]).astype("i8"), np.minimum.reduceat(ordv, starts), "minimum of each group")
    m.same(plain(c.first(val)["val_"]).astype("i8"), ordv[starts], "first of each group")
    tr = plain(c.sum(val, transform=True)["val_"])
    m.same(tr[use].astype("i8"), s[codes[use]].astype("i8"), "transform aligned with the rows")
    cs = plain(c.cumsum(val)["val_"])
    allc = np.cumsum(v[exp])
    base = np.concatenate([[0], allc])[fs]
    expc = np.empty(n, "i8")
    expc[exp] = allc - base[codes[exp]]
    m.same(cs[use].astype("i8"), expc[use], "cumulative sum in each group")
    m.note(rows=n, groups=int(len(uk)), kind=kind, filtered=flt is not None)


@case(n=20, thorough=200)
def large_lookup(m, r):
    """membership, uniqueness, sort and joins over many rows against NumPy"""
    n, k = big(r), r.pick([1000, 50_000, 150_000])
    a = r.g.integers(0, k * 2, n)
    b = r.g.permutation(k * 2)[:k]
    kind = r.pick(["num", "str", "multi", "i4"])
    conv = {"num": lambda x: rt.FastArray(x), "str": lambda x: rt.FastArray(x.astype("S8")), "i4": lambda x: rt.FastArray(x.astype("i4")),
            "multi": lambda x: [rt.FastArray(x // 11), rt.FastArray((x % 11).astype("i1"))]}[kind]
    has, idx = m.call("ismember", rt.ismember, conv(a), conv(b))
    loc = np.full(k * 2, -1)
    loc[b] = np.arange(k)
    e = loc[a]
    m.check(bool((plain(has) == (e >= 0)).all()), "ismember flags")
    m.check(bool((plain(idx)[e >= 0] == e[e >= 0]).all()), "ismember positions")
    if kind != "multi":
        x = conv(a)
        m.same(plain(m.call("unique", rt.unique, x)), np.unique(plain(x)), "unique")
        so = plain(m.call("lexsort", rt.lexsort, [x]))
        m.same(so.astype("i8"), np.argsort(plain(x), kind="stable"), "stable sort order")
        m.same(plain(m.call("sort", rt.sort, x)), np.sort(plain(x)), "sorted values")
    lv, rv = r.g.integers(0, 999, n), r.g.integers(0, 999, k)
    key = ["p", "q"] if kind == "multi" else "p"
    mk = lambda x, v, nm: rt.Dataset({**({"p": conv(x)[0], "q": conv(x)[1]} if kind == "multi" else {"p": conv(x)}), nm: rt.FastArray(v)})
    dl, dr = mk(a, lv, "l"), mk(b, rv, "r")
    how = r.pick(["left", "inner"])
    j = m.call("merge2", rt.merge2, dl, dr, on=key, how=how)
    keep = np.ones(n, bool) if how == "left" else e >= 0
    m.same(plain(j["l"]), lv[keep], f"{how} join keeps the left rows")
    hit = (e >= 0)[keep]
    m.same(plain(j["r"])[hit], rv[e[keep][hit]], f"{how} join fetches the right rows")
    m.check(bool(np.asarray(rt.isnan(j["r"]))[~hit].all()), f"{how} join leaves unmatched rows missing")
    m.note(rows=n, keys=k, kind=kind, how=how)


@case(n=60, thorough=600)
def pieces(m, r):
    """elementwise and order operations on a large array equal the same operation on its pieces"""
    n = big(r)
    dt = r.pick(["f8", "f4", "i4", "i8", "i2", "u1"])
    x = r.g.integers(0 if dt[0] == "u" else -100, 100, n).astype(dt)
    y = r.g.integers(1, 100, n).astype(dt)
    if dt[0] == "f":
        x[r.g.random(n) < .05] = np.nan
    fx, fy = rt.FastArray(x), rt.FastArray(y)
    off = r.int(0, 5)
    cuts = sorted({0, n, *[int(v) for v in r.g.integers(0, n, 6)]})
    f = rt.FastArray(r.g.random(n) < .5)
    ops = [("add", lambda s: fx[s] + fy[s]), ("sub", lambda s: fx[s] - fy[s]), ("mul", lambda s: fx[s] * 2), ("lt", lambda s: fx[s] < fy[s]), ("eq", lambda s: fx[s] == 5), ("abs", lambda s: abs(fx[s])),
           ("div", lambda s: fx[s] / fy[s]), ("isnan", lambda s: fx[s].isnan()), ("where", lambda s: rt.where(f[s], fx[s], fy[s])), ("mask", lambda s: fx[s][f[s]]), ("fillna", lambda s: fx[s].fillna(3)),
           ("astype", lambda s: fx[s].astype("f8")), ("max", lambda s: rt.maximum(fx[s], fy[s])), ("isin", lambda s: fx[s].isin([1, 2, 50])), ("neg", lambda s: -fx[s].astype("i8")),
           ("str", lambda s: fx[s].astype("S")), ("date", lambda s: (rt.Date(15000 + fy[s].astype("i4")).year)), ("between", lambda s: fx[s].between(-5, 20)),
           ("upper", lambda s: fy[s].astype("i2").astype("S").str.contains("1")), ("and", lambda s: f[s] & (fy[s] > 50)), ("take", lambda s: fx[s][np.arange(len(fx[s]))[::-1]][::-1])]
    name, fn = ops[m.idx % len(ops)]
    whole = plain(m.call(name, fn, slice(None)))
    parts = np.concatenate([plain(fn(slice(a, b))) for a, b in zip(cuts, cuts[1:]) if b > a])
    m.check(whole.dtype.kind == parts.dtype.kind, "kind of result")
    m.same(whole.astype(parts.dtype) if whole.dtype.kind in "SU" else whole, parts, f"{name} in one piece and in pieces")
    # reductions: of the whole and of the pieces
    for nm in ("nansum", "nanmin", "nanmax"):
        g = getattr(rt, nm)
        tot = g(fx)
        ps = [g(fx[a:b]) for a, b in zip(cuts, cuts[1:]) if b - a > 50]
        rest = [g(fx[a:b]) for a, b in zip(cuts, cuts[1:]) if 0 < b - a <= 50 and not fx[a:b].isnan().all()]
        e = {"nansum": sum, "nanmin": min, "nanmax": max}[nm]([float(v) for v in ps + rest])
        m.close(float(tot), float(e), f"{nm} of the whole and of the pieces", rtol=1e-6 if dt == "f4" else 1e-12)
    m.note(op=name, rows=n, dtype=dt, pieces=len(cuts) - 1)
