"""C20: concatenation places every row of every input, in order, exactly once."""
import logging
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4"]
NUMS = INTS + ["f4", "f8"]


def size(r):
    return r.pick([0, 1, r.int(2, 9), r.int(9, 60), r.int(60, 300), r.int(8000, 20000)], p=[.1, .15, .4, .25, .09, .01])


def vals(r, n, dt):
    if dt == "b":
        return r.g.random(n) < .5
    if dt[0] in "iu":
        ii = np.iinfo(dt)
        lo, hi = r.pick([(-9, 9), (0, 100), (ii.min, ii.max)])
        lo, hi = max(lo, ii.min, -2**50), min(hi, ii.max, 2**50)
        a = r.g.integers(lo, hi, n, dtype=dt, endpoint=True)
        if r.chance(.5):
            a[r.g.random(n) < .2] = gen.invalid(np.dtype(dt))
        return a
    a = np.round(r.g.normal(0, 9, n), 1).astype(dt)
    if r.chance(.5):
        a[r.g.random(n) < .2] = np.nan
    return a


def lay(r, a):
    if len(a) and r.chance(.25) and type(a) is rt.FastArray and a.ndim == 1:
        return np.repeat(plain(a), 2).view(rt.FastArray)[::2]
    return a


def mean(a):
    """what each element of an array denotes; None when missing"""
    if isinstance(a, rt.Categorical):
        return gen.cat_labels(a).tolist()
    v = plain(a)
    if v.dtype.kind == "b":
        return [int(x) for x in v.tolist()]
    if v.dtype.kind in "SU":
        return [gen.txt(x) for x in v.reshape(-1).tolist()]
    inv = plain(a.isnan()) if isinstance(a, (rt.Date, rt.DateTimeNano, rt.TimeSpan, rt.DateSpan)) else gen.is_inv(v)
    return [None if i else float(x) for x, i in zip(v.reshape(-1).tolist(), np.asarray(inv).reshape(-1).tolist())]


def eq(m, got, exp, what, f4=False, **kw):
    m.check(len(got) == len(exp), what + ": number of rows", got=len(got), expected=len(exp), **kw)
    for i, (g, e) in enumerate(zip(got, exp)):
        ok = g == e or (isinstance(g, float) and isinstance(e, float) and f4 and abs(g - e) <= 1e-5 * max(1, abs(e)))
        if not ok:
            m.check(False, what + ": row", at=i, got=repr(g), expected=repr(e), **kw)
    m.check(True, what)


@case(n=260)
def arrays(m, r):
    k = r.int(1, 5)
    fam = r.pick(["num", "num", "same", "bool", "S", "U", "SU"])
    if fam == "num":
        dts = [r.pick(NUMS) for _ in range(k)]
    elif fam == "same":
        dts = [r.pick(NUMS + ["u8"])] * k
    elif fam == "bool":
        dts = ["b"] * k
    else:
        dts = [fam if fam != "SU" else r.pick("SU") for _ in range(k)]
    arrs = [lay(r, rt.FastArray(gen.words(r, size(r), d, empty=.1), unicode=d == "U") if d in "SU" else rt.FastArray(vals(r, size(r), d))) for d in dts]
    snaps = [gen.snap(a) for a in arrs]
    exp = sum([mean(a) for a in arrs], [])
    m.note(dts=dts, sizes=[len(a) for a in arrs], contiguous=[a.flags.contiguous for a in arrs])
    gen.dirty(r, len(exp))
    forms = [("hstack", lambda: rt.hstack(arrs)), ("hstack(tuple)", lambda: rt.hstack(tuple(arrs)))]
    if len(set(dts)) == 1:
        forms += [("concatenate", lambda: rt.concatenate(arrs)), ("np.hstack", lambda: np.hstack(arrs)), ("np.concatenate", lambda: np.concatenate(arrs))]
    for nm, f in forms:
        got = m.call(nm, f)
        if nm[:3] != "np.":
            m.check(isinstance(got, rt.FastArray), f"{nm}: a riptable array", got=type(got).__name__)
        eq(m, mean(got), exp, f"{nm}({sorted(set(dts))})", f4="f4" in dts)
        if len(set(dts)) == 1 and dts[0] in NUMS:
            m.check(plain(got).dtype == np.dtype(dts[0]), f"{nm}: dtype kept", got=plain(got).dtype)
        if len(got) and k > 1 and dts[0] in NUMS:
            got[:] = 1
    for a, s in zip(arrs, snaps):
        m.check(not gen.snap_diff(s, gen.snap(a)), "inputs untouched")
    if all(d in NUMS for d in dts):
        dt = r.pick(["f8", "i8"]) if not any(d[0] == "f" for d in dts) else "f8"
        got = m.call("hstack(dtype)", rt.hstack, arrs, dtype=np.dtype(dt))
        m.check(plain(got).dtype == np.dtype(dt), "hstack(dtype): dtype", got=plain(got).dtype)
        eq(m, mean(got), exp, f"hstack(dtype={dt})", f4="f4" in dts)
        n = len(arrs[0])
        if n and len(set(dts)) == 1:
            same = [rt.FastArray(vals(r, n, dts[0])) for _ in range(k)]
            same = [lay(r, a) for a in same]
            e = np.vstack([plain(a) for a in same])
            got = m.call("vstack", rt.vstack, same)
            m.same(got, e, "vstack")
            got = m.call("vstack(F)", rt.vstack, same, order="F")
            m.same(got, e.T, "vstack(order='F') gives the arrays as columns")


@case(n=150)
def special(m, r):
    k = r.int(1, 4)
    kind = r.pick(["date", "dtn", "span", "datespan"])
    tz = r.pick(gen.TZS)
    sizes = [max(0, size(r)) % 200 for _ in range(k)]

    def one(n):
        if kind == "dtn":
            return rt.DateTimeNano(gen.nanos(r, n, .1), from_tz="GMT", to_tz=tz)
        return gen.column(r, n, kind)
    arrs = [one(n) for n in sizes]
    if r.chance(.2):
        arrs = [a if not len(a) else one(2 * len(a))[::2] for a in arrs]
    exp = np.concatenate([plain(a) for a in arrs])
    snaps = [gen.snap(a) for a in arrs]
    m.note(kind=kind, sizes=sizes, tz=tz, contiguous=[a.flags.contiguous for a in arrs])
    for nm, f in (("rt.hstack", lambda: rt.hstack(arrs)), ("class hstack", lambda: type(arrs[0]).hstack(arrs)), ("concatenate", lambda: rt.concatenate(arrs))):
        got = m.call(nm, f)
        m.check(type(got) is type(arrs[0]), f"{nm}({kind}): class", got=type(got).__name__)
        m.same(plain(got), exp, f"{nm}({kind})")
        if kind == "dtn":
            m.check(got._timezone._to_tz == arrs[0]._timezone._to_tz, "time zone kept", got=got._timezone._to_tz)
    for a, s in zip(arrs, snaps):
        m.check(not gen.snap_diff(s, gen.snap(a)), "inputs untouched")


def cats(r, k):
    """compatible Categoricals"""
    kind = r.pick(["str", "int", "codes", "enum", "multi", "float", "ordered0", "date"])
    out = []
    if kind == "multi":
        kk = [r.pick(["S", "i4"]) for _ in range(r.int(2, 3))]
        for _ in range(k):
            n = r.int(1, 30)
            out.append(rt.Cat([rt.FastArray(gen.words(r, n, "S", card=3)) if x == "S" else rt.FastArray(r.g.integers(0, 3, n).astype("i4")) for x in kk], filter=(r.g.random(n) < .8) if r.chance(.3) else None))
        return out, kind
    if kind == "enum":
        mp = {"a": 1, "b": 5, "c": -7, "dd": 300}
        for _ in range(k):
            n = r.int(0, 30)
            sub = dict(list(mp.items())[: r.int(1, 4)]) if r.chance(.5) else mp
            out.append(rt.Cat(rt.FastArray(r.g.choice(list(sub.values()), n).astype("i4")), sub))
        return out, kind
    for _ in range(k):
        n = r.pick([0, 1, r.int(2, 40), r.int(100, 300)])
        out.append(gen.cat(r, n, .2 if r.chance(.5) else 0, kind))
    return out, kind


@case(n=260)
def categoricals(m, r):
    k = r.int(1, 4)
    cs, kind = cats(r, k)
    exp = sum([mean(c) for c in cs], [])
    snaps = [gen.snap(c) for c in cs]
    m.note(kind=kind, sizes=[len(c) for c in cs], cats=[[str(x)[:60] for x in c.category_dict.values()] if not c.isenum else c.category_mapping for c in cs])
    for nm, f in (("rt.hstack", lambda: rt.hstack(cs)), ("Cat.hstack", lambda: rt.Cat.hstack(cs)), ("concatenate", lambda: rt.concatenate(cs))):
        got, err = m.attempt(nm, f)
        if err is not None and isinstance(err, (TypeError, NotImplementedError)) and "different" in str(err):
            return
        m.check(err is None, f"{nm}({kind}) refused: {type(err).__name__} {str(err)[:90]}")
        m.check(isinstance(got, rt.Categorical), f"{nm}: class", got=type(got).__name__)
        eq(m, mean(got), exp, f"{nm}({kind})")
        if not got.isenum:
            cols = [mean(x) for x in got.category_dict.values()]
            lab = list(zip(*cols))
            m.check(len(set(lab)) == len(lab), f"{nm}({kind}): categories are distinct", got=lab[:10])
        if kind in ("str", "codes") and len(got):
            g = got.count()
            tot = int(plain(g.Count).sum())
            m.check(tot == sum(x is not None for x in exp), f"{nm}({kind}): a grouping of the result counts its rows", got=tot)
            w = next((x for x in exp if x is not None), None)
            if w is not None:
                m.same((got == w), np.array([x == w for x in exp]), f"{nm}({kind}): equality with a label")
    for a, s in zip(cs, snaps):
        m.check(not gen.snap_diff(s, gen.snap(a)), "inputs untouched")
    if len(cs) > 1 and len(cs[0]):
        got = rt.hstack(cs)
        ident = gen.snap(cs[0])
        plain(got)[:] = plain(got)[:1]
        m.check(not gen.snap_diff(ident, gen.snap(cs[0])), "the result shares nothing with its inputs")


def tables(r):
    k = r.int(1, 4)
    names = ["a", "b", "c", "d", "e"]
    kinds = {}
    for nm in names:
        kinds[nm] = r.pick(["num", "num", "bool", "S", "U", "SU", "date", "dtn", "span", "cat", "i2d", "f2d", "m2d"])
    tz, w = r.pick(gen.TZS), r.int(1, 3)
    ck = r.pick(["str", "int", "codes"])
    out = []
    for i in range(k):
        n = r.pick([0, 1, r.int(2, 9), r.int(9, 50)], p=[.05, .15, .5, .3])
        d = {}
        for nm in r.perm(names) if r.chance(.3) else names:
            if r.chance(.75) or (i == 0 and not d):
                kd = kinds[nm]
                if kd == "num":
                    d[nm] = lay(r, rt.FastArray(vals(r, n, r.pick(NUMS))))
                elif kd == "SU":
                    d[nm] = gen.column(r, n, r.pick(["S", "U"]))
                elif kd == "dtn":
                    d[nm] = rt.DateTimeNano(gen.nanos(r, n, .1), from_tz="GMT", to_tz=tz)
                elif kd == "cat":
                    d[nm] = gen.cat(r, n, .2, ck)
                elif kd == "i2d":
                    d[nm] = rt.FastArray(r.g.integers(0, 9, (n, w)).astype("i4"))
                elif kd == "m2d":
                    d[nm] = rt.FastArray(r.g.integers(0, 9, (n, w)).astype(r.pick(["i1", "i4", "i8", "f8", "f4"])))
                elif kd == "f2d":
                    d[nm] = rt.FastArray(np.round(r.g.normal(0, 3, (n, w)), 1))
                else:
                    d[nm] = gen.column(r, n, kd)
        if not d:
            d["a"] = gen.column(r, n, "f8") if kinds["a"] == "num" else None
            if d["a"] is None:
                d = {"z": rt.arange(n)}
        out.append((n, rt.Dataset(d)))
    return out, kinds


FILL = {"bool": 0, "S": "", "U": "", "SU": ""}


@case(n=260)
def rows(m, r):
    """Dataset.concat_rows"""
    tabs, kinds = tables(r)
    kinds = dict(kinds, z="num")
    dss = [d for _, d in tabs]
    ns = [n for n, _ in tabs]
    order = []
    for d in dss:
        order += [c for c in d.keys() if c not in order]
    exp = {}
    wid = {}
    for c in order:
        w = max(plain(d[c]).shape[1] if plain(d[c]).ndim == 2 else 1 for d in dss if c in d)
        wid[c] = w
        col = []
        for n, d in zip(ns, dss):
            col += mean(d[c]) if c in d else [FILL.get(kinds[c])] * (n * w)
        exp[c] = col
    snaps = [gen.snap(d) for d in dss]
    m.note(ns=ns, kinds=kinds, cols=[list(d.keys()) for d in dss])
    destroy = r.chance(.2)
    f = r.pick([rt.Dataset.concat_rows, rt.Dataset.hstack, rt.hstack])
    gen.dirty(r, sum(ns))
    if destroy and f is not rt.hstack:
        got = m.call("concat_rows(destroy)", f, dss, destroy=True)
    else:
        got = m.call("concat_rows", f, dss)
        for d, s in zip(dss, snaps):
            m.check(not gen.snap_diff(s, gen.snap(d)), "inputs untouched")
    m.check(isinstance(got, rt.Dataset), "a Dataset")
    m.check(sorted(got.keys()) == sorted(order), "columns", got=list(got.keys()), expected=order)
    m.check(got.shape[0] == sum(ns) or not sum(ns), "number of rows", got=got.shape, expected=ns)
    for c in order:
        eq(m, mean(got[c]), exp[c], f"column of kind {kinds[c]}", f4=True, column=c)
        srcs = [type(d[c]) for d in (dss if not destroy else []) if c in d]
        if srcs:
            m.check(type(got[c]) in srcs, "class of the column", got=type(got[c]).__name__)
        if kinds[c] == "dtn" and srcs:
            t = next(d[c] for d in dss if c in d)
            m.check(got[c]._timezone._to_tz == t._timezone._to_tz, "time zone of the column")


@case(n=100)
def columns(m, r):
    """Dataset.concat_columns"""
    n = r.int(1, 30)
    k = r.int(1, 4)
    names = ["a", "b", "c", "d", "e", "f"]
    dss = []
    for _ in range(k):
        nm = r.subset(names, 1)
        dss.append(rt.Dataset({c: gen.column(r, n) for c in nm}))
    dup = r.pick(["raise", "first", "last"])
    copy = r.chance(.5)
    alln = [c for d in dss for c in d.keys()]
    m.note(n=n, cols=[list(d.keys()) for d in dss], dup=dup, copy=copy)
    snaps = [gen.snap(d) for d in dss]
    clash = len(set(alln)) != len(alln)
    got, err = m.attempt("concat_columns", rt.Dataset.concat_columns, dss, do_copy=copy, on_duplicate=dup, on_mismatch=r.pick(["warn", "ignore"]))
    if clash and dup == "raise":
        m.check(isinstance(err, KeyError), "a clash is refused", got=repr(err))
        return
    m.check(err is None, f"refused: {err!r}"[:120])
    order = []
    for c in alln:
        if c not in order:
            order.append(c)
    m.check(sorted(got.keys()) == sorted(order), "columns", got=list(got.keys()), expected=order)
    for c in order:
        src = [d for d in dss if c in d]
        s = (src[0] if dup == "first" else src[-1])[c]
        gen.same_col(m, got[c], s, f"column ({dup})")
        if copy and n and isinstance(got[c], np.ndarray):
            m.check(not np.shares_memory(plain(got[c]), plain(s)), "a copy shares nothing")
    for d, s in zip(dss, snaps):
        m.check(not gen.snap_diff(s, gen.snap(d)), "inputs untouched")
    # lengths must agree
    bad, err = m.attempt("lengths", rt.Dataset.concat_columns, [dss[0], rt.Dataset({"zz": rt.arange(n + 1)})], do_copy=False)
    m.check(err is not None, "Datasets of different lengths are refused")


@case(n=100)
def structs(m, r):
    """Struct.concat_structs: items under one name are stacked"""
    k = r.int(2, 4)
    kinds = {c: r.pick(["num", "S", "date", "cat", "scalar", "ds", "dtn", "span"]) for c in "abcd"}
    tz = r.pick(gen.TZS)
    sts = []
    for _ in range(k):
        d = {}
        for c, kd in kinds.items():
            n = r.int(1, 12)
            if kd == "num":
                d[c] = rt.FastArray(vals(r, n, r.pick(NUMS)))
            elif kd == "scalar":
                d[c] = r.int(0, 99)
            elif kd == "ds":
                d[c] = rt.Dataset({"x": rt.FastArray(vals(r, n, "i4")), "y": gen.column(r, n, "S")})
            elif kd == "dtn":
                d[c] = rt.DateTimeNano(gen.nanos(r, n, .1), from_tz="GMT", to_tz=tz)
            elif kd == "cat":
                d[c] = gen.cat(r, n, .2, "str")
            else:
                d[c] = gen.column(r, n, kd)
        sts.append(rt.Struct(d))
    m.note(kinds=kinds, k=k)
    snaps = [gen.snap(s) for s in sts]
    f = r.pick([rt.Struct.concat_structs, rt.Struct.hstack])
    got = m.call("concat_structs", f, sts)
    m.check(list(got.keys()) == list(kinds), "items in order", got=list(got.keys()))
    for c, kd in kinds.items():
        if kd == "scalar":
            eq(m, mean(got[c]), [float(s[c]) for s in sts], "scalars")
        elif kd == "ds":
            for col in ("x", "y"):
                eq(m, mean(got[c][col]), sum([mean(s[c][col]) for s in sts], []), "nested Dataset")
        else:
            eq(m, mean(got[c]), sum([mean(s[c]) for s in sts], []), f"item of kind {kd}", f4=True)
            m.check(type(got[c]) is type(sts[0][c]), "class of the item", got=type(got[c]).__name__)
    for a, s in zip(sts, snaps):
        m.check(not gen.snap_diff(s, gen.snap(a)), "inputs untouched")


@case(n=150)
def stack_dict(m, r):
    """stacking a dictionary also tells which rows came from which key"""
    keys = r.perm(["zeta", "alpha", "mid", "Beta", "k5"])[:r.int(1, 5)]
    what = r.pick(["f8", "i4", "S", "cat", "date", "ds", "ds"])
    sizes = [r.pick([1, 1, 2, 5, 130]) for _ in keys]

    def one(n):
        if what == "ds":
            return rt.Dataset({"a": gen.num(r, n, "f8"), "s": rt.FastArray(gen.words(r, n)), "c": rt.Categorical(gen.words(r, n))})
        return rt.Categorical(gen.words(r, n)) if what == "cat" else gen.column(r, n, what)
    d = {k: one(n) for k, n in zip(keys, sizes)}
    if len(keys) == 1 and what == "ds":
        return
    fn = r.pick([rt.hstack_any, getattr(rt, "stack_rows", rt.hstack_any)])
    out, cat = m.call("hstack_any(dict)", fn, d)

    def cells(a):
        return [gen.txt(x) for x in gen.cat_labels(a).tolist()] if isinstance(a, rt.Categorical) else plain(a).tolist()
    cols = ["a", "s", "c"] if what == "ds" else [None]
    for c in cols:
        want = [x for k in keys for x in cells(d[k] if c is None else d[k][c])]
        got = cells(out if c is None else out[c])
        m.check(len(got) == len(want) and all(x == y or (x != x and y != y) for x, y in zip(got, want)), "stacked dictionary: values", kind=what, have=got[:5], want=want[:5])
    want = [k for k, n in zip(keys, sizes) for _ in range(n)]
    have = [gen.txt(x) for x in gen.cat_labels(cat).tolist()]
    m.check(have == want, "stacked dictionary: origin of each row", have=have[:8], want=want[:8])
    m.raises("empty", rt.hstack_any, {})
    m.raises("empty", rt.hstack_any, [])
