"""C19: sorting yields the sorted, stable permutation, keeps rows together, and sorted views follow the data."""
import functools
import logging
import os
import re
import shutil
import tempfile
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
KINDS = INTS + ["f4", "f8", "b", "S", "U", "date", "dtn", "span", "cat"]


def size(r):
    return r.pick([0, 1, 2, r.int(3, 20), r.int(20, 70), r.int(70, 400), r.int(5000, 30000)], p=[.03, .07, .08, .4, .26, .14, .02])


def key(r, n, kind):
    if kind in INTS:
        ii = np.iinfo(kind)
        if r.chance(.5):
            lo, hi = max(ii.min, -3), 3
        else:
            lo, hi = ii.min, ii.max
        return rt.FastArray(r.g.integers(lo, hi, n, dtype=kind, endpoint=True))
    if kind in ("f4", "f8"):
        a = np.round(r.g.normal(0, 3, n), r.int(0, 2)).astype(kind)
        if r.chance(.5):
            a[r.g.random(n) < .2] = np.nan
        if r.chance(.3):
            a[r.g.random(n) < .2] = r.pick([np.inf, -np.inf])
        a[a == 0] = 0
        return rt.FastArray(a)
    if kind == "b":
        return rt.FastArray(r.g.random(n) < .5)
    if kind in ("S", "U"):
        return gen.words(r, n, kind)
    if kind == "date":
        return rt.Date(r.g.integers(0, 40000, n))
    if kind == "dtn":
        return rt.DateTimeNano(r.g.integers(10**17, 2 * 10**18, n), from_tz="UTC", to_tz="NYC")
    if kind == "span":
        return rt.TimeSpan(np.round(r.g.normal(0, 1e12, n)))
    return rt.Categorical([r.pick(["b", "a", "zz", "c"]) for _ in range(max(n, 1))][:n] if n else rt.FastArray([], dtype="S1"), ordered=r.chance(.7))


def stride(r, a):
    if len(a) and r.chance(.25) and type(a) is rt.FastArray:
        return np.repeat(plain(a), 2).view(rt.FastArray)[::2]
    return a


def perm(keys, asc):
    """stable permutation; keys in priority order, NaN last in either direction"""
    n = len(keys[0])
    ks = []
    for a in keys:
        v = plain(a)
        u, inv = np.unique(v, return_inverse=True)
        inv = inv.reshape(-1).astype("i8")
        nan = np.isnan(v) if v.dtype.kind == "f" else np.zeros(n, bool)
        ks.append((inv, nan))
    cols = []
    for (inv, nan), up in zip(ks, asc):
        c = inv if up else -inv
        c = c.copy()
        c[nan] = 1 << 40
        cols.append(c)
    return np.lexsort(cols[::-1])


def keyset(r, n):
    k = r.pick([1, 1, 2, 2, 3, 4])
    kinds = [r.pick(KINDS) for _ in range(k)]
    return [key(r, n, x) for x in kinds], kinds


@case(n=260)
def lexsort(m, r):
    n = max(1, size(r))
    keys, kinds = keyset(r, n)
    keys = [stride(r, a) for a in keys]
    form = r.pick(["all", "all", "false", "list", "array", "tuple"])
    asc = [True] * len(keys) if form == "all" else ([False] * len(keys) if form == "false" else [r.chance(.5) for _ in keys])
    snap = [gen.snap(a) for a in keys]
    m.note(n=n, kinds=kinds, asc=asc, form=form, contiguous=[a.flags.contiguous for a in keys])
    e = perm(keys, asc)
    rev = keys[::-1]
    ra = asc[::-1]
    kw = {"all": {}, "false": dict(ascending=False), "list": dict(ascending=list(ra)), "array": dict(ascending=np.array(ra)), "tuple": dict(ascending=tuple(ra))}[form]
    got = m.call("lexsort", rt.lexsort, rev if r.chance(.8) else tuple(rev) if form == "all" and False else rev, **kw)
    m.same(got, e, "lexsort", kinds=kinds, asc=asc)
    if len(keys) == 1:
        # without kind= the order among equal elements is left open
        v = plain(keys[0])
        for tag, f in (("argsort", lambda: rt.argsort(keys[0])), ("method argsort", keys[0].argsort)):
            got = plain(m.call(tag, f))
            m.same(np.sort(got), np.arange(n), f"{tag}({kinds[0]}): a permutation")
            m.same(v[got], v[e if asc[0] else perm(keys, [True])], f"{tag}({kinds[0]}): sorted")
        if kinds[0] != "cat":
            m.same(m.call("argsort(stable)", rt.argsort, keys[0], kind="stable"), perm(keys, [True]), f"argsort({kinds[0]}, stable)")
    for a, s in zip(keys, snap):
        m.check(not gen.snap_diff(s, gen.snap(a)), "keys untouched")


@case(n=160)
def values(m, r):
    """sort, in-place sort and issorted of one array"""
    n = max(1, size(r))
    kind = r.pick(INTS + ["f4", "f8", "b", "S", "U"])
    a = stride(r, key(r, n, kind))
    v = plain(a).copy()
    m.note(n=n, kind=kind, contiguous=a.flags.contiguous)
    e = np.sort(v)
    got = m.call("rt.sort", rt.sort, a)
    m.same(got, e, f"rt.sort({kind})")
    m.same(plain(a), v, "rt.sort leaves its input alone")
    got = m.call("np.sort", np.sort, a)
    m.same(got, e, f"np.sort({kind})")
    if kind not in ("S", "U") or True:
        ok = bool((np.argsort(v, kind="stable") == np.arange(n)).all()) if v.dtype.kind != "f" else bool((perm([v], [True]) == np.arange(n)).all())
        if a.flags.contiguous:
            m.check(bool(m.call("issorted", rt.issorted, a)) == ok, f"issorted({kind})", got=not ok, values=v[:12])
            m.check(bool(m.call("issorted", rt.issorted, rt.FastArray(e, unicode=True))), f"issorted(sorted {kind})")
    b = a.copy()
    m.call("sort()", b.sort)
    m.same(plain(b), e, f"in-place sort({kind})")


def table(r, n):
    cols = {}
    for i in range(r.int(1, 4)):
        cols["k%d" % i] = key(r, n, r.pick(KINDS))
    for i in range(r.int(0, 3)):
        cols["v%d" % i] = gen.column(r, n, r.pick(["f8", "i4", "S", "cat", "dtn", "b"]))
    cols["row"] = rt.arange(n)
    return rt.Dataset(cols)


def spec(r, ds):
    ks = [c for c in ds.keys() if c[0] == "k"]
    by = r.perm(ks)[: r.int(1, len(ks))]
    form = r.pick(["default", "bool", "list", "array"])
    if form == "default":
        return by, [True] * len(by), {}
    if form == "bool":
        u = r.chance(.5)
        return by, [u] * len(by), dict(ascending=u)
    asc = [r.chance(.5) for _ in by]
    return by, asc, dict(ascending=list(asc) if form == "list" else np.array(asc))


@case(n=260)
def tables(m, r):
    """sort_inplace and sort_copy"""
    n = max(1, size(r))
    ds = table(r, n)
    if r.chance(.3):
        ds.label_set_names(["k0"])
    if r.chance(.2):
        ds.footer_set_values("total", {"row": "t"})
    by, asc, kw = spec(r, ds)
    e = perm([ds[c] for c in by], asc)
    before = {c: gen.decode(ds[c]) for c in ds.keys()}
    kinds = {c: gen.kind_of(ds[c]) for c in ds.keys()}
    order = list(ds.keys())
    arg = by[0] if len(by) == 1 and r.chance(.5) else list(by)
    m.note(n=n, by=by, asc=asc, kw=list(kw))
    snap = {c: gen.snap(ds[c]) for c in ds.keys()}
    hold = {c: ds[c] for c in ds.keys()}
    lab, foot = list(ds.label_get_names()), list(ds.footer_get_dict()) if ds.footers is not None else None

    def judge(res, what):
        m.check(list(res.keys()) == order, f"{what}: columns", got=list(res.keys()), expected=order)
        m.check(len(res) == n, f"{what}: rows")
        for c in order:
            m.same(gen.decode(res[c]), before[c][e], f"{what}: column {c} ({kinds[c]})")
            m.check(gen.kind_of(res[c]) == kinds[c], f"{what}: type of {c}", got=gen.kind_of(res[c]), expected=kinds[c])
        m.check(list(res.label_get_names()) == lab, f"{what}: labels kept", got=res.label_get_names())
        if foot is not None:
            m.check(list(res.footer_get_dict()) == foot, f"{what}: footers kept")

    res = m.call("sort_copy", ds.sort_copy, arg, **kw)
    m.check(res is not ds, "sort_copy gives a new Dataset")
    judge(res, "sort_copy")
    for c in order:
        m.check(not gen.snap_diff(snap[c], gen.snap(ds[c])), "sort_copy leaves its source alone", column=c)
    if len(res) and n:
        res.row[:] = -1
        m.check(not gen.snap_diff(snap["row"], gen.snap(ds.row)), "sort_copy shares nothing")
    res = m.call("sort_inplace", ds.sort_inplace, arg, **kw)
    m.check(res is ds, "sort_inplace returns the Dataset")
    judge(ds, "sort_inplace")
    for c in order:
        m.check(not gen.snap_diff(snap[c], gen.snap(hold[c])), "sort_inplace replaces the columns, it does not write into arrays held elsewhere", column=c)
    # sorting again by the same keys changes nothing
    m.call("again", ds.sort_inplace, arg, **kw)
    judge(ds, "sorted twice")


ROW = re.compile(r"^\s*(\d+)\s")


def shown(m, ds):
    """row numbers in the order the Dataset is displayed"""
    txt = m.call("repr", ds.__repr__)
    txt = re.sub(r"\x1b\[[0-9;]*m", "", txt)
    out = []
    seen = False
    for line in txt.splitlines():
        if line.lstrip().startswith("-") and not seen:
            seen = True
            continue
        if seen:
            g = ROW.match(line)
            if not g:
                break
            out.append(int(g.group(1)))
    return out


@case(n=240)
def views(m, r):
    """a sorted view over a history of edits"""
    n = r.int(2, 14)
    ds = table(r, n)
    by = asc = None
    hist = []
    tmp = None
    unsure = False
    others, given = [], []
    try:
        for step in range(r.int(3, 10)):
            op = r.pick(["sort", "sort", "edit", "edit", "editother", "replace", "replacetype", "delete", "rename", "prefix", "copy", "sds", "inplace", "off", "add", "reverse", "other", "filter", "cols", "strided", "dedup"])
            hist.append(op)
            ks = [c for c in ds.keys() if "k" in c]
            m.note(history=list(hist), n=len(ds), by=by, asc=asc)
            if op == "sort":
                by = r.perm(ks)[: r.int(1, min(3, len(ks)))]
                form = r.pick(["bool", "list", "array", "default"])
                asc = [r.chance(.5) for _ in by]
                if form in ("bool", "default"):
                    asc = [asc[0] if form == "bool" else True] * len(by)
                kw = {"bool": dict(ascending=asc[0]), "list": dict(ascending=list(asc)), "array": dict(ascending=np.array(asc)), "default": {}}[form]
                mine = list(by)
                given.append((mine, list(by)))
                res = m.call("sort_view", ds.sort_view, mine, **kw)
                m.check(res is ds, "sort_view returns the Dataset itself")
                unsure = False
            elif op in ("edit", "editother"):
                c = r.pick(by) if by and op == "edit" else r.pick(list(ds.keys()))
                a = ds[c]
                if c == "row" or isinstance(a, rt.Categorical):
                    continue
                j, k = r.int(0, len(ds) - 1), r.int(0, len(ds) - 1)
                t = plain(a)
                x, y = t[j].copy(), t[k].copy()
                t[j], t[k] = y, x
            elif op == "reverse":
                c = r.pick(ks)
                t = plain(ds[c])
                t[:] = t[::-1].copy()
            elif op in ("replace", "replacetype"):
                c = r.pick(ks)
                old = ds[c]
                if op == "replacetype" and type(old) is rt.FastArray and old.dtype.kind in "iu":
                    # the same bytes, read as another type
                    new = plain(old).view(old.dtype.str.replace("i", "x").replace("u", "i").replace("x", "u")).copy().view(rt.FastArray)
                else:
                    new = key(r, len(ds), r.pick(KINDS))
                ds[c] = new
                if by and c in by:
                    by = asc = None
                    if r.chance(.7):
                        by, asc = [c], [True]
                        m.call("sort_view", ds.sort_view, c)
            elif op == "delete":
                if len(ks) < 2:
                    continue
                c = r.pick(ks)
                del ds[c]
                if by and c in by:
                    by = asc = None
            elif op == "rename":
                c = r.pick(ks)
                nm = "k%d" % (100 + step)
                m.call("col_rename", ds.col_rename, c, nm)
                if by and c in by:
                    by = [nm if x == c else x for x in by]
            elif op == "prefix":
                if any("_" in x for x in ds.keys()):
                    continue
                f = r.pick(["p", "s"])
                m.call("prefix", ds.col_add_prefix if f == "p" else ds.col_add_suffix, "x_" if f == "p" else "_x")
                if by:
                    by = ["x_" + x if f == "p" else x + "_x" for x in by]
            elif op == "copy":
                d2 = m.call("copy", ds.copy)
                others.append((ds, list(by) if by else None, list(asc) if asc else None, unsure))
                ds = d2
                unsure = True
            elif op == "filter":
                f = r.g.random(len(ds)) < .8
                if f.sum() < 2:
                    continue
                ds = ds[rt.FastArray(f), :]
                unsure = True
            elif op == "dedup":
                c = r.pick(ks) if ks else None
                if c is None or len(set(map(str, gen.decode(ds[c]).tolist()))) < 2:
                    continue
                m.call("drop_duplicates(inplace)", ds.drop_duplicates, c, inplace=True)
                unsure = True
            elif op == "cols":
                drop = r.pick(ks)
                if len(ks) < 2:
                    continue
                ds = ds[[c for c in ds.keys() if c != drop]]
                if by and drop in by:
                    asc = [u for c, u in zip(by, asc) if c != drop]
                    by = [c for c in by if c != drop]
                    if not by:
                        by = asc = None
                unsure = True
            elif op == "strided":
                c = r.pick(ks)
                a = ds[c]
                if type(a) is not rt.FastArray:
                    continue
                ds[c] = np.repeat(plain(a), 2).view(rt.FastArray)[::2]
                if by and c in by:
                    by, asc = [c], [False]
                    m.call("sort_view", ds.sort_view, c, ascending=False)
            elif op == "sds":
                tmp = tmp or tempfile.mkdtemp(prefix="rv_c19_")
                p = os.path.join(tmp, "d%d.sds" % step)
                m.call("save", ds.save, p)
                if r.chance(.4):
                    inc = r.subset(list(ds.keys()))
                    if not any("k" in c for c in inc):
                        inc = list(ds.keys())
                    ds = m.call("load", rt.load_sds, p, include=inc)
                    m.check(sorted(ds.keys()) == sorted(inc), "selective load: columns", got=list(ds.keys()), expected=inc)
                    if by and not all(c in ds for c in by):
                        by = asc = None
                else:
                    ds = m.call("load", rt.load_sds, p)
                unsure = True
            elif op == "inplace":
                b2 = r.perm(ks)[: r.int(1, len(ks))]
                lab = [gen.decode(ds[c]) for c in ds.keys()]
                e = perm([ds[c] for c in b2], [True] * len(b2))
                m.call("sort_inplace", ds.sort_inplace, list(b2))
                for c, x in zip(ds.keys(), lab):
                    m.same(gen.decode(ds[c]), x[e], "sort_inplace over a view: column", column=c)
                by = asc = None
                unsure = True
            elif op == "off":
                m.call("sorts_off", ds.sorts_off)
                by = asc = None
                unsure = False
            elif op == "add":
                ds["n%d" % step] = rt.arange(len(ds))
            elif op == "other":
                # another Dataset with the same column names and other data, sorted the same way
                d2 = rt.Dataset({c: key(r, len(ds), r.pick(KINDS)) for c in ks})
                if by and all(c in d2 for c in by):
                    m.call("sort_view", d2.sort_view, list(by))
                    m.same(shown(m, d2), perm([d2[c] for c in by], [True] * len(by)), "another Dataset sorts by its own data")
            m.note(history=list(hist), n=len(ds), by=by, asc=asc)
            nat = np.arange(len(ds))
            exp = perm([ds[c] for c in by], asc) if by else nat
            got = np.array(shown(m, ds))
            if unsure and len(got) == len(nat) and bool((got == nat).all()):
                pass
            else:
                m.same(got, exp, "rows shown", types=[gen.kind_of(ds[c]) for c in by or []])
            c = r.pick(list(ds.keys()))
            col = gen.decode(m.call("get_sorted_col_data", ds.get_sorted_col_data, c))
            lab = gen.decode(ds[c])
            if not (unsure and list(map(str, col.tolist())) == list(map(str, lab.tolist()))):
                m.same(col, lab[exp], "get_sorted_col_data", column=c)
            for x, y in given:
                m.check(x == y, "the caller's list of columns is left alone", got=x, expected=y)
            if others:
                d0, b0, a0, u0 = others[-1]
                if not u0:
                    m.same(np.array(shown(m, d0)), perm([d0[c] for c in b0], a0) if b0 else np.arange(len(d0)), "a copy's sorts leave the original's view alone")
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


@case(n=200)
def search(m, r):
    """positions in a sorted array"""
    dt, dv = r.pick(["i1", "i4", "i8", "u2", "f4", "f8"]), r.pick(["i1", "i4", "i8", "u2", "f4", "f8"])
    n, k = r.pick([0, 1, 2, r.int(3, 40), 3000]), r.pick([0, 1, r.int(2, 50), 3000])
    a = np.sort(r.g.integers(0, 100, n)).astype(dt)
    v = r.g.integers(0, 110, k).astype(dv)
    side = r.pick(["left", "right"])
    e = np.searchsorted(a.astype("f8"), v.astype("f8"), side=side)
    fa, fv = rt.FastArray(a), rt.FastArray(v)
    if n and r.chance(.3):
        fa = rt.FastArray(np.repeat(a, 2))[::2]
    if k and r.chance(.3):
        fv = rt.FastArray(np.repeat(v, 3))[::3]
    m.note(dt=dt, dv=dv, n=n, k=k, side=side)
    m.same(plain(m.call("searchsorted", lambda: rt.searchsorted(fa, fv, side=side))).astype("i8"), e, "rt.searchsorted")
    m.same(plain(m.call("method searchsorted", lambda: fa.searchsorted(fv, side=side))).astype("i8"), e, "FastArray.searchsorted")
    if k:
        m.check(int(m.call("scalar searchsorted", lambda: rt.searchsorted(fa, v[0].item(), side=side))) == int(e[0]), "scalar searchsorted")
