"""C02: partial, stacked and sectioned SDS loads equal the same view of the full data."""
import os
import numpy as np
import riptable as rt
from riptable.rt_sds import sds_concat, sds_dir
from rv.core import case, plain
from rv import gen
from rv.sdsutil import Scratch, cmp_any, cmp_array


def full(r, n, k=None, inv=0.1):
    return gen.dataset(r, n, k or r.int(1, 6), inv=inv)


def take(ds, names, rows):
    """Expected values: (name -> decoded plain values of those rows)"""
    return {k: gen.decode(ds[k])[rows] for k in ds.keys() if k in names}


def check_view(m, got, ds, names, rows, what):
    exp = take(ds, names, rows)
    m.check(list(got.keys()) == list(exp.keys()), f"{what}: columns {list(got.keys())} != {list(exp.keys())}")
    for k, v in exp.items():
        m.check(gen.kind_of(got[k]) == gen.kind_of(ds[k]), f"{what}/{k}: kind {gen.kind_of(got[k])} != {gen.kind_of(ds[k])}")
        m.same(gen.decode(got[k]), v, f"{what}/{k}")
    if exp:
        m.check(got.shape == (len(rows), len(exp)), f"{what}: shape {got.shape}")


@case(n=900)
def include_and_filter(m, r):
    n = r.size(big=0.02)
    ds = full(r, n)
    allnames = list(ds.keys())
    names, rows, kw = list(allnames), np.arange(n), {}
    opts = r.pick(["include", "filter", "both", "both"])
    if opts != "filter":
        names = r.subset(allnames, 1)
        kw["include"] = r.perm(names)
        if r.chance(0.1):
            kw["include"] = kw["include"] + ["not_there"]
    if opts != "include" and n > 0:
        f = r.pick(["mask", "mask", "idx", "head", "rtmask", "window"])
        if f in ("mask", "rtmask"):
            mk = gen.bools(r, n)
            rows = np.flatnonzero(mk)
            kw["filter"] = mk if f == "mask" else rt.FastArray(mk)
        elif f == "head":
            rows = np.arange(r.int(1, n))
            kw["filter"] = rt.arange(len(rows)) if r.chance() else rows
        elif f == "window":
            a = r.int(0, n - 1)
            rows = np.arange(a, r.int(a + 1, n))
            kw["filter"] = rows
        else:
            rows = np.flatnonzero(gen.bools(r, n, r.pick([0.1, 0.5, 0.9])))
            if len(rows) == 0:
                rows = np.array([n - 1])
            idx = np.array(r.perm(rows.tolist())) if r.chance() else rows  # an index filter selects rows, in file order
            kw["filter"] = idx.astype(r.pick(["i4", "i8"]))
    if r.chance(0.2):
        kw["threads"] = r.pick([1, 3, 8])
    comp = r.chance(0.7)
    m.note(n=n, cols=[(k, type(v).__name__) for k, v in ds.items()], kw=kw, rows=rows)
    with Scratch() as d:
        p = os.path.join(d, "f")
        m.call("save_sds", rt.save_sds, p, ds, compress=comp)
        got = m.call("load_sds(" + ",".join(sorted(kw)) + ")", rt.load_sds, p, **kw)
        check_view(m, got, ds, names, rows, "partial load")
        m.check(sds_dir(p) == allnames, f"sds_dir {sds_dir(p)} != {allnames}")


KNDS = ["i4", "i8", "f8", "S", "cat", "dtn", "date", "span", "bool", "i2", "f4", "U"]


def stackable(r, nfiles):
    """Column plan: each column has a family; each file may hold a different but stackable variant, or lack it."""
    plan = {}
    for i in range(r.int(1, 6)):
        fam = r.pick(["num", "num", "S", "U", "cat", "date", "dtn", "span", "bool", "catcodes", "bigcat"])
        plan[f"c{i}"] = fam
    return plan


def col_variant(r, fam, n, fixed):
    if fam == "num":
        dt = fixed if fixed and r.chance(0.6) else r.pick(["i1", "i2", "i4", "i8", "f4", "f8"])
        return rt.FastArray(gen.num(r, n, dt, inv=0.1, lo=-100, hi=100))
    if fam == "bigcat":  # the united category list needs wider codes than each file's
        pool = [f"q{r.pick([1, 2, 3])}_{i}" for i in range(r.pick([60, 120, 300]))]
        return rt.Cat(np.array([r.pick(pool) for _ in range(n)] or pool[:1]))[:n]
    if fam == "S":
        return rt.FastArray(gen.words(r, n, "S"))
    if fam == "U":
        return rt.FastArray(gen.words(r, n, "U"), unicode=True)
    if fam == "cat":
        if n == 0:
            return rt.Cat(np.array(["zz"]))[:0]
        filt = gen.bools(r, n, 0.9) if r.chance(0.3) else None
        if filt is not None:
            filt[r.int(0, n - 1)] = True  # never an empty category list (finding empty-category-list-stacked)
        return rt.Cat(gen.words(r, n, "S"), filter=filt)
    if fam == "catcodes":
        k = r.int(1, 5)
        return rt.Cat(r.g.integers(0, k + 1, n).astype("i4"), np.array(r.perm(["red", "green", "blue", "cyan", "pink", "grey"])[:k]), base_index=1)
    if fam == "date":
        return rt.Date(gen.dates(r, n))
    if fam == "dtn":
        return rt.DateTimeNano(gen.nanos(r, n), from_tz="GMT", to_tz="NYC")
    if fam == "span":
        return rt.TimeSpan(gen.spans(r, n))
    return rt.FastArray(gen.bools(r, n))


MISSING = {"S": b"", "U": "", "cat": None, "catcodes": None, "bool": False}


def expected_stack(files, plan, names=None):
    """name -> list of decoded values over the files; absent column -> missing. Numeric results compared as float with NaN."""
    out = {}
    for nm, fam in plan.items():
        if names is not None and nm not in names:
            continue
        if not any(nm in f.keys() for f in files):
            continue
        vals = []
        for f in files:
            n = f.shape[0]
            if nm in f.keys():
                col = f[nm]
                if fam == "num":
                    a = plain(col).astype("f8")
                    a[gen.is_inv(col)] = np.nan
                    vals += a.tolist()
                elif fam in ("date", "dtn", "span"):
                    vals += plain(col).tolist()
                else:
                    vals += [gen.txt(v) for v in gen.decode(col).tolist()]
            else:
                vals += [{"num": np.nan, "S": "", "U": "", "bool": False, "date": "inv", "dtn": "inv", "span": np.nan}.get(fam)] * n
        out[nm] = vals
    return out


def check_stack(m, got, exp, plan, what, total):
    m.check(sorted(got.keys()) == sorted(exp.keys()), f"{what}: columns {sorted(got.keys())} != {sorted(exp.keys())}")
    for nm, vals in exp.items():
        fam, col = plan[nm], got[nm]
        m.check(len(col) == total, f"{what}/{nm}: {len(col)} rows, expected {total}")
        if fam == "num":
            a = plain(col).astype("f8")
            a[gen.is_inv(col)] = np.nan
            m.close(a, np.array(vals, dtype="f8"), f"{what}/{nm}", rtol=1e-6)
        elif fam in ("date", "dtn", "span"):
            cls = {"date": rt.Date, "dtn": rt.DateTimeNano, "span": rt.TimeSpan}[fam]
            m.check(isinstance(col, cls), f"{what}/{nm}: class {type(col).__name__}")
            g = plain(col).tolist()
            miss = plain(col.isnan()).tolist() if len(col) else []
            for i, (x, y) in enumerate(zip(g, vals)):
                ok = (x == y) or (x != x and y != y) or (y == "inv" and miss[i])
                m.check(ok, f"{what}/{nm}: row {i}: {x} != {y}")
        else:
            if fam.startswith("cat"):
                m.check(isinstance(col, rt.Categorical), f"{what}/{nm}: class {type(col).__name__}")
                cats = [gen.txt(x) for x in plain(col.category_array).tolist()]
                m.check(len(set(cats)) == len(cats), f"{what}/{nm}: duplicate categories {cats}")
            g = [gen.txt(v) for v in gen.decode(col).tolist()]
            m.same(np.array(g + [None], dtype=object), np.array(vals + [None], dtype=object), f"{what}/{nm}")


@case(n=700)
def stack_files(m, r):
    nf = r.int(1, 5)
    plan = stackable(r, nf)
    fixed = r.pick(["i4", "f8", "i8"])
    lack = r.pick([0, 0, 0.25])
    files = []
    for i in range(nf):
        n = r.pick([0, 1, 2, 5, 30, r.int(3, 200)])
        cols = {nm: col_variant(r, fam, n, fixed) for nm, fam in plan.items() if not (r.chance(lack) and fam != "bool")}
        if not cols:
            nm = next(iter(plan))
            cols = {nm: col_variant(r, plan[nm], n, fixed)}
        if r.chance(0.15):
            cols = dict(r.perm(list(cols.items())))
        files.append(rt.Dataset(cols))
    m.note(plan=plan, sizes=[f.shape[0] for f in files], cols=[list(f.keys()) for f in files])
    with Scratch() as d:
        paths = []
        for i, f in enumerate(files):
            p = os.path.join(d, f"f{i}")
            m.call("save_sds", rt.save_sds, p, f, compress=r.chance(0.8))
            paths.append(p + (".sds" if r.chance() else ""))
        mode = r.pick(["stack", "stack", "include", "concat", "dup", "missing"])
        kw, sel, flist = {}, None, files
        if r.chance(0.3):
            kw["threads"] = r.pick([1, 2, 5])
        names = sorted({k for f in files for k in f.keys()})
        if mode == "include":
            sel = r.subset(names, 1)
            kw["include"] = sel
            flist = [f for f in files if any(k in f.keys() for k in sel)]   # files without any requested column contribute nothing
        if mode == "dup":
            ix = [r.int(0, nf - 1) for _ in range(r.int(1, 4))]
            paths, flist = [paths[i] for i in ix], [files[i] for i in ix]
        if mode == "missing":
            j = r.int(0, len(paths))
            bad = paths[:j] + [os.path.join(d, "absent")] + paths[j:]
            m.raises("load_sds(mustexist)", rt.load_sds, bad, stack=True, mustexist=True)
            paths = bad
        if mode == "concat":
            full_paths = [q if q.endswith(".sds") else q + ".sds" for q in paths]
            m.call("sds_concat", sds_concat, full_paths, os.path.join(d, "out.sds"))
            got = m.call("load_sds(concat)", rt.load_sds, os.path.join(d, "out"), stack=True)
        else:
            got = m.call("load_sds(stack)", rt.load_sds, paths, stack=True, **kw)
        total = sum(f.shape[0] for f in flist)
        check_stack(m, got, expected_stack(flist, plan, sel), plan, f"stacked[{mode}]", total)
        if isinstance(got, rt.PDataset) and mode in ("stack", "dup"):
            cuts = plain(got.pcutoffs).tolist()
            m.check(cuts == np.cumsum([f.shape[0] for f in flist]).tolist(), f"partition cutoffs {cuts} for sizes {[f.shape[0] for f in flist]}")
            i = r.int(0, len(flist) - 1)
            part = m.call("PDataset.partition", got.partition, i)
            pf = flist[i]
            for nm in pf.keys():
                if plan[nm] not in ("num",):
                    m.same([gen.txt(v) for v in gen.decode(part[nm]).tolist()], [gen.txt(v) for v in gen.decode(pf[nm]).tolist()], f"partition {i}/{nm}")


@case(n=250)
def sections(m, r):
    """append= sections stack in append order."""
    plan = stackable(r, 3)
    k = r.int(1, 4)
    fixed = r.pick(["i4", "f8"])
    parts = [rt.Dataset({nm: col_variant(r, fam, n, fixed) for nm, fam in plan.items()}) for n in [r.pick([1, 2, 7, r.int(1, 100)]) for _ in range(k)]]
    m.note(plan=plan, sizes=[f.shape[0] for f in parts])
    with Scratch() as d:
        p = os.path.join(d, "s")
        for i, f in enumerate(parts):
            m.call("save_sds(append)", rt.save_sds, p, f, append=f"sec{i}")
            got = m.call("load_sds(stack)", rt.load_sds, p, stack=True)
            check_stack(m, got, expected_stack(parts[: i + 1], plan), plan, f"after {i + 1} appends", sum(x.shape[0] for x in parts[: i + 1]))


@case(n=250)
def nested_items(m, r):
    """Struct saves: name=, include=, folders=, and reading one file of the folder, agree with the full tree."""
    def ds():
        return full(r, r.int(0, 30), r.int(1, 3))
    st = rt.Struct({"m": ds(), "arr": gen.column(r, r.int(1, 20)), "n": rt.Struct({"p": ds(), "z": gen.column(r, 5), "q": rt.Struct({"leaf": ds(), "v": rt.arange(3)})}), "last": ds()})
    m.note(tree=[(k, type(v).__name__) for k, v in st.items()])
    with Scratch() as d:
        p = os.path.join(d, "tree")
        onefile = r.chance()
        m.call("save_sds(struct)", rt.save_sds, p, st, onefile=onefile)
        leaf = r.pick([("m", st.m), ("n/p", st.n.p), ("n/q/leaf", st.n.q.leaf), ("last", st.last)])
        if onefile:
            got = m.call("load_sds(folders)", rt.load_sds, p, folders=[leaf[0] + "/"])
            check_view(m, got, leaf[1], list(leaf[1].keys()), np.arange(leaf[1].shape[0]), f"folder {leaf[0]}")
            exp = []

            def walk(s, pre):
                for k, v in s.items():
                    walk(v, pre + k + "/") if isinstance(v, rt.Struct) else exp.append(pre + k)
            walk(st, "")
            m.check(sds_dir(p) == exp, f"sds_dir {sds_dir(p)} != {exp}")
        else:
            got = m.call("load_sds(name)", rt.load_sds, p, name=leaf[0])
            cmp_any(m, got, leaf[1], f"item {leaf[0]}")
            f = os.path.join(p, leaf[0].replace("/", "!") + ".sds")
            cmp_any(m, m.call("load_sds(file)", rt.load_sds, f), leaf[1], f"file of {leaf[0]}")
            m.check(sds_dir(p) == list(st.keys()), f"sds_dir {sds_dir(p)}")
            sel = r.subset(["m", "arr", "last"], 1)
            got = m.call("load_sds(include)", rt.load_sds, p, include=sel)
            for k in sel:
                cmp_any(m, got[k], st[k], f"included {k}")
            if r.chance():
                new = ds()
                m.call("save_sds(name)", rt.save_sds, p, new, name="m")
                back = m.call("load_sds", rt.load_sds, p)
                cmp_any(m, back.m, new, "replaced item")
                cmp_any(m, back.n, st.n, "sibling of the replaced item", late=[])
                cmp_any(m, back.last, st.last, "sibling of the replaced item")


@case(n=150)
def stack_onefile_and_dirs(m, r):
    plan = {"a": "num", "b": r.pick(["S", "cat", "date"])}
    k = r.int(1, 4)
    parts = [rt.Dataset({nm: col_variant(r, fam, n, "i4") for nm, fam in plan.items()}) for n in [r.int(1, 20) for _ in range(k)]]
    arrs = [rt.FastArray(gen.num(r, r.int(1, 9), "i4", inv=0)) for _ in range(k)]
    m.note(plan=plan, sizes=[f.shape[0] for f in parts])
    with Scratch() as d:
        paths = []
        onefile = r.chance()
        for i in range(k):
            p = os.path.join(d, f"t{i}")
            m.call("save_sds", rt.save_sds, p, rt.Struct({"ds": parts[i], "arr": arrs[i]}) if onefile else rt.Struct({"ds": parts[i], "d2": parts[i]}), onefile=onefile)
            paths.append(p)
        total = sum(x.shape[0] for x in parts)
        if onefile:
            got = m.call("load_sds(stack onefile)", rt.load_sds, paths, stack=True)
            m.same(plain(got["arr"]), np.concatenate([plain(x) for x in arrs]), "stacked plain array")
            check_stack(m, got["ds"], expected_stack(parts, plan), plan, "stacked nested dataset", total)
        else:
            got = m.call("load_sds(stack dirs)", rt.load_sds, paths, include=["ds", "d2"], stack=True)
            for nm in ("ds", "d2"):
                check_stack(m, got[nm], expected_stack(parts, plan), plan, "stacked directory item", total)


@case(n=150)
def stack_onefile_varied(m, r):
    """Nested files stacked when some lack a nested Dataset, a column or a top-level item: the rest keeps values and classes."""
    plan = {"a": "num", "b": r.pick(["S", "cat", "date"]), "d": r.pick(["date", "span", "dtn", "cat"])}
    top = {"u": "num", "v": r.pick(["date", "span", "dtn"]), "w": r.pick(["cat", "S"])}
    k = r.int(2, 5)
    files = []
    for i in range(k):
        s = {}
        for nm, fam in top.items():
            if r.chance(0.7):
                s[nm] = col_variant(r, fam, r.int(1, 9), "i4")
        if r.chance(0.7):
            n = r.int(1, 12)
            s["ds"] = rt.Dataset({nm: col_variant(r, fam, n, "i4") for nm, fam in plan.items()})
        s["o"] = rt.Dataset({"q": col_variant(r, "num", r.int(1, 5), "i4")})
        if r.chance(.6):
            s["sub"] = rt.Struct({nm: col_variant(r, fam, r.int(1, 6), "i4") for nm, fam in top.items() if r.chance(.7)} or {"u": col_variant(r, "num", 2, "i4")})
            if r.chance(.4):
                s["sub"]["deep"] = rt.Dataset({"q": col_variant(r, "num", r.int(1, 5), "i4")})
        files.append(rt.Struct(dict(r.perm(list(s.items()))) if r.chance(.3) else s))
    m.note(plan=plan, top=top, items=[list(f.keys()) for f in files])
    with Scratch() as d:
        paths = []
        for i, f in enumerate(files):
            paths.append(os.path.join(d, f"t{i}.sds"))
            m.call("save_sds", rt.save_sds, paths[-1], f, onefile=True)
        got = m.call("load_sds(stack onefile)", rt.load_sds, paths, stack=True)
        m.check(isinstance(got, rt.Struct), f"stacked nested files: a {type(got).__name__}")
        m.check(set(got.keys()) == {x for f in files for x in f.keys()}, "stacked nested files: items", got=list(got.keys()))
        pairs = [(nm, got[nm], [f[nm] for f in files if nm in f.keys()]) for nm in got.keys()]
        if "sub" in got:
            have = pairs[got.keys().index("sub")][2]
            m.check(isinstance(got["sub"], rt.Struct), f"stacked nested Struct: a {type(got["sub"]).__name__}")
            m.check(set(got["sub"].keys()) == {x for f in have for x in f.keys()}, "stacked nested Struct: items", got=list(got["sub"].keys()))
            pairs += [(nm, got["sub"][nm], [f[nm] for f in have if nm in f.keys()]) for nm in got["sub"].keys()]
        for nm, g, have in pairs:
            if nm == "sub":
                continue
            if nm in top:
                one = [rt.Dataset({nm: x}) for x in have]
                exp = expected_stack(one, {nm: top[nm]})
                check_stack(m, {nm: g}, exp, top, "stacked top-level item", sum(len(x) for x in have))
            else:
                pl = plan if nm == "ds" else {"q": "num"}
                check_stack(m, g, expected_stack(have, pl), pl, f"stacked nested {nm}", sum(x.shape[0] for x in have))


@case(n=60)
def stack_cat_flags(m, r):
    """Stacked Categoricals keep their ordering and display flags."""
    o, srt = r.chance(), r.chance()
    k = r.int(1, 3)
    cs = [rt.Cat(np.array([r.pick(["d", "c", "b", "a", "e"]) for _ in range(r.int(1, 9))]), ordered=o, sort_gb=srt) for _ in range(k)]
    m.note(ordered=o, sort_gb=srt, cats=[gen.decode(c).tolist() for c in cs])
    with Scratch() as d:
        ps = []
        for i, c in enumerate(cs):
            ps.append(os.path.join(d, f"{i}.sds"))
            m.call("save_sds", rt.save_sds, ps[-1], rt.Dataset({"c": c}))
        g = m.call("load_sds(stack)", rt.load_sds, ps, stack=True)["c"]
        vals = [gen.txt(x) for c in cs for x in gen.decode(c).tolist()]
        m.check([gen.txt(x) for x in gen.decode(g).tolist()] == vals, "stacked values", got=g)
        first = list(dict.fromkeys(vals))
        t = m.call("Cat.count", g.count)
        keys = [gen.txt(x) for x in plain(t[t.label_get_names()[0]]).tolist()]
        exp = sorted(first) if o or srt else first
        m.check(keys == exp, f"order of the groups of the stacked Categorical (ordered={o}, sort_gb={srt})", got=keys, expected=exp)
        m.check([vals.count(x) for x in keys] == plain(t["Count"]).tolist(), "counts of the stacked Categorical")


@case(n=120)
def list_of_files(m, r):
    """A list without stack loads each file separately, in list order."""
    k = r.int(1, 4)
    objs = [full(r, r.int(0, 30)) for _ in range(k)]
    m.note(k=k)
    with Scratch() as d:
        ps = []
        for i, o in enumerate(objs):
            ps.append(os.path.join(d, f"o{i}.sds"))
            m.call("save_sds", rt.save_sds, ps[-1], o)
        order = r.perm(range(k))
        got = m.call("load_sds(list)", rt.load_sds, [ps[i] for i in order])
        m.check(len(got) == k, "number of results")
        for g, i in zip(got, order):
            cmp_any(m, g, objs[i], f"file {i} of list")


@case(n=1, thorough=1)
def known_sections_selector(m, r):
    a, b = rt.Dataset({"x": rt.arange(3)}), rt.Dataset({"x": rt.arange(3) + 10})
    with Scratch() as d:
        p = os.path.join(d, "s")
        m.call("save_sds(append)", rt.save_sds, p, a, append="one")
        m.call("save_sds(append)", rt.save_sds, p, b, append="two")
        got = m.call("load_sds(sections)", rt.load_sds, p, stack=True, sections=["two"])
        m.check(plain(got.x).tolist() == [10, 11, 12], f"sections=['two'] returned {plain(got.x).tolist()}", mech="sections-selector-ignored")


@case(n=2, thorough=2)
def known_empty_category_list(m, r):
    a, b = rt.Dataset({"c": rt.Cat(rt.FastArray(["", ""]), filter=[False, False])}), rt.Dataset({"c": rt.Cat(["x", "y", "y"])})
    with Scratch() as d:
        p, q = os.path.join(d, "a"), os.path.join(d, "b")
        m.call("save_sds", rt.save_sds, p, a)
        m.call("save_sds", rt.save_sds, q, b)
        got = m.call("load_sds(stack)", rt.load_sds, [p, q], stack=True)
        m.check(gen.decode(got.c).tolist()[2:] == ["x", "y", "y"], f"stacked rows {gen.decode(got.c).tolist()}")
        cats = [gen.txt(x) for x in plain(got.c.category_array).tolist()]
        m.check(cats == ["x", "y"], f"stacked categories {len(cats)} of {{x, y}}", mech="empty-category-list-stacked")
