"""C01: what is saved to SDS is what is loaded."""
import os, pathlib, shutil, tempfile
import numpy as np
import riptable as rt
from riptable import rt_sds
from rv.core import case, plain
from rv import gen
from rv.sdsutil import Scratch, cmp_any, cmp_array, cmp_cat

def save_opts(r):
    kw = {}
    if r.chance(0.4):
        kw["compress"] = r.chance(0.5)
    if r.chance(0.3):
        kw["complevel"] = r.pick([1, 2, 5, 12])
    return kw


def big_or_small(r):
    return r.size(big=0.03)


def path_form(r, p):
    f = r.pick(["str", "str", "pathlike", "ext", "pathext"])
    if f == "str":
        return p
    if f == "pathlike":
        return pathlib.Path(p)
    if f == "ext":
        return p + ".sds"
    return pathlib.Path(p + ".sds")


@case(n=1600)
def dataset(m, r):
    n = big_or_small(r)
    names = ["c%d" % i for i in range(r.int(1, 7))]
    if r.chance(0.2):
        names = ["Alpha", "beta gamma", "x.y", "Z9", "日", "a-b", "c/d"][: len(names)]
    if r.chance(0.15):
        names = [x + "!" if i == 0 else x for i, x in enumerate(names)]
    names = [x for x in names if "!" not in x and "/" not in x] or ["a"]
    ds = gen.dataset(r, n, names=names, inv=r.pick([0, 0.1, 0.5]))
    kw = save_opts(r)
    if r.chance(0.2):
        kw["onefile"] = True
    if r.chance(0.2) and len(names) > 1:
        ds.label_set_names(r.subset(names, 1, 2))
    m.note(n=n, cols=[(k, type(v).__name__, str(v.dtype)) for k, v in ds.items()], kw=kw)
    before = gen.snap(ds)
    with Scratch() as d:
        p = os.path.join(d, "file")
        how = r.pick(["save_sds", "method", "uncompressed"])
        pf = path_form(r, p)
        if how == "save_sds":
            m.call("save_sds", rt.save_sds, pf, ds, **kw)
        elif how == "method":
            m.call("Dataset.save", ds.save, pf, **kw)
        else:
            m.call("save_sds_uncompressed", rt_sds.save_sds_uncompressed, pf, ds)
        m.check(gen.snap_diff(before, gen.snap(ds)) is None, f"saving changed the dataset: {gen.snap_diff(before, gen.snap(ds))}")
        m.check(sorted(os.listdir(d)) == ["file.sds"], f"unexpected files {os.listdir(d)}")
        how = r.pick(["load_sds", "load_sds", "Dataset.load", "threads", "list", "Struct.load"])
        pf = path_form(r, p)
        if how == "load_sds":
            got = m.call("load_sds", rt.load_sds, pf)
        elif how == "Dataset.load":
            got = m.call("Dataset.load", rt.Dataset.load, pf)
        elif how == "Struct.load":
            got = m.call("Struct.load", rt.Struct.load, os.fspath(pf))
        elif how == "threads":
            got = m.call("load_sds(threads)", rt.load_sds, pf, threads=r.pick([1, 2, 4]))
        else:
            got = m.call("load_sds([f])", rt.load_sds, [os.fspath(pf)])[0]
        cmp_any(m, got, ds, "dataset")
        # the loaded object is independent of the file: overwrite it, and reload
        snap = gen.snap(got)
        ds2 = gen.dataset(r, r.size(big=0), k=2)
        m.call("save_sds", rt.save_sds, p, ds2)
        m.check(gen.snap_diff(snap, gen.snap(got)) is None, "overwriting the file changed a previously loaded dataset")
        cmp_any(m, m.call("load_sds", rt.load_sds, p), ds2, "overwritten file")


@case(n=700)
def single_array(m, r):
    n = big_or_small(r)
    kind = r.pick(gen.COLKINDS + ["cat", "2d", "3d"])
    if kind in ("2d", "3d"):
        shape = (r.int(1, 8), r.int(1, 8)) + ((r.int(1, 4),) if kind == "3d" else ())
        a = gen.num(r, int(np.prod(shape))).reshape(shape)
        if r.chance(0.3):
            a = np.asfortranarray(a)
        a = rt.FastArray(a)
    else:
        a = gen.column(r, n, kind)
    if kind == "num" and r.chance(0.2) and n > 4:
        a = a[::2]
    kw = save_opts(r)
    m.note(kind=kind, a=a, kw=kw)
    before = gen.snap(a)
    with Scratch() as d:
        p = os.path.join(d, "arr")
        if r.chance() :
            m.call("save_sds(array)", rt.save_sds, path_form(r, p), a, **kw)
        else:
            m.call("FastArray.save", a.save, path_form(r, p), **{k: v for k, v in kw.items() if k != "complevel"})
        got = m.call("load_sds", rt.load_sds, path_form(r, p))
        cmp_array(m, got, a, "array")
        m.check(gen.snap_diff(before, gen.snap(a)) is None, "saving changed the array")


SCALARS = [1, -5, 2.5, True, "text", b"bytes", "日本", 10**12, np.int16(3), np.float32(1.5), float("nan"), "", "a longer sentence"]


def tree(r, depth, inv=0.1, pfx=""):
    """random nested Struct"""
    st = rt.Struct()
    k = r.int(1, 5)
    for i in range(k):
        nm = pfx + r.pick(["a", "b", "c", "data", "Q"]) + str(i)
        u = r.g.random()
        if u < 0.35:
            st[nm] = gen.column(r, r.size(big=0.0), None, inv)
        elif u < 0.5:
            st[nm] = r.pick(SCALARS)
        elif u < 0.75:
            st[nm] = gen.dataset(r, r.size(big=0.0), r.int(1, 4))
        elif u < 0.8:
            st[nm] = rt.FastArray(gen.num(r, 6).reshape(2, 3))
        elif depth > 0:
            st[nm] = tree(r, depth - 1, inv)
        else:
            st[nm] = gen.column(r, r.int(1, 6), "num", inv)
    return st


@case(n=900)
def struct_tree(m, r):
    st = tree(r, r.int(0, 3))
    kw = save_opts(r)
    onefile = r.chance(0.4)
    if onefile:
        kw["onefile"] = True
    m.note(tree=[(k, type(v).__name__) for k, v in st.items()], kw=kw)
    before = gen.snap(st)
    with Scratch() as d:
        p = os.path.join(d, "tree")
        other = gen.dataset(r, 5, 2)
        m.call("save_sds", rt.save_sds, os.path.join(d, "other"), other)
        if r.chance(0.3):
            m.call("Struct.save", st.save, p, **{k: v for k, v in kw.items() if k != "complevel"})
        else:
            m.call("save_sds(struct)", rt.save_sds, p, st, **kw)
        m.check(gen.snap_diff(before, gen.snap(st)) is None, "saving changed the struct")
        got = m.call("load_sds(struct)", rt.load_sds, p) if r.chance(0.7) else m.call("Struct.load", rt.Struct.load, p)
        late = None if onefile else []
        cmp_any(m, got, st, "struct", late)
        cmp_any(m, m.call("load_sds", rt.load_sds, os.path.join(d, "other")), other, "neighbouring file")
        if late:
            m.check(False, late[0], mech="nested-containers-only-order")


@case(n=500)
def categorical_meta(m, r):
    """Categorical-specific metadata in a Dataset and alone."""
    n = r.int(1, 60)
    kind = r.pick(["str", "codes", "enum", "multi", "ordered0", "int", "float", "date"])
    c = gen.cat(r, n, 0.2, kind)
    if kind == "str":
        w = gen.words(r, n, r.pick(["S", "U"]))
        c = rt.Cat(w, ordered=r.chance(), sort_gb=r.chance(), filter=gen.bools(r, n, 0.8) if r.chance() else None)
        if r.chance(0.3):
            c.invalid_set(r.pick(gen.WORDS))
    elif kind == "codes":
        cats = np.array(["z", "y", "x", "w"])
        codes = r.g.integers(0, 5, n).astype(r.pick(["i1", "i2", "i4", "i8"]))
        c = rt.Cat(codes, cats, ordered=False, base_index=1)
    elif kind == "multi":
        cols = {"k1": gen.words(r, n, "S", card=3), "k2": gen.num(r, n, "i4", inv=0, lo=0, hi=3)}
        if r.chance():
            cols["k3"] = gen.words(r, n, "U", card=2)
        c = rt.Cat(cols)
        if r.chance(0.3):
            c = c.set_valid(gen.bools(r, n, 0.7))
    if r.chance(0.2):
        c = c[::2] if len(c) > 2 else c
    m.note(kind=kind, codes=plain(c), ordered=c.ordered)
    with Scratch() as d:
        p = os.path.join(d, "c")
        where = r.pick(["alone", "dataset", "struct", "nested"])
        if where == "alone":
            obj = c
        elif where == "dataset":
            obj = rt.Dataset({"x": rt.arange(len(c)), "kat": c, "y": rt.arange(len(c))})
        elif where == "struct":
            obj = rt.Struct({"kat": c, "s": 1})
        else:
            obj = rt.Struct({"inner": rt.Dataset({"kat": c, "v": rt.arange(len(c))}), "kat": c})
        kw = save_opts(r)
        if where in ("struct", "nested") and r.chance(0.4):
            kw["onefile"] = True
        m.call("save_sds", rt.save_sds, p, obj, **kw)
        got = m.call("load_sds", rt.load_sds, p)
        cmp_any(m, got, obj, where)
        # a reloaded Categorical is usable: its groups are those of the saved one
        g = got if where == "alone" else (got["kat"])
        vals = rt.arange(len(c))
        a, b = m.call("cat.sum", g.sum, vals), m.call("cat.sum", c.sum, vals)
        m.same(plain(list(a.values())[-1]), plain(list(b.values())[-1]), "group sums over the reloaded Categorical")


@case(n=200)
def footers_and_sort(m, r):
    n = r.int(2, 30)
    ds = gen.dataset(r, n, 3, kinds=["num", "i4", "S"])
    m.note(cols=[str(v.dtype) for v in ds.values()])
    foot = {}
    if r.chance(0.7):
        for lab in r.subset(["Total", "Mean", "Low"], 1, 2):
            vals = {k: r.int(0, 99) for k in r.subset(["c0", "c1"], 1, 2)}
            m.call("footer_set_values", ds.footer_set_values, lab, vals)
            foot[lab] = vals
    view = None
    if r.chance(0.5):
        view = r.pick(["c0", "c1", "c2"])
        m.call("sort_view", ds.sort_view, view)
    with Scratch() as d:
        p = os.path.join(d, "f")
        m.call("save_sds", rt.save_sds, p, ds)
        got = m.call("load_sds", rt.load_sds, p)
        cmp_any(m, got, ds, "dataset with footers/sort view")


@case(n=100)
def shared_memory(m, r):
    name = f"rv{os.getpid()}_{m.idx}"
    obj = gen.dataset(r, r.int(1, 50), 3)
    m.note(cols=[(k, type(v).__name__) for k, v in obj.items()])
    try:
        m.call("save_sds(share)", rt.save_sds, "obj", obj, share=name)
        got = m.call("load_sds(share)", rt.load_sds, "obj.sds" if r.chance() else "obj", share=name)
        if not isinstance(got, rt.Dataset):
            got = got["obj"] if "obj" in got else got
        cmp_any(m, got, obj, "shared dataset")
    finally:
        for f in os.listdir("/dev/shm"):
            if name in f:
                try:
                    pth = os.path.join("/dev/shm", f)
                    shutil.rmtree(pth) if os.path.isdir(pth) else os.remove(pth)
                except OSError:
                    pass


@case(n=200)
def multiset(m, r):
    n = r.int(1, 20)
    ms = rt.Multiset({f"d{i}": gen.dataset(r, n, r.int(1, 3)) for i in range(r.int(1, 3))})
    m.note(ms=[(k, list(v.keys())) for k, v in ms.items()])
    with Scratch() as d:
        p = os.path.join(d, "ms")
        m.call("save_sds(multiset)", rt.save_sds, p, ms)
        got = m.call("load_sds", rt.load_sds, p)
        m.check(list(got.keys()) == list(ms.keys()), "multiset names")
        for k in ms.keys():
            cmp_any(m, got[k], ms[k], f"multiset/{k}")


@case(n=40)
def banded(m, r):
    """Banded files (several independently compressed bands per column); compressible content only, see known_bandsize."""
    band = r.int(1, 3) * 10000
    n = band * r.int(0, 4) + r.int(2500, band - 1)
    ds = rt.Dataset({f"c{i}": rt.FastArray(gen.num(r, n, r.pick(["i4", "i8", "f8", "i2", "i1"]), inv=0.1, lo=0, hi=50, card=4)) for i in range(r.int(1, 4))})
    if r.chance():
        ds.s = rt.FastArray(gen.words(r, n, "S", card=3))
    kw = {"compress": r.chance(0.8)}
    m.note(n=n, band=band, cols=[(k, str(v.dtype)) for k, v in ds.items()], kw=kw)
    with Scratch() as d:
        p = os.path.join(d, "b")
        m.call("save_sds(bandsize)", rt.save_sds, p, ds, bandsize=band, **kw)
        cmp_any(m, m.call("load_sds", rt.load_sds, p), ds, "banded dataset")


@case(n=1, thorough=1)
def known_bandsize(m, r):
    """Known finding: an incompressible band whose compressed size equals its raw size is read back raw."""
    bad = []
    g = np.random.default_rng(0)
    with Scratch() as d:
        p = os.path.join(d, "b")
        for _ in range(300):
            k, n = int(g.integers(1, 7)), int(g.integers(1, 60))
            ds = rt.Dataset({f"c{j}": g.integers(0, 40000, n).astype(str(g.choice(["i4", "i1", "f8"]))) for j in range(k)})
            m.call("save_sds(bandsize)", rt.save_sds, p, ds, bandsize=20000)
            got = m.call("load_sds", rt.load_sds, p)
            for c in ds:
                if plain(got[c]).tobytes() != plain(ds[c]).tobytes():
                    bad.append((n, str(ds[c].dtype)))
    m.note(bad=bad)
    m.check(not bad, f"banded save of small incompressible columns loads back different bytes: {bad[:4]}", mech="bandsize-incompressible")
