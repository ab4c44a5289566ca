"""C26: conversions to and from NumPy, pandas, Arrow, records, rows and CSV lose nothing."""
import csv
import os
import shutil
import tempfile
import warnings
import numpy as np
import pandas as pd
import pyarrow as pa
import riptable as rt
from rv.core import case, plain
from rv import gen

warnings.simplefilter("ignore")
IMIN = np.iinfo("i8").min
TZN = {"NYC": "America/New_York", "DUBLIN": "Europe/Dublin", "GMT": "GMT", "UTC": "UTC"}


def stride(r, a):
    """the same values, sometimes as a slice with a step"""
    n = len(a)
    if n and r.chance(.15):
        b = rt.hstack([a, a]) if not isinstance(a, rt.Categorical) else a
        if not isinstance(a, rt.Categorical):
            b = b[:n]
            w = b[::-1].copy()[::-1] if not isinstance(b, rt.DateSpan) else b
            return w
    return a


def values(a, empty_missing=True):
    """python values a riptable array denotes, None when missing (floats keep NaN)"""
    if isinstance(a, rt.Categorical):
        return list(gen.cat_labels(a))
    p = plain(a)
    if isinstance(a, rt.DateTimeNano):
        return [None if v in (0, IMIN) else v for v in p.tolist()]
    if isinstance(a, rt.TimeSpan):
        return [None if v != v else int(v) for v in p.tolist()]
    if isinstance(a, (rt.Date, rt.DateSpan)):
        bad = (0, np.iinfo("i4").min) if isinstance(a, rt.Date) else (np.iinfo("i4").min,)
        return [None if v in bad else v for v in p.tolist()]
    if p.dtype.kind in "iu":
        return [None if b else v for v, b in zip(p.tolist(), gen.is_inv(p).tolist())]
    if p.dtype.kind in "SU":
        return [None if empty_missing and gen.txt(v) == "" else gen.txt(v) for v in p.tolist()]
    return p.tolist()


def eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and isinstance(b, (float, int)) and a != a:
        return b != b
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def listeq(m, got, want, what, mech=None, **ctx):
    m.sig.append((what, repr(want)[:300]))
    m.check(len(got) == len(want), what + "-length", mech=mech, **dict(ctx, got=len(got), want=len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        if not eq(g, w):
            m.check(False, what, mech=mech, **dict(ctx, row=i, got_value=repr(g), want=repr(w)))
    m.check(True, what)


def from_pa(x):
    """python values of an Arrow array, in the units of values()"""
    if isinstance(x, pa.ChunkedArray):
        out = []
        for c in x.chunks:
            out += from_pa(c)
        return out
    t = x.type
    if pa.types.is_timestamp(t) or pa.types.is_duration(t):
        mult = {"s": 10**9, "ms": 10**6, "us": 10**3, "ns": 1}[t.unit]
        return [None if v is None else v * mult for v in x.cast(pa.int64()).to_pylist()]
    if pa.types.is_date32(t):
        return x.cast(pa.int32()).to_pylist()
    if pa.types.is_date64(t):
        return [None if v is None else v // 86400000 for v in x.cast(pa.int64()).to_pylist()]
    if pa.types.is_dictionary(t):
        d = x.dictionary
        vals = [tuple(from_pa(f)[i] for f in d.flatten()) for i in range(len(d))] if pa.types.is_struct(d.type) else from_pa(d)
        return [None if v is None else vals[v] for v in x.indices.to_pylist()]
    return [gen.txt(v).rstrip("\0") if isinstance(v, bytes) else v for v in x.to_pylist()]


ARROW_KINDS = ["num", "num", "num", "bool", "S", "U", "date", "dtn", "span", "cat", "cat"]


def arrow_column(r, n):
    k = r.pick(ARROW_KINDS)
    if k == "cat":
        return k, gen.cat(r, n, kind=r.pick(["str", "str", "int", "codes", "float", "ordered0", "enum"]))
    if k == "dtn" and r.chance(.5):
        tz = r.pick(["NYC", "DUBLIN", "GMT"])
        base = gen.nanos(r, n, 0)
        return k, rt.DateTimeNano(base, from_tz=tz, to_tz=tz)
    return k, stride(r, gen.column(r, n, k))


def enum_pairs(c):
    return {int(k): gen.txt(v) for k, v in c.category_mapping.items()}


@case(n=260, thorough=3000)
def arrow_roundtrip(m, r):
    n = r.int(0, 60)
    k, a = arrow_column(r, n)
    kw = {}
    if k in "SU" and r.chance(.4):
        kw["empty_strings_to_null"] = r.chance()
    if k == "S" and r.chance(.4):
        kw["preserve_fixed_bytes"] = True
    before = gen.snap(a)
    p = m.call("to_arrow", a.to_arrow, **kw)
    ctx = dict(a=a, kw=kw, cls=type(a).__name__)
    want = values(a, kw.get("empty_strings_to_null", True))
    isenum = isinstance(a, rt.Categorical) and a.isenum
    got = from_pa(p)
    if isenum:
        got = [None if g is None else g[0] for g in got]
    listeq(m, got, want, "to-arrow-values", **ctx)
    if k == "dtn":
        m.check(p.type.tz is not None, "to-arrow-zone", **ctx)
    if r.chance(.3) and n > 1:
        cut = r.int(0, n)
        p = p.slice(cut)
        want = want[cut:]
        a2 = a[cut:]
        if r.chance() and len(p):
            j = r.int(0, len(p))
            p = pa.chunked_array([p.slice(0, j), p.slice(j)])
        ctx["sliced"] = cut
    else:
        a2 = a
    b = m.call("from_arrow", rt.FastArray.from_arrow, p, zero_copy_only=False, writable=r.chance())
    if isenum and isinstance(p, pa.ChunkedArray):
        return
    listeq(m, values(b, kw.get("empty_strings_to_null", True)), want, "arrow-roundtrip-values", **ctx)
    m.check(type(b) is type(a), "arrow-roundtrip-class", **dict(ctx, got_class=type(b).__name__))
    if k == "dtn":
        m.check(b._timezone._to_tz == a._timezone._to_tz, "arrow-roundtrip-zone", **dict(ctx, got_zone=b._timezone._to_tz, want=a._timezone._to_tz))
    if k in ("num", "bool"):
        m.check(plain(b).dtype == plain(a).dtype, "arrow-roundtrip-dtype", **dict(ctx, got_dtype=plain(b).dtype))
    m.check(gen.snap_diff(before, gen.snap(a)) is None, "to-arrow-keeps-input", **ctx)
    m.note(kind=k, n=n)


def pa_source(r, n):
    """an Arrow array not made by riptable: (array, kind)"""
    nulls = lambda v: [None if r.chance(pn) else x for x in v]
    pn = r.pick([0, 0, .2, 1.])
    k = r.pick(["int", "int", "float", "bool", "str", "large", "fixed", "date32", "date64", "ts", "dur", "dict", "dict"])
    if k == "int":
        t = r.pick(["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"])
        ii = np.iinfo(t)
        v = [int(x) for x in r.g.integers(-50 if t[0] == "i" else 0, 50, n)]
        if r.chance(.4):
            v = [r.pick([ii.min, ii.max, ii.max - 1, ii.min + 1, 0, 5]) for _ in range(n)]
        return pa.array(nulls(v), type=getattr(pa, t)()), k
    if k == "float":
        return pa.array(nulls([float(x) for x in r.g.normal(0, 5, n)]), type=r.pick([pa.float32(), pa.float64()])), k
    if k == "bool":
        pn = 0
        return pa.array([bool(x) for x in r.g.random(n) < .5], type=pa.bool_()), k
    if k in ("str", "large"):
        pool = r.pick([["a", "bb", "", "x y"], ["é", "日本", "a", ""]])
        return pa.array(nulls([r.pick(pool) for _ in range(n)]), type=pa.string() if k == "str" else pa.large_string()), k
    if k == "fixed":
        return pa.array(nulls([r.pick([b"abc", b"xyz", b"q\0\0"]) for _ in range(n)]), type=pa.binary(3)), k
    if k in ("date32", "date64"):
        v = nulls([int(x) for x in r.g.integers(1, 30000, n)])
        a = pa.array(v, type=pa.int32()).cast(pa.date32())
        return (a if k == "date32" else a.cast(pa.date64())), k
    if k == "ts":
        u = r.pick(["s", "ms", "us", "ns"])
        v = nulls([int(x) * {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}[u] for x in r.g.integers(1, 2**31 - 1, n)])
        return pa.array(v, type=pa.int64()).cast(pa.timestamp(u, tz=r.pick(["UTC", "America/New_York", "Europe/Dublin"]))), k
    if k == "dur":
        u = r.pick(["s", "ms", "us", "ns"])
        v = nulls([int(x) for x in r.g.integers(-10**6, 10**6, n)])
        return pa.array(v, type=pa.int64()).cast(pa.duration(u)), k
    cats = r.pick([["x", "y", "zz"], [10, 20, 30], [1.5, 2.5], ["only"]])
    if r.chance(.1):
        cats = ["k%d" % i for i in range(r.pick([126, 127, 128, 129]))]
    it = r.pick([pa.int8(), pa.int32(), pa.int64()] + ([pa.uint8(), pa.uint16()] if True else []))
    if len(cats) > 128 and it == pa.int8():
        it = pa.int32()
    v = nulls([r.int(max(0, len(cats) - 4), len(cats) - 1) for _ in range(n)])
    return pa.DictionaryArray.from_arrays(pa.array(v, type=it), pa.array(cats), ordered=r.chance(.2)), k


@case(n=320, thorough=4000)
def arrow_source(m, r):
    n = r.int(0, 40)
    p, k = pa_source(r, n)
    if n > 1 and r.chance(.35):
        p = p.slice(r.int(0, n - 1))
    if len(p) > 1 and r.chance(.25) and k != "dict":
        j = r.int(1, len(p) - 1)
        p = pa.chunked_array([p.slice(0, j), p.slice(j)])
    want = from_pa(p)
    ctx = dict(values=want, type=str(p.type))
    kw = dict(zero_copy_only=False, writable=r.chance(.3))
    if k == "int":
        t = np.dtype(str(p.type))
        sent = int(gen.invalid(t))
        if sent in want:
            if t.itemsize == 8:
                m.raises("from_arrow", rt.FastArray.from_arrow, p, **kw)
                return
            m.raises("from_arrow", rt.FastArray.from_arrow, p, **kw)
            kw["auto_widen"] = True
    if r.chance(.3) and k != "dict":
        # zero copy is either refused or right
        z, err = m.attempt("from_arrow", rt.FastArray.from_arrow, p)
        if err is None:
            w = [float("nan") if v is None else v for v in want] if k == "float" else want
            listeq(m, values(z, False), w, "from-arrow-zero-copy", **ctx)
    a = m.call("from_arrow", rt.FastArray.from_arrow, p, **kw)
    if k == "float":
        want = [float("nan") if v is None else v for v in want]
    if k in ("str", "large", "fixed"):
        want = [None if v == "" else v for v in want]
    listeq(m, values(a), want, "from-arrow-values", **ctx)
    cls = {"date32": rt.Date, "date64": rt.Date, "ts": rt.DateTimeNano, "dur": rt.TimeSpan, "dict": rt.Categorical}.get(k, rt.FastArray)
    m.check(type(a) is cls, "from-arrow-class", **dict(ctx, cls=type(a).__name__))
    if k == "ts":
        m.check(rt.TimeZone.normalize_tz_to_tzdb_name(a._timezone._to_tz) == rt.TimeZone.normalize_tz_to_tzdb_name(p.type.tz),
                "from-arrow-zone", **dict(ctx, zone=a._timezone._to_tz))
    m.note(kind=k, n=n)


@case(n=80, thorough=800)
def arrow_table(m, r):
    n = r.int(0, 40)
    cols = {nm: arrow_column(r, n)[1] for nm in r.perm(["zz", "a", "b2", "C", "dd"])[:r.int(1, 5)]}
    if any(isinstance(c, rt.Categorical) and c.isenum for c in cols.values()):
        return
    ds = rt.Dataset(cols)
    t = m.call("ds.to_arrow", ds.to_arrow)
    m.check(t.column_names == list(cols) and t.num_rows == n, "table-shape", names=t.column_names, rows=t.num_rows)
    for k, c in cols.items():
        listeq(m, from_pa(t[k]), values(c), "table-column", col=k, a=c)
    back = m.call("ds.from_arrow", rt.Dataset.from_arrow, t, zero_copy_only=False)
    m.check(list(back.keys()) == list(cols), "table-back-names", names=list(back.keys()))
    for k, c in cols.items():
        listeq(m, values(back[k]), values(c), "table-back-column", col=k, a=c)
        m.check(type(back[k]) is type(ds[k]), "table-back-class", col=k, got_class=type(back[k]).__name__)


# ---------------------------------------------------------------------------------------- pandas

def pandas_values(s):
    """python values of a pandas Series in the units of values()"""
    t = s.dtype
    if isinstance(t, pd.CategoricalDtype):
        cats = [gen.txt(c) for c in s.cat.categories.tolist()]
        return [None if c < 0 else cats[c] for c in s.cat.codes.tolist()]
    if t.kind == "M":
        s2 = s.dt.tz_convert("UTC").dt.tz_localize(None) if getattr(t, "tz", None) is not None else s
        return [None if v == IMIN else v for v in s2.to_numpy().astype("datetime64[ns]").astype("i8").tolist()]
    if t.kind == "m":
        return [None if v == IMIN else v for v in s.to_numpy().astype("timedelta64[ns]").astype("i8").tolist()]
    if pd.api.types.is_extension_array_dtype(t):
        return [None if v is pd.NA else v for v in s.tolist()]
    return [gen.txt(v) for v in s.tolist()]


def pandas_column(r, n):
    k = r.pick(["num", "num", "num", "bool", "S", "U", "dtn", "span", "cat", "cat"])
    if k == "cat":
        return k, gen.cat(r, n, kind=r.pick(["str", "str", "int", "codes", "float", "ordered0", "enum", "multi"]))
    return k, stride(r, gen.column(r, n, k))


@case(n=220, thorough=3000)
def pandas_roundtrip(m, r):
    n = r.int(0, 60)
    kinds, cols = {}, {}
    for nm in r.perm(["zz", "a", "b2", "C", "dd"])[:r.int(1, 5)]:
        kinds[nm], cols[nm] = pandas_column(r, n)
    ds = rt.Dataset(cols)
    before = {k: gen.snap(v) for k, v in cols.items()}
    kw = {}
    if r.chance(.3):
        kw["use_nullable"] = r.chance()
    if r.chance(.3):
        kw["unicode"] = r.chance()
    df = m.call("to_pandas", ds.to_pandas, **kw)
    m.check(list(df.columns) == list(cols) and len(df) == n, "pandas-shape", cols=list(df.columns))
    for k, c in cols.items():
        want = values(c, False)
        if isinstance(c, rt.Categorical) and (c.ismultikey or c.isenum):
            continue
        if kw.get("use_nullable") is False and plain(c).dtype.kind in "iu" and kinds[k] == "num":
            want = plain(c).tolist()
        listeq(m, pandas_values(df[k]), want, "pandas-values", col=k, a=c, kw=kw, cls=type(c).__name__)
        if kinds[k] == "dtn":
            m.check(str(df[k].dt.tz) == rt.TimeZone.normalize_tz_to_tzdb_name(c._timezone._to_tz), "pandas-zone", col=k, zone=str(df[k].dt.tz))
    back = m.call("from_pandas", rt.Dataset.from_pandas, df)
    m.check(list(back.keys()) == list(cols), "pandas-back-names", names=list(back.keys()))
    for k, c in cols.items():
        if isinstance(c, rt.Categorical) and (c.ismultikey or c.isenum):
            continue
        listeq(m, values(back[k], False), values(c, False), "pandas-back-values", col=k, a=c, kw=kw, cls=type(c).__name__)
        m.check(type(back[k]) is type(ds[k]), "pandas-back-class", col=k, got_class=type(back[k]).__name__)
        if kinds[k] in ("num", "bool"):
            m.check(plain(back[k]).dtype == plain(c).dtype, "pandas-back-dtype", col=k, got_dtype=plain(back[k]).dtype, want=plain(c).dtype)
    for k, c in cols.items():
        m.check(gen.snap_diff(before[k], gen.snap(c)) is None, "to-pandas-keeps-input", col=k)
    m.note(kinds=sorted(kinds.values()))


@case(n=180, thorough=2000)
def pandas_source(m, r):
    n = r.int(0, 40)
    cols, want, kinds = {}, {}, ""
    for nm in r.perm(["q", "w", "e", "rr"])[:r.int(1, 4)]:
        k = r.pick(["Int", "int", "float", "str", "strnull", "cat", "dt", "dttz", "td", "bool", "allnull", "intobj"])
        miss = r.g.random(n) < .2
        kinds += k + " "
        if k == "Int":
            t = r.pick(["Int8", "Int16", "Int32", "Int64", "UInt8", "UInt32"])
            v = [None if mi else int(x) for x, mi in zip(r.g.integers(0, 100, n), miss)]
            cols[nm], want[nm] = pd.Series(v, dtype=t), v
        elif k == "int":
            v = r.g.integers(-100, 100, n).astype(r.pick(["i1", "i4", "i8"]))
            cols[nm], want[nm] = pd.Series(v), v.tolist()
        elif k == "float":
            v = np.where(miss, np.nan, r.g.normal(0, 1, n))
            cols[nm], want[nm] = pd.Series(v), v.tolist()
        elif k in ("str", "strnull"):
            v = [r.pick(r.pick([["a", "bb", "long word"], ["é", "日"]])) for _ in range(n)]
            cols[nm], want[nm] = pd.Series(v, dtype=object), v
        elif k == "cat":
            cats = r.pick([["x", "y", "z"], [5, 6, 7]])
            codes = np.where(miss, -1, r.g.integers(0, 3, n))
            cols[nm] = pd.Series(pd.Categorical.from_codes(codes, categories=cats, ordered=r.chance()))
            want[nm] = [None if c < 0 else cats[c] for c in codes.tolist()]
        elif k in ("dt", "dttz"):
            v = [pd.NaT if mi else pd.Timestamp(int(x) * 10**9 + 7) for x, mi in zip(r.g.integers(1, 2**31 - 1, n), miss)]
            s = pd.Series(v, dtype="datetime64[ns]")
            if r.chance(.3):
                s = s.astype(r.pick(["datetime64[s]", "datetime64[ms]", "datetime64[us]"]))
            want[nm] = pandas_values(s)
            cols[nm] = s.dt.tz_localize("UTC").dt.tz_convert(r.pick(["UTC", "America/New_York"])) if k == "dttz" else s
        elif k == "td":
            v = [pd.NaT if mi else pd.Timedelta(int(x), "ns") for x, mi in zip(r.g.integers(-10**12, 10**12, n), miss)]
            s = pd.Series(v, dtype="timedelta64[ns]")
            if r.chance(.3):
                s = s.astype(r.pick(["timedelta64[s]", "timedelta64[ms]"]))
            cols[nm], want[nm] = s, pandas_values(s)
        elif k == "bool":
            v = r.g.random(n) < .5
            cols[nm], want[nm] = pd.Series(v), v.tolist()
        elif k == "intobj":
            v = [int(x) for x in r.g.integers(0, 9, n)]
            if n == 0:
                continue
            cols[nm], want[nm] = pd.Series(v, dtype=object), [float(x) for x in v]
        else:
            if n == 0:
                continue
            cols[nm], want[nm] = pd.Series([None] * n, dtype=object), [float("nan")] * n
    if not cols:
        return
    df = pd.DataFrame(cols)
    idx = None
    if r.chance(.4):
        idx = [int(x) for x in r.perm(list(range(n)))]
        df.index = pd.Index(idx, name=r.pick([None, "key"]))
    keep = r.pick([False, True, None])
    ds = m.call("from_pandas", rt.Dataset.from_pandas, df, preserve_index=keep) if r.chance(.8) or idx is not None or n == 0 or any(x in kinds for x in ("allnull", "Int", "td", "intobj")) else m.call("Dataset(df)", rt.Dataset, df)
    names = list(cols)
    if list(ds.keys()) != names:
        m.check(keep in (True, None) and list(ds.keys())[1:] == names, "pandas-source-names", got_names=list(ds.keys()), names=names)
        iv = plain(ds[0] if False else ds[list(ds.keys())[0]]).tolist()
        m.check(iv == (idx if idx is not None else list(range(n))), "pandas-source-index", got_index=iv, want=idx)
    else:
        m.check(keep is not True or not (idx is not None), "pandas-source-index-kept", keep=keep)
    for k in names:
        listeq(m, values(ds[k], False), want[k], "pandas-source-values", col=k, dtype=str(df[k].dtype), s=df[k].tolist()[:10])


# ------------------------------------------------------------------------------- rows and records

def scalar(v):
    return gen.txt(v.item() if hasattr(v, "item") and not isinstance(v, (bytes, str)) else v)


@case(n=150, thorough=1500)
def rows(m, r):
    n = r.int(0, 25)
    names = r.perm(["zz", "a", "b2", "C", "dd"])[:r.int(1, 5)]
    ds = gen.dataset(r, n, kinds=[r.pick(["f8", "i4", "bool", "S", "U"]) for _ in names], names=list(names), inv=0)
    cols = {k: [gen.txt(v) for v in plain(ds[k]).tolist()] for k in names}
    want = [tuple(cols[k][i] for k in names) for i in range(n)]

    def check(got, what):
        m.check(len(got) == n, what + "-count", rows=len(got), n=n)
        for g, w in zip(got, want):
            m.check(eq(tuple(scalar(x) for x in g), w), what, got_row=repr(g), want=repr(w))
    how = r.pick(["tuple", "list", "dict", "OrderedDict", "namedtuple", "Struct", "iter", "Dataset", "array"])
    res = list(m.call("asrows", lambda: [list(x) if how == "iter" else x for x in ds.asrows(how)]))
    if how in ("tuple", "list", "iter", "namedtuple"):
        check(res, "asrows-" + how)
    elif how in ("dict", "OrderedDict", "Struct"):
        m.check(all(list(x.keys()) == list(names) for x in res), "asrows-names")
        check([[x[k] for k in names] for x in res], "asrows-" + how)
    elif how == "Dataset":
        m.check(all(list(x.keys()) == list(names) and len(x) == 1 or x.get_nrows() == 1 for x in res), "asrows-ds-shape")
        check([[plain(x[k]).tolist()[0] for k in names] for x in res], "asrows-Dataset")
    else:
        m.check(len(res) == n, "asrows-array-count")
    check(m.call("tolist", ds.tolist), "ds-tolist")
    it = m.call("iterrows", lambda: [(i, dict((k, row[k]) for k in names)) for i, row in ds.iterrows()])
    m.check([i for i, _ in it] == list(range(n)), "iterrows-index")
    check([[d[k] for k in names] for _, d in it], "iterrows")
    d = m.call("asdict", ds.asdict)
    m.check(list(d) == list(names), "asdict-names", got_names=list(d))
    for k in names:
        listeq(m, [gen.txt(v) for v in plain(d[k]).tolist()], cols[k], "asdict-values", col=k)
    if n:
        b = m.call("from_rows", rt.Dataset.from_rows, [list(w) if r.chance() else w for w in want], list(names))
        m.check(list(b.keys()) == list(names), "from-rows-names")
        for k in names:
            listeq(m, [gen.txt(v) for v in plain(b[k]).tolist()], cols[k], "from-rows-values", col=k)
        m.raises("from_rows", rt.Dataset.from_rows, [w + (1,) if i == n - 1 else w for i, w in enumerate(want)], list(names))
        tags = []
        for w in want:
            o = r.perm(list(range(len(names))))
            tags.append({names[i]: w[i] for i in o})
        b = m.call("from_tagged_rows", rt.Dataset.from_tagged_rows, tags)
        m.check(list(b.keys()) == sorted(names), "from-tagged-names")
        for k in names:
            listeq(m, [gen.txt(v) for v in plain(b[k]).tolist()], cols[k], "from-tagged-values", col=k)


@case(n=120, thorough=1500)
def records(m, r):
    n = r.int(1, 30)
    names = r.perm(["zz", "a", "b2", "C", "dd"])[:r.int(1, 5)]
    kinds = [r.pick(["f8", "f4", "i4", "i1", "u2", "bool", "S", "U", "dtn", "date", "span"]) for _ in names]
    ds = rt.Dataset({k: stride(r, gen.column(r, n, kk)) for k, kk in zip(names, kinds)})
    conv = r.chance()
    ra = m.call("as_recordarray", ds.as_recordarray, allow_conversions=conv)
    m.check(list(ra.dtype.names) == list(names) and len(ra) == n, "record-shape", names=ra.dtype.names)
    for k, kk in zip(names, kinds):
        p, g = plain(ds[k]), np.asarray(ra[k])
        if kk == "dtn":
            m.check(g.dtype == np.dtype("M8[ns]"), "record-dtype", col=k, dtype=g.dtype)
            g = g.view("i8")
            ok = ~np.isin(p, [0, IMIN])
            m.same(g[ok], p[ok], "record-datetime", col=k)
        elif conv and kk == "date":
            m.check(g.dtype == np.dtype("M8[D]"), "record-dtype", col=k, dtype=g.dtype)
            ok = ~np.isin(p, [0, np.iinfo("i4").min])
            m.same(g.astype("i8")[ok], p.astype("i8")[ok], "record-date", col=k)
        elif conv and kk == "span":
            m.check(g.dtype == np.dtype("m8[ns]"), "record-dtype", col=k, dtype=g.dtype)
            ok = ~np.isnan(p)
            m.same(g.astype("i8")[ok], p[ok].astype("i8"), "record-span", col=k)
            m.check(bool(np.isnat(g[~ok]).all()), "record-span-missing", col=k)
        else:
            m.same(g, p, "record-values", col=k, kind=kk)
    if not any(k in ("dtn", "date", "span") for k in kinds):
        b = m.call("Dataset(records)", rt.Dataset, ra)
        m.check(list(b.keys()) == list(names), "record-back-names")
        for k in names:
            m.same(np.array([gen.txt(v) for v in plain(b[k]).tolist()], dtype=object), np.array([gen.txt(v) for v in plain(ds[k]).tolist()], dtype=object), "record-back-values", col=k)
    # matrix
    nums = [k for k, kk in zip(names, kinds) if kk in ("f8", "f4", "i4")]
    if nums:
        sub = rt.Dataset({k: ds[k] for k in nums})
        mat = m.call("as_matrix", sub.as_matrix, save_metadata=False)
        m.check(mat.shape == (n, len(nums)), "matrix-shape", shape=mat.shape)
        for j, k in enumerate(nums):
            p = plain(ds[k])
            w = p.astype("f8")
            ok = np.ones(n, bool) if p.dtype.kind == "b" else ~gen.is_inv(p)
            m.same(np.asarray(mat)[ok, j], w[ok], "matrix-values", col=k)


@case(n=120, thorough=1500)
def numpy_lists(m, r):
    """FastArray from Python lists and NumPy arrays, and back"""
    n = r.int(0, 30)
    k = r.pick(["int", "big", "float", "str", "ustr", "bytes", "bool", "mixnum", "dt64", "td64", "obj"])
    if k == "int":
        v = [int(x) for x in r.g.integers(-1000, 1000, n)]
    elif k == "big":
        v = [int(x) for x in r.g.integers(-2**62, 2**62, n)]
    elif k == "float":
        v = [float(x) for x in r.g.normal(0, 1, n)] + [float("nan")]
    elif k == "str":
        v = [r.pick(["a", "bb", "", "x y z"]) for _ in range(n)]
    elif k == "ustr":
        v = [r.pick(["é", "日本", "a"]) for _ in range(n)] + ["ü"]
    elif k == "bytes":
        v = [r.pick([b"a", b"bb"]) for _ in range(n)]
    elif k == "bool":
        v = [bool(x) for x in r.g.random(n) < .5]
    elif k == "mixnum":
        v = [r.pick([1, 2.5, 3, True]) for _ in range(n)] + [.5]
    elif k in ("dt64", "td64"):
        u = r.pick(["ns", "us", "ms", "s"])
        raw = r.g.integers(1, 10**6, n)
        a = raw.astype(("M8[%s]" if k == "dt64" else "m8[%s]") % u)
        mult = {"s": 10**9, "ms": 10**6, "us": 10**3, "ns": 1}[u]
        fa = m.call("DateTimeNano", rt.DateTimeNano, a, from_tz="GMT", to_tz="GMT") if k == "dt64" else m.call("TimeSpan", rt.TimeSpan, a)
        m.same(plain(fa).astype("i8"), raw * mult, "numpy-datetime64", unit=u, kind=k)
        return
    else:
        v = [r.pick(["a", "b"]) for _ in range(n)]
        v = np.array(v, dtype=object)
    if n == 0:
        return
    fa = m.call("FastArray", rt.FastArray, v if isinstance(v, np.ndarray) or r.chance(.5) else np.array(v))
    w = [gen.txt(x) for x in (v.tolist() if isinstance(v, np.ndarray) else v)]
    listeq(m, [gen.txt(x) for x in plain(fa).tolist()], [float(x) if k == "mixnum" else x for x in w], "list-to-array", kind=k)
    listeq(m, [gen.txt(x) for x in fa.tolist()], [gen.txt(x) for x in plain(fa).tolist()], "array-to-list", kind=k)
    listeq(m, [gen.txt(x) for x in np.asarray(fa).tolist()], [gen.txt(x) for x in plain(fa).tolist()], "asarray", kind=k)
    m.check(type(fa._np) is np.ndarray, "np-class")
    listeq(m, [gen.txt(x) for x in iter(fa)], [gen.txt(x) for x in plain(fa).tolist()], "iterate", kind=k)


@case(n=60, thorough=500)
def csv_files(m, r):
    n = r.int(1, 20)
    names = r.perm(["zz", "a", "b2", "C", "dd"])[:r.int(1, 4)]
    kinds = [r.pick(["int", "float", "str"]) for _ in names]
    cols = {}
    for k, kk in zip(names, kinds):
        cols[k] = [int(x) for x in r.g.integers(-99, 99, n)] if kk == "int" else [float(np.round(x, 4)) for x in r.g.normal(0, 9, n)] if kk == "float" else [r.pick(["p", "q,r", "s \"t\"", "long text here"]) for _ in range(n)]
    d = tempfile.mkdtemp(prefix="rvcsv")
    try:
        fn = os.path.join(d, "f.csv")
        head = r.chance(.7)
        skip = r.pick([0, 0, 2])
        with open(fn, "w", newline="") as f:
            for _ in range(skip):
                f.write("skip this\n")
            w = csv.writer(f, lineterminator="\n")
            if head:
                w.writerow(names)
            for i in range(n):
                w.writerow([cols[k][i] for k in names])
        ver = r.pick([0, 1, 2, 3, 4, None])
        conv = {k: {"int": int, "float": float, "str": str}[kk] for k, kk in zip(names, kinds)}
        ds = m.call("load_csv", rt.load_csv_as_dataset, fn, None if head else list(names), converters=conv, version=ver, skip_rows=skip)
        m.check(list(ds.keys()) == list(names), "csv-names", got_names=list(ds.keys()), names=names, version=ver)
        for k in names:
            listeq(m, [gen.txt(v) for v in plain(ds[k]).tolist()], cols[k], "csv-values", col=k, version=ver)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@case(n=120, thorough=1500)
def categorical_out(m, r):
    """expanded values, strings, dictionaries and rebuilt Categoricals agree with the codes"""
    n = r.int(1, 40)
    kind = r.pick(["str", "int", "codes", "float", "ordered0", "enum", "multi", "date"])
    c = gen.cat(r, n, kind=kind)
    want = list(gen.cat_labels(c))
    ok = [w is not None for w in want]
    e = m.call("expand_array", lambda: c.expand_array)
    if kind == "enum":
        got = [enum_pairs(c)[int(x)] for x in plain(e).tolist()]
    elif kind == "multi":
        cols = [plain(x).tolist() for x in e] if isinstance(e, (tuple, list)) else [plain(x).tolist() for x in e.values()]
        got = [tuple(gen.txt(x[i]) for x in cols) for i in range(n)]
    else:
        got = [gen.txt(x) for x in plain(e).tolist()]
    listeq(m, [g for g, o in zip(got, ok) if o], [w for w in want if w is not None], "expand-array", kind=kind, c=plain(c))
    if kind in ("str", "codes", "ordered0", "enum"):
        s = m.call("as_string_array", lambda: c.as_string_array)
        listeq(m, [gen.txt(g) for g, o in zip(plain(s).tolist(), ok) if o], [w for w in want if w is not None], "as-string-array", kind=kind)
        sg = m.call("as_singlekey", c.as_singlekey)
        listeq(m, list(gen.cat_labels(sg)), want, "as-singlekey", kind=kind)
        if all(ok) and kind != "enum":
            b = m.call("Cat(expand)", rt.Cat, e)
            listeq(m, list(gen.cat_labels(b)), want, "rebuild", kind=kind)
    if kind != "multi":
        listeq(m, [gen.txt(x) for x, o in zip(list(c), ok) if o] if kind not in ("date",) else [w for w in want if w is not None], [w for w in want if w is not None], "cat-iterate", kind=kind)


@case(n=300, thorough=3000)
def arrow_categorical(m, r):
    """Arrow dictionary arrays of mappings (unnamed codes, a category for the invalid code) and of several keys."""
    n = r.pick([1, 2, r.int(3, 40)])
    if r.chance(.6):
        t = r.pick(["i4", "i8"])
        keys = r.subset([10, 20, 30, -5, 7, 1, 0, 1000000], 1, 6)
        mp = {k: "n%d" % i for i, k in enumerate(r.perm(keys))}
        invcode = None
        if t == "i8" and r.chance(.4):
            invcode = int(np.iinfo(t).min)
            mp[invcode] = "none"
            mp = {k: mp[k] for k in r.perm(list(mp))}
        pool = list(mp) + (r.subset([555, 666, -9, 31, 32], 1, 4) if r.chance(.6) else [])
        codes = [r.pick(pool) for _ in range(n)]
        c = m.call("Cat(mapping)", rt.Cat, np.array(codes, t), mp)
        p = m.call("to_arrow", c.to_arrow)
        got = from_pa(p)
        want = [None if x == invcode else (mp.get(x), x) for x in codes]
        m.check(len(got) == n, "arrow-mapping-length")
        for i, (g, w) in enumerate(zip(got, want)):
            ok = g is None if w is None else g is not None and int(g[1]) == w[1] and ((g[0] or None) == w[0])
            m.check(ok, "arrow-mapping-row", row=i, got_value=repr(g), want=repr(w), codes=codes, mapping=mp)
        return
    cols, arrs = [], {}
    for i in range(r.int(2, 3)):
        k = r.pick(["S", "U", "bool", "date"])
        if k == "bool":
            v = [r.chance() for _ in range(n)]
            a = rt.FastArray(np.array(v))
        elif k == "date":
            v = [r.pick([2, 1, 18000, 18262]) for _ in range(n)]
            a = rt.Date(np.array(v, "i4"))
        else:
            v = [r.pick(["aa", "b", "c c"]) for _ in range(n)]
            a = rt.FastArray(np.array(v).astype("S") if k == "S" else np.array(v), unicode=k == "U")
        cols.append(v)
        arrs["k%d" % i] = a
    filt = gen.bools(r, n, .8) if r.chance(.4) else None
    c = m.call("Cat(multi)", rt.Cat, arrs, **({} if filt is None else {"filter": filt}))
    want = [x if filt is None or filt[i] else None for i, x in enumerate(zip(*cols))]
    p, err = m.attempt("to_arrow", c.to_arrow)
    if err is not None:
        m.check(isinstance(err, NotImplementedError), "arrow-multikey-error", error=repr(err))
        return
    got = from_pa(p)
    listeq(m, [None if g is None else tuple(gen.txt(x) for x in g) for g in got], want, "arrow-multikey", keys=list(arrs))
