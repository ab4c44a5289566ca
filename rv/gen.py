"""Input generators and independent decoders (raw memory -> plain Python/NumPy values)."""
import numpy as np
import riptable as rt
from .core import plain

# riptable's documented invalid sentinels, written out independently of rt_enum
INV = {"i1": -128, "u1": 255, "i2": -32768, "u2": 65535, "i4": -2**31, "u4": 2**32 - 1, "i8": -2**63, "u8": 2**64 - 1}
INTS = list(INV)
SINTS = ["i1", "i2", "i4", "i8"]
FLOATS = ["f4", "f8"]
NUMS = INTS + FLOATS
DAYNS = 86400 * 10**9


def code(dt):
    dt = np.dtype(dt)
    return dt.kind + str(dt.itemsize)


def invalid(dt):
    dt = np.dtype(dt)
    if dt.kind in "iu":
        return dt.type(INV[code(dt)])
    if dt.kind == "f":
        return dt.type(np.nan)
    if dt.kind == "S":
        return b""
    if dt.kind == "U":
        return ""
    return None


def is_inv(a):
    """Mask of missing values of a plain array."""
    a = plain(a)
    if a.dtype.kind == "f":
        return np.isnan(a)
    if a.dtype.kind in "iu":
        return a == invalid(a.dtype)
    if a.dtype.kind == "S":
        return a == b""
    if a.dtype.kind == "U":
        return a == ""
    return np.zeros(a.shape, bool)


def num(r, n, dt=None, inv=None, lo=None, hi=None, card=None, special=True):
    """Plain numeric array. inv: probability of missing. card: number of distinct values (key-like)."""
    dt = np.dtype(dt or r.pick(NUMS))
    if inv is None:
        inv = r.pick([0, 0, 0.1, 0.4])
    if dt.kind == "f":
        if card is not None:
            pool = np.round(r.g.normal(0, 50, card), 2).astype(dt) + dt.type(0)
            a = pool[r.g.integers(0, card, n)]
        elif lo is not None:
            a = r.g.uniform(lo, hi, n).astype(dt)
        else:
            a = np.round(r.g.normal(0, 100, n), r.int(0, 3)).astype(dt) + dt.type(0)
            if special and n and r.chance(0.12):
                a[r.g.integers(0, n)] = r.pick([0.0, -0.0, 1e10, -1e10])
        a = a + dt.type(0)
    else:
        ii = np.iinfo(dt)
        if lo is None:
            lo, hi = r.pick([(0, 3), (-5, 5), (-100, 100), (0, 120), (-1000, 1000), (-10**6, 10**6)])
            if card is None and special and r.chance(0.08):
                lo, hi = int(ii.min), int(ii.max)
        lo, hi = max(lo, ii.min), min(hi, ii.max)
        bad = INV[code(dt)]
        if lo == bad:
            lo += 1
        if hi == bad:
            hi -= 1
        if card is not None:
            pool = r.g.integers(lo, hi, card, dtype=dt, endpoint=True)
            a = pool[r.g.integers(0, card, n)]
        else:
            a = r.g.integers(lo, hi, n, dtype=dt, endpoint=True)
    if inv and n:
        a = a.copy()
        a[r.g.random(n) < inv] = invalid(dt)
    return a


WORDS = ["a", "b", "A", "ab", "abc", "bc", "zed", "x y", "IBM", "AAPL", "GOOG", "longer_string_here", "9", "10", "Z", "aa", "aaa", "b b", "tail "[:4], "q-1"]
UWORDS = WORDS + ["é", "日本", "ñandú", "Ω", "a日"]


def words(r, n, kind="S", card=None, empty=0.0, pool=None):
    src = list(pool if pool is not None else (WORDS if kind == "S" else (UWORDS if r.chance(0.4) else WORDS)))
    if card is None:
        card = r.int(1, min(12, len(src)))
    if card > len(src):
        src = src + [f"w{i}" for i in range(card - len(src))]
    p = r.perm(src)[:card]
    ix = r.g.integers(0, card, n)
    out = [p[i] for i in ix]
    if empty:
        out = ["" if r.g.random() < empty else w for w in out]
    if not out:
        return np.array([], dtype="S1" if kind == "S" else "U1")
    a = np.array(out, dtype="U")
    return np.char.encode(a, "utf-8") if kind == "S" else a


def bools(r, n, p=None):
    p = r.pick([0.0, 0.1, 0.5, 0.5, 0.5, 0.9, 1.0]) if p is None else p
    return r.g.random(n) < p


TZS = ["NYC", "GMT", "DUBLIN", "Australia/Sydney", "Asia/Hong_Kong", "America/New_York", "Europe/Dublin"]


def dates(r, n, inv=0.1, card=None):
    d = r.g.integers(1, 40000, n if card is None else card).astype(np.int32)
    if card is not None:
        d = d[r.g.integers(0, card, n)]
    if n and inv:
        d[r.g.random(n) < inv] = 0
    return d


def nanos(r, n, inv=0.1, card=None):
    k = n if card is None else card
    a = r.g.integers(0, 2**31, k) * 10**9 + r.g.integers(0, 10**9, k) * r.pick([0, 1, 1])
    a = a.astype(np.int64) + DAYNS
    if card is not None:
        a = a[r.g.integers(0, card, n)]
    if n and inv:
        a[r.g.random(n) < inv] = 0
    return a


def spans(r, n, inv=0.1):
    a = np.round(r.g.normal(0, 5e13, n), 0)
    if n and inv:
        a[r.g.random(n) < inv] = np.nan
    return a


def cat(r, n, inv=0.1, kind=None):
    """A riptable Categorical with various origins."""
    kind = kind or r.pick(["str", "str", "int", "codes", "enum", "multi", "float", "ordered0", "date"])
    if kind == "str":
        w = words(r, n, r.pick(["S", "U"]), empty=0)
        filt = None
        if inv and r.chance(0.5):
            filt = ~bools(r, n, inv)
        return rt.Cat(w, filter=filt) if n else rt.Cat(np.array(["a"]))[:0]
    if kind == "int":
        return rt.Cat(num(r, n, r.pick(["i4", "i8", "u1"]), inv=0, lo=0, hi=20)) if n else rt.Cat(np.array([1]))[:0]
    if kind == "float":
        return rt.Cat(num(r, n, "f8", inv=0, card=5)) if n else rt.Cat(np.array([1.5]))[:0]
    if kind == "date":
        return rt.Cat(rt.Date(dates(r, n, inv=0, card=5))) if n else rt.Cat(rt.Date(np.array([1], dtype=np.int32)))[:0]
    if kind == "codes":
        k = r.int(1, 6)
        cats = np.array(r.perm(["red", "green", "blue", "cyan", "pink", "grey", "teal"])[:k])
        codes = r.g.integers(0 if inv and r.chance() else 1, k + 1, n).astype(r.pick(["i1", "i4"]))
        return rt.Cat(codes, cats, base_index=1)
    if kind == "ordered0":
        k = r.int(1, 6)
        cats = np.array(r.perm(["red", "green", "blue", "cyan", "pink", "grey", "teal"])[:k])
        codes = r.g.integers(0, k, n).astype("i4")
        return rt.Cat(codes, cats, base_index=0)
    if kind == "enum":
        keys = r.subset([10, 20, 30, -5, 7, 1, 0], 1, 5)
        names = r.perm(["xx", "yy", "zz", "ww", "vv"])
        mp = {k: names[i] for i, k in enumerate(keys)}
        return rt.Cat(np.array([r.pick(keys) for _ in range(n)], dtype=np.int64), mp)
    if kind == "multi":
        if n == 0:
            return rt.Cat([np.array(["a"]), np.array([1])])[:0]
        return rt.Cat([words(r, n, "S", card=3), num(r, n, "i4", inv=0, lo=0, hi=3)])
    raise AssertionError(kind)


COLKINDS = ["num", "num", "num", "bool", "S", "U", "date", "dtn", "span", "cat", "datespan"]


def column(r, n, kind=None, inv=0.1):
    """(kind, riptable array) for a Dataset column."""
    kind = kind or r.pick(COLKINDS)
    if kind == "num":
        return rt.FastArray(num(r, n, inv=inv))
    if kind == "bool":
        return rt.FastArray(bools(r, n))
    if kind == "S":
        return rt.FastArray(words(r, n, "S", empty=inv / 2))
    if kind == "U":
        return rt.FastArray(words(r, n, "U", empty=inv / 2), unicode=True)
    if kind == "date":
        return rt.Date(dates(r, n, inv))
    if kind == "dtn":
        return rt.DateTimeNano(nanos(r, n, inv), from_tz="GMT", to_tz=r.pick(TZS))
    if kind == "span":
        return rt.TimeSpan(spans(r, n, inv))
    if kind == "datespan":
        d = r.g.integers(-400, 4000, n).astype(np.int32)
        return rt.DateSpan(d)
    if kind == "cat":
        return cat(r, n, inv)
    return rt.FastArray(num(r, n, kind, inv=inv))


def dataset(r, n, k=None, kinds=None, names=None, inv=0.1):
    names = names or ["c%d" % i for i in range(k or r.int(1, 6))]
    return rt.Dataset({nm: column(r, n, (kinds[i % len(kinds)] if kinds else None), inv) for i, nm in enumerate(names)})


# ---------------------------------------------------------------------------------------------
# decoding: what an array denotes, computed from raw memory and the category table
# ---------------------------------------------------------------------------------------------

def txt(v):
    return v.decode("utf-8", "replace") if isinstance(v, (bytes, np.bytes_)) else v


def cat_labels(c):
    """Object array of labels (tuple for multikey, None for invalid/filtered); checks nothing."""
    codes = plain(c).tolist()
    if c.isenum:
        mp = {int(k): txt(v) for k, v in c.category_mapping.items()}
        out = [mp.get(k) for k in codes]
    else:
        cols = [plain(x).tolist() for x in c.category_dict.values()]
        base = int(c.base_index)
        n = len(cols[0]) if cols else 0
        out = []
        for k in codes:
            j = k - base
            if k < base or j >= n or j < 0:
                out.append(None)
            elif len(cols) == 1:
                out.append(txt(cols[0][j]))
            else:
                out.append(tuple(txt(x[j]) for x in cols))
    res = np.empty(len(out), dtype=object)
    for i, v in enumerate(out):
        res[i] = v
    return res


def decode(a):
    """Plain values an array denotes."""
    if isinstance(a, rt.Categorical):
        return cat_labels(a)
    return plain(a)


def kind_of(a):
    """Class and dtype identity that must survive meaning-preserving operations."""
    t = type(a).__name__
    if isinstance(a, rt.Categorical):
        return (t,)
    if isinstance(a, rt.DateTimeNano):
        return (t, "int64", a._timezone._to_tz if hasattr(a, "_timezone") else None)
    return (t, plain(a).dtype.kind if plain(a).dtype.kind in "SU" else str(plain(a).dtype))


def snap(x):
    """A deep, independent snapshot of the observable content of an object (for equality of before/after)."""
    if isinstance(x, rt.Categorical):
        d = {"t": "Categorical", "codes": plain(x).copy(), "cats": [((k if x.ismultikey else 0), plain(v).copy()) for k, v in x.category_dict.items()] if not x.isenum else dict(x.category_mapping),
             "base": x.base_index, "ordered": x.ordered}
        return d
    if isinstance(x, np.ndarray):
        return {"t": type(x).__name__, "v": plain(x).copy(), "tz": kind_of(x)[-1] if isinstance(x, rt.DateTimeNano) else None}
    if isinstance(x, rt.Struct):
        return {"t": type(x).__name__, "items": [(k, snap(v)) for k, v in x.items()]}
    if isinstance(x, dict):
        return {"t": "dict", "items": [(k, snap(v)) for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return {"t": type(x).__name__, "items": [(i, snap(v)) for i, v in enumerate(x)]}
    return {"t": type(x).__name__, "v": x}


def snap_diff(a, b, path=""):
    """None or a description of the first difference of two snapshots."""
    if type(a) is not type(b):
        return f"{path}: {type(a)} vs {type(b)}"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)} vs {list(b)}"
        for k in a:
            d = snap_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = snap_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, tuple):
        return snap_diff(list(a), list(b), path)
    if isinstance(a, np.ndarray):
        from .core import differs
        if a.dtype != b.dtype:
            return f"{path}: dtype {a.dtype} vs {b.dtype}"
        d = differs(a, b)
        return f"{path}: {d}" if d else None
    if isinstance(a, float) and a != a and b != b:
        return None
    try:
        ok = bool(a == b)
    except Exception:
        ok = a is b
    return None if ok else f"{path}: {a!r} vs {b!r}"


def same_col(m, got, exp, what, kind=True, mech=None):
    """Two riptable arrays denote the same values with the same class."""
    if kind:
        m.check(kind_of(got) == kind_of(exp), f"{what}: class/dtype {kind_of(got)} != {kind_of(exp)}", mech=mech)
    m.same(decode(got), decode(exp), what, mech=mech)


def same_ds(m, got, exp, what, kind=True, order=True):
    gk, ek = list(got.keys()), list(exp.keys())
    m.check(gk == ek if order else sorted(gk) == sorted(ek), f"{what}: columns {gk} != {ek}")
    for k in ek:
        same_col(m, got[k], exp[k], f"{what}[{k}]", kind=kind)


def dirty(r, n):
    """Fill the memory pools with recently freed garbage, so that a result read before it is written shows."""
    for dt in ("f4", "f8", "i4", "i1"):
        junk = [rt.FastArray(np.full(max(1, n + d), 77, dtype=dt)) for d in (-1, 0, 0, 1, 1, 2)]
        del junk
