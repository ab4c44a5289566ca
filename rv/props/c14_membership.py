"""C14: membership, uniqueness, duplicate and search functions agree with element-by-element equality."""
import bisect
import logging
import warnings
import numpy as np
import riptable as rt
from riptable.rt_utils import crc_match
from rv.core import case, plain
from rv import gen

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
KINDS = INTS + ["f4", "f8", "f8", "S", "S", "U", "date", "dtn"]


def size(r):
    return r.pick([0, 1, 2, r.int(3, 12), r.int(3, 60), r.int(60, 400), r.int(400, 3000)], p=[.03, .05, .07, .25, .35, .2, .05])


def pool(r, kind):
    """Distinct values of a kind, including values that differ in the last bit, character or are extreme."""
    k = r.int(1, 30)
    if kind == "S" or kind == "U":
        p = ["a", "b", "ab", "aa", "abc", "abcd", "ABC", "b ", " b", "zz", "abcdefgh", "abcdefghi", "abcdefgj", "x" * 17, "x" * 16 + "y"] + [f"w{i}" for i in range(60)]
        if kind == "U" and r.chance(.4):
            p += ["é", "ée", "日本", "ab\u0301"]
        return r.perm(p)[:k]
    if kind == "date":
        return [int(x) for x in r.g.choice(np.arange(1, 30000), k, replace=False)]
    if kind == "dtn":
        return [int(x) for x in (r.g.choice(np.arange(1, 5000), k, replace=False) + 1_500_000_000_000_000_000)]
    dt = np.dtype(kind)
    if dt.kind == "f":
        p = [0.0, 1.0, -1.0, 1.5, 2.5, np.inf, -np.inf, float(np.float32(.1)), float(np.float32(1e30)), 16777215.0] + [float(i) for i in range(2, 60)]
        return r.perm(list(dict.fromkeys(p)))[:k]
    ii = np.iinfo(dt)
    p = {ii.max - 1, ii.max - 2, ii.min + 1, ii.min + 2, ii.max // 2, 0, 1} | set(range(2, 60)) | ({-1, -2} if dt.kind == "i" else set())
    p |= {256 + 1, 65536 + 1, 2**32 + 1, 2**40, 2**54 + 1, 2**60 + 3}
    return r.perm([v for v in p if ii.min < v < ii.max])[:k]


def build(kind, vals, r=None):
    """A riptable array of the kind holding vals."""
    if kind in ("S", "U"):
        a = np.array(vals, dtype=kind) if len(vals) else np.array([], dtype=kind + "3")
        return rt.FastArray(a, unicode=kind == "U")
    if kind == "date":
        return rt.Date(np.array(vals, dtype="i4"))
    if kind == "dtn":
        return rt.DateTimeNano(np.array(vals, dtype="i8"), from_tz="GMT", to_tz="NYC")
    return rt.FastArray(np.array(vals, dtype=kind))


def strided(r, a):
    """The same values in a non-contiguous or offset view, sometimes."""
    if type(a) is not rt.FastArray or not len(a) or not r.chance(.2):
        return a
    k = r.int(2, 3)
    big = np.repeat(plain(a), k)
    return big.view(rt.FastArray)[::k]


def draw(r, p, n):
    return [p[i] for i in r.g.integers(0, len(p), n).tolist()]


def first_index(b):
    d = {}
    for i, v in enumerate(b):
        d.setdefault(v, i)
    return d


def nan(v):
    return isinstance(v, float) and v != v


def verify_member(m, got, a, d, what, null=nan):
    mask, idx = got
    m.check(len(mask) == len(a) and len(idx) == len(a), f"{what}: lengths {len(mask)}, {len(idx)} for {len(a)} values")
    mask, idx = plain(mask), plain(idx)
    m.check(mask.dtype == bool and idx.dtype.kind == "i", f"{what}: dtypes {mask.dtype}, {idx.dtype}")
    iv = gen.is_inv(idx).tolist()
    for j, v in enumerate(a):
        e = None if null(v) else d.get(v)
        if bool(mask[j]) != (e is not None):
            m.check(False, f"{what}: {v!r} member={bool(mask[j])}, first position {e}")
        if e is None and not iv[j]:
            m.check(False, f"{what}: {v!r} is not a member but its position is {int(idx[j])}")
        if e is not None and int(idx[j]) != e:
            m.check(False, f"{what}: {v!r} first occurs at {e}, reported {int(idx[j])}")
    m.oracles += 1


def pair(r, kind):
    """Two overlapping value lists of the kind."""
    p = pool(r, kind)
    na, nb = size(r), size(r)
    c = r.int(0, len(p))
    pa, pb = p[:max(1, len(p) - c // 2)], p[c // 2:] or p
    return draw(r, pa, na), draw(r, pb, nb)


@case(n=120)
def member_single(m, r):
    kind = r.pick(KINDS)
    a, b = pair(r, kind)
    if kind in ("f4", "f8"):
        for v in (a, b):
            for i in range(len(v)):
                if r.chance(.05):
                    v[i] = float("nan")
    A, B = strided(r, build(kind, a)), strided(r, build(kind, b))
    m.note(kind=kind, na=len(a), nb=len(b))
    kw = {}
    if r.chance(.3):
        kw["h"] = r.pick([1, 2])
    if r.chance(.2):
        kw["hint_size"] = r.pick([1, 10, 10000])
    gen.dirty(r, len(a))
    got = m.call("ismember", rt.ismember, A, B, **kw)
    verify_member(m, got, a, first_index([v for v in b]), f"ismember({kind})")
    if r.chance(.3) and kind in ("S", "U", "f8", "i8") and a and b:
        la, lb = (a, B) if r.chance(.5) else (A, b)
        got = m.call("ismember", rt.ismember, la, lb)
        verify_member(m, got, a, first_index(b), f"ismember of lists ({kind})")


@case(n=6)
def signed_zero(m, r):
    """0.0 and -0.0 are equal numbers."""
    kind = r.pick(["f4", "f8"])
    a, b = [1.0, -0.0, 2.0], [2.0, 0.0]
    mask, _ = m.call("ismember", rt.ismember, build(kind, a), build(kind, b))
    m.check(bool(mask[1]), f"ismember({kind}): -0.0 is not found in an array that holds 0.0", mech="signed-zero")


@case(n=80)
def member_mixed(m, r):
    """Keys of two different numeric types: equal exactly when the numbers are equal."""
    ka, kb = r.pick(INTS + ["f4", "f8"]), r.pick(INTS + ["f4", "f8"])
    base = [0, 1, 2, 3, 5, 7, 100, 126]
    pa, pb = list(base), list(base)
    for k, p in ((ka, pa), (kb, pb)):
        if k[0] == "f":
            p += [1.5, 2.25, 99.5, float("nan"), float("inf"), -1.0, 1e30, 2.0**24, 2.0**53, 2.0**63, 2.0**64]
        else:
            ii = np.iinfo(k)
            p += [v for v in (-1, -2, 200, 255 + 2, 65535 + 2, 2**24 + 1, 2**31 + 1, 2**53 + 1, 2**62 + 1, 2**63 + 1, 2**64 - 2) if ii.min < v < ii.max]
            if ii.max == 255:
                p += [254]
    if r.chance(.3):
        pa, pb = pa[:8], pb
    a, b = draw(r, pa, r.int(1, 60)), draw(r, pb, r.int(1, 60))
    A, B = build(ka, a), build(kb, b)
    a, b = plain(A).tolist(), plain(B).tolist()
    m.note(ka=ka, kb=kb)
    got, err = m.attempt("ismember", rt.ismember, A, B)
    if err is None:
        verify_member(m, got, a, first_index(b), f"ismember({ka}, {kb})")
    if len(b) == 1 and {ka[0], kb[0]} - {"i", "u"}:
        return  # one value: compared with ==, which rounds 64-bit integers to doubles as NumPy does
    got, err = m.attempt("isin", A.isin, B)
    if err is None:
        exp = [False if nan(v) else v in set(b) for v in a]
        m.same(plain(got), np.array(exp, bool), f"isin({ka}, {kb})")


@case(n=60)
def member_multi(m, r):
    k = r.int(1, 3)
    kinds = [r.pick(["i1", "i4", "i8", "u2", "u8", "f4", "f8", "S", "U", "date", "cat", "S"]) for _ in range(k)]
    na, nb = size(r), size(r)
    ca, cb, A, B = [], [], [], []
    for q in kinds:
        p = pool(r, "S" if q == "cat" else q)[: r.int(1, 4)]
        a, b = draw(r, p, na), draw(r, p, nb)
        ca.append(a), cb.append(b)
        for v, lst in ((a, A), (b, B)):
            if q == "cat":
                lst.append(rt.Cat(np.array(v, dtype="S") if v else np.array([], dtype="S1")))
            elif q in ("S", "U"):
                lst.append(build(r.pick(["S", "U"]) if all(x.isascii() for x in v) else "U", v))
            elif q in ("i1", "i4") and r.chance(.3):
                lst.append(build(r.pick([q, "i8"]), v))
            else:
                lst.append(strided(r, build(q, v)))
    m.note(kinds=kinds, na=na, nb=nb)
    wrap = r.pick([list, tuple])
    got, err = m.attempt("ismember", rt.ismember, wrap(A), wrap(B))
    if err is not None:
        m.check(na == 0 or nb == 0, f"multi-key ismember refused {kinds}: {err!r}"[:200])
        return
    verify_member(m, got, list(zip(*ca)) if na else [], first_index(list(zip(*cb))) if nb else {}, f"ismember{kinds}")


def category(r, kind, vals):
    """A Categorical of vals built one of several ways, with some rows filtered; (cat, labels or None)."""
    n = len(vals)
    z = gen.bools(r, n, r.pick([0, 0, .3]))
    arr = build(kind, vals)
    how = r.pick(["plain", "filter", "base0", "codes", "unordered"])
    lab = list(vals)
    if how == "plain" or n == 0:
        return rt.Cat(arr), lab
    if how == "unordered":
        return rt.Cat(arr, ordered=False), lab
    if how == "filter":
        return rt.Cat(arr, filter=~z), [None if q else v for v, q in zip(lab, z)]
    if how == "base0":
        return rt.Cat(arr, base_index=0), lab
    u = r.perm(list(dict.fromkeys(vals)) + ([] if kind != "S" else ["never"]))
    pos = {v: i for i, v in enumerate(u)}
    codes = np.array([pos[v] + 1 for v in vals], dtype=r.pick(["i1", "i2", "i4", "i8"]))
    codes[z] = 0
    return rt.Cat(codes, build(kind, u)), [None if q else v for v, q in zip(lab, z)]


@case(n=70)
def member_categorical(m, r):
    kind = r.pick(["S", "S", "U", "i4", "f8", "i8"])
    a, b = pair(r, kind)
    if not all(isinstance(v, str) and v.isascii() for v in a + b) and kind in "SU":
        kind = "U"
    A, la = category(r, kind, a)
    m.note(kind=kind, na=len(a), nb=len(b))
    flt = lambda v: v is None or nan(v)
    if r.chance(.5):
        B, lb = category(r, kind, b)
    else:
        B, lb = build(kind, b), b
    d = first_index([v for v in lb if False] + list(lb)); d.pop(None, None)
    got, err = m.attempt("ismember", rt.ismember, A, B)
    if err is None:
        verify_member(m, got, la, d, f"ismember(Categorical {kind}, {type(B).__name__})", null=flt)
    got, err = m.attempt("ismember", rt.ismember, build(kind, a), A if len(a) else B)
    C, lc = category(r, kind, b)
    got, err = m.attempt("ismember", rt.ismember, build(kind, a), C)
    if err is None:
        d = first_index(lc); d.pop(None, None)
        verify_member(m, got, a, d, f"ismember({kind}, Categorical)", null=flt)


@case(n=40)
def member_multi_categorical(m, r):
    na, nb = r.int(1, 60), r.int(1, 60)
    cols_a = [draw(r, ["a", "b", "cc"], na), draw(r, [1, 2, 3], na)]
    cols_b = [draw(r, ["a", "b", "dd"], nb), draw(r, [1, 2, 4], nb)]
    za, zb = gen.bools(r, na, r.pick([0, .3])), gen.bools(r, nb, r.pick([0, .3]))
    mk = lambda c, z: rt.Cat([build("S", c[0]), build("i4", c[1])], **({"filter": ~z} if z.any() else {}))
    A, B = mk(cols_a, za), mk(cols_b, zb)
    la = [None if q else t for t, q in zip(zip(*cols_a), za)]
    lb = [None if q else t for t, q in zip(zip(*cols_b), zb)]
    d = first_index(lb); d.pop(None, None)
    got = m.call("ismember", rt.ismember, A, B)
    verify_member(m, got, la, d, "ismember(multikey Categoricals)", null=lambda v: v is None)
    got = m.call("Categorical.isin", A.isin, B)
    m.same(plain(got), np.array([v is not None and v in d for v in la], bool), "multikey Categorical.isin")


@case(n=90)
def isin_forms(m, r):
    kind = r.pick(KINDS)
    a, b = pair(r, kind)
    b = b[: r.pick([0, 1, 1, 2, 5, 400])]
    A = build(kind, a)
    form = r.pick(["list", "set", "array", "scalar", "same"])
    if kind in ("date", "dtn"):
        form = r.pick(["array", "same", "scalar"])
    m.note(kind=kind, form=form, nb=len(b))
    exp = np.array([v in set(b) for v in a], bool)
    if form == "scalar":
        if not b:
            return
        if kind in ("i8", "u8") and a:
            a = [b[0] + r.pick([0, 1, 2, -1]) if r.chance(.5) and abs(b[0]) > 5 and abs(b[0]) < 2**62 else v for v in a]
            A = build(kind, a)
        exp = np.array([v == b[0] for v in a], bool)
        x = b[0] if kind not in ("date", "dtn") else build(kind, b[:1])[0]
        got, err = m.attempt("isin", A.isin, x)
        if err is not None:
            return
    elif form == "list" or form == "set":
        if any(isinstance(v, int) and v >= 2**63 for v in b):
            return  # NumPy makes such a list an array of doubles
        if kind == "U" or all(not isinstance(v, str) or v.isascii() for v in b):
            got = m.call("isin", A.isin, list(b) if form == "list" else set(b))
        else:
            return
    elif form == "array" and kind not in ("date", "dtn"):
        got = m.call("isin", A.isin, np.array(b, dtype=A.dtype.char if kind in "SU" else kind) if b else plain(A)[:0])
    else:
        got = m.call("isin", A.isin, build(kind, b))
    m.check(len(got) == len(a), f"isin: {len(got)} answers for {len(a)} values")
    m.same(plain(got), exp, f"{kind}.isin({form})")
    if kind not in ("date", "dtn") and r.chance(.3):
        inv = m.call("isin", A.isin, build(kind, b), invert=True)
        m.same(plain(inv), ~exp if form != "scalar" else np.array([v not in set(b) for v in a], bool), f"{kind}.isin(invert=True)")


@case(n=60)
def isin_categorical(m, r):
    kind = r.pick(["S", "S", "U", "i4", "i8", "f8"])
    a, b = pair(r, kind)
    b = b[: r.pick([0, 1, 1, 2, 3, 400])]
    if kind == "U" and all(v.isascii() for v in a + b) and r.chance(.5):
        kind = "S"
    if kind == "i4" and r.chance(.3):
        b = [v if r.chance(.6) else v + .5 for v in b]
    A, la = category(r, kind, a)
    form = r.pick(["list", "set", "array", "scalar", "cat"])
    if any(isinstance(v, float) for v in b) and kind == "i4":
        form = r.pick(["list", "list", "scalar"])
    if form == "scalar":
        if not b:
            return
        b = b[:1]
    m.note(kind=kind, form=form, nb=len(b))
    exp = np.array([v is not None and v in set(b) for v in la], bool)
    if form == "cat":
        got, err = m.attempt("Categorical.isin", A.isin, category(r, kind, [])[0] if not b else rt.Cat(build(kind, b)))
        if err is None:
            m.same(plain(got), exp, f"Categorical({kind}).isin(Categorical)", mech="isin-cat-cat")
        return
    x = {"list": lambda: list(b), "set": lambda: set(b), "array": lambda: build(kind, b), "scalar": lambda: b[0]}[form]()
    got = m.call("Categorical.isin", A.isin, x)
    m.same(plain(got), exp, f"Categorical({kind}).isin({form})")


@case(n=30)
def isin_enum(m, r):
    names = r.perm(["a", "bb", "ccc", "d"])
    codes = r.perm([1, 2, 5, 10, 44, 0, -3])[:4]
    mp = dict(zip(codes, names))
    n = r.int(0, 40)
    pick = draw(r, codes + ([7] if r.chance(.4) else []), n)
    c = rt.Cat(np.array(pick, dtype="i4"), mp)
    want = r.subset(names, 1, 3)
    got = m.call("Categorical.isin", c.isin, list(want))
    m.same(plain(got), np.array([mp.get(v) in want for v in pick], bool), "enum Categorical.isin")


@case(n=30)
def isin_dataset(m, r):
    n = size(r)
    a = {"i": build("i4", draw(r, [1, 2, 3, 4], n)), "j": build("i1", draw(r, [1, 2, 3, 4], n)), "f": build("f8", draw(r, [1., 2., 2.5], n))}
    want = r.subset([1, 2, 3, 9], 1, 4)
    got = m.call("Dataset.isin", rt.Dataset(a).isin, list(want))
    m.check(list(got.keys()) == list(a), "Dataset.isin: columns changed")
    for k, v in a.items():
        m.same(plain(got[k]), np.isin(plain(v), want), f"Dataset.isin[{k}]")


def srt(v):
    return (1, 0) if nan(v) else (0, v)


@case(n=140)
def unique_single(m, r):
    kind = r.pick(KINDS + ["b"])
    n = size(r)
    if kind == "b":
        a = draw(r, [True, False], n)
        A = rt.FastArray(np.array(a, dtype=bool))
    else:
        a = draw(r, pool(r, kind), n)
        if kind in INTS and r.chance(.3):
            a = [int(gen.invalid(kind)) if r.chance(.1) else v for v in a]
        if kind in ("S", "U") and r.chance(.3):
            a = ["" if r.chance(.1) else v for v in a]
        if kind[0] == "f" and r.chance(.3):
            a = [float("nan") if r.chance(.1) else v for v in a]
        A = strided(r, build(kind, a))
    key = [("nan",) if nan(v) else v for v in a]
    filt = gen.bools(r, n) if r.chance(.3) else None
    lex, sorted_ = r.chance(.3), r.chance(.6)
    kw = dict(return_index=r.chance(.6), return_inverse=r.chance(.6), return_counts=r.chance(.6), sorted=sorted_, lex=lex)
    if filt is not None:
        kw["filter"] = rt.FastArray(filt)
    if r.chance(.2):
        kw["dtype"] = r.pick(["i", "l", "h", "q"]) if n < 30000 else "l"
    m.note(kind=kind, n=n, **{k: v for k, v in kw.items() if k != "filter"})
    rows = [i for i in range(n) if filt is None or filt[i]]
    first, count = {}, {}
    for i in rows:
        first.setdefault(key[i], i)
        count[key[i]] = count.get(key[i], 0) + 1
    gen.dirty(r, n)
    if r.chance(.5):
        got = m.call("unique", rt.unique, A, **kw)
    else:
        got = m.call("FastArray.unique", A.unique, **kw)
    ret = [x for x in ("return_index", "return_inverse", "return_counts") if kw[x]]
    if not ret:
        got = (got,)
    m.check(len(got) == 1 + len(ret), f"unique returned {len(got)} parts")
    u = [gen.txt(v) for v in plain(got[0]).tolist()]
    ku = [("nan",) if nan(v) else v for v in u]
    what = f"unique({kind}, sorted={sorted_}, lex={lex}, filter={filt is not None})"
    m.check(len(set(ku)) == len(ku), f"{what}: a value is listed twice")
    m.check(set(ku) == set(first), f"{what}: {set(ku) ^ set(first)} listed wrongly or left out"[:200])
    if sorted_ or lex:
        m.check(u == [("x") if False else v for v in sorted(u, key=srt)] or any(nan(v) for v in u) and ku[:-1] == sorted(ku[:-1]) and ku[-1] == ("nan",),
                f"{what}: not sorted: {u}"[:200])
    else:
        m.check([first[k] for k in ku] == sorted(first.values()), f"{what}: not in order of first appearance")
    m.check(type(got[0]) is type(A), f"{what}: class {type(got[0]).__name__}")
    part = dict(zip(ret, got[1:]))
    if "return_index" in part:
        m.same(plain(part["return_index"]).astype("i8"), np.array([first[k] for k in ku], "i8"), f"{what} index")
    if "return_counts" in part:
        m.same(plain(part["return_counts"]).astype("i8"), np.array([count[k] for k in ku], "i8"), f"{what} counts")
    if "return_inverse" in part:
        pos = {k: i for i, k in enumerate(ku)}
        ok = set(rows)
        m.same(plain(part["return_inverse"]).astype("i8"), np.array([pos[key[i]] if i in ok else -1 for i in range(n)], "i8"), f"{what} inverse")


@case(n=60)
def unique_multi(m, r):
    n = r.pick([1, 2, r.int(3, 60), r.int(60, 500)])
    k = r.int(2, 3)
    kinds = [r.pick(["i1", "i4", "i8", "u2", "f8", "S", "U", "date"]) for _ in range(k)]
    cols = [draw(r, pool(r, q)[: r.int(1, 4)], n) for q in kinds]
    A = [strided(r, build(q, c)) for q, c in zip(kinds, cols)]
    rows = list(zip(*cols))
    filt = gen.bools(r, n) if r.chance(.3) else None
    lex, sorted_ = r.chance(.3), r.chance(.6)
    kw = dict(return_index=True, return_inverse=True, return_counts=True, sorted=sorted_, lex=lex)
    if filt is not None:
        kw["filter"] = rt.FastArray(filt)
    m.note(kinds=kinds, n=n, lex=lex, sorted=sorted_, filt=filt is not None)
    u, idx, inv, cnt = m.call("unique", rt.unique, A, **kw)
    first, count = {}, {}
    for i, t in enumerate(rows):
        if filt is None or filt[i]:
            first.setdefault(t, i)
            count[t] = count.get(t, 0) + 1
    got = list(zip(*[[gen.txt(v) for v in plain(c).tolist()] for c in u]))
    what = f"unique({kinds}, sorted={sorted_}, lex={lex})"
    m.check(len(set(got)) == len(got) and set(got) == set(first), f"{what}: wrong set of combinations")
    if sorted_ or lex:
        m.check(got == sorted(got), f"{what}: combinations not in sorted order")
    else:
        m.check([first[t] for t in got] == sorted(first.values()), f"{what}: not in order of first appearance")
    m.same(plain(idx).astype("i8"), np.array([first[t] for t in got], "i8"), f"{what} index")
    m.same(plain(cnt).astype("i8"), np.array([count[t] for t in got], "i8"), f"{what} counts")
    pos = {t: i for i, t in enumerate(got)}
    m.same(plain(inv).astype("i8"), np.array([pos[t] if filt is None or filt[i] else -1 for i, t in enumerate(rows)], "i8"), f"{what} inverse")


@case(n=50)
def unique_categorical(m, r):
    kind = r.pick(["S", "U", "i4", "f8"])
    n = size(r)
    a = draw(r, pool(r, kind), n)
    A, lab = category(r, kind, a)
    filt = gen.bools(r, n) if r.chance(.3) and n else None
    if r.chance(.4) and n:
        rows = gen.bools(r, n)
        A, lab = A[rt.FastArray(rows)], [v for v, q in zip(lab, rows) if q]
        filt = filt[rows] if filt is not None else None
    kw = dict(filter=rt.FastArray(filt)) if filt is not None else {}
    m.note(kind=kind, n=n, filt=filt is not None)
    u = m.call("unique", rt.unique, A, **kw)
    got = [gen.txt(v) for v in plain(u).tolist()]
    seen = {v for i, v in enumerate(lab) if v is not None and (filt is None or filt[i])}
    m.check(len(set(got)) == len(got), "unique(Categorical) lists a value twice")
    m.check(seen <= set(got), f"unique(Categorical) leaves out {seen - set(got)}")
    m.check(set(got) <= {gen.txt(v) for v in plain(A.category_array).tolist()}, "unique(Categorical) invents a value")
    nu = m.call("Categorical.nunique", A.nunique)
    m.check(int(nu) == len({v for v in lab if v is not None}) , f"Categorical.nunique {nu} for {len({v for v in lab if v is not None})} labels (base {A.base_index})")


def missing_of(kind, v):
    if kind in ("date", "dtn"):
        return v == 0
    if kind in ("S", "U"):
        return v == ""
    if kind == "b":
        return False
    return nan(v) if kind[0] == "f" else v == int(gen.invalid(kind))


@case(n=80)
def nunique_count_duplicated(m, r):
    kind = r.pick(KINDS + ["b"])
    n = size(r)
    if kind == "b":
        a = draw(r, [True, False], n)
        A = rt.FastArray(np.array(a, dtype=bool))
    else:
        a = draw(r, pool(r, kind), n)
        if r.chance(.4):
            miss = float("nan") if kind[0] == "f" else "" if kind in "SU" else 0 if kind in ("date", "dtn") else int(gen.invalid(kind))
            a = [miss if r.chance(.15) else v for v in a]
        A = strided(r, build(kind, a))
    m.note(kind=kind, n=n)
    a = [gen.txt(v) for v in plain(A).tolist()]
    key = [("nan",) if nan(v) else v for v in a]
    nu = m.call("nunique", A.nunique)
    m.check(int(nu) == len({k for k, v in zip(key, a) if not missing_of(kind, v)}), f"{kind}.nunique() = {nu} for {sorted(set(map(str, a)))[:8]}", mech="nunique-" + kind)
    if n:
        filt = gen.bools(r, n) if r.chance(.3) else None
        ds = m.call("count", A.count, sorted=r.chance(.5), **({"filter": rt.FastArray(filt)} if filt is not None else {}))
        cnt = {}
        for i, k in enumerate(key):
            if filt is None or filt[i]:
                cnt[k] = cnt.get(k, 0) + 1
        u = [gen.txt(v) for v in plain(ds[list(ds.keys())[0]]).tolist()]
        got = dict(zip([("nan",) if nan(v) else v for v in u], plain(ds.Count).tolist()))
        m.check(len(got) == len(u) and got == cnt, f"{kind}.count: {got} != {cnt}"[:250])
    keep = r.pick(["first", "last", False])
    d = m.call("duplicated", A.duplicated, keep=keep, high_unique=r.chance(.3))
    m.same(plain(d), dup_mask(key, keep), f"{kind}.duplicated(keep={keep})")


def dup_mask(key, keep):
    out = np.ones(len(key), bool)
    if keep is False:
        cnt = {}
        for k in key:
            cnt[k] = cnt.get(k, 0) + 1
        return np.array([cnt[k] > 1 for k in key], bool)
    seen = set()
    rng = range(len(key)) if keep == "first" else range(len(key) - 1, -1, -1)
    for i in rng:
        if key[i] not in seen:
            out[i] = False
            seen.add(key[i])
    return out


@case(n=80)
def dataset_duplicates(m, r):
    n = r.pick([1, 2, r.int(3, 60), r.int(60, 400)])
    k = r.int(1, 3)
    kinds = [r.pick(["i1", "i4", "i8", "u2", "f8", "S", "U", "date", "cat", "b"]) for _ in range(k)]
    cols, arrs = {}, {}
    for j, q in enumerate(kinds):
        p = [True, False] if q == "b" else pool(r, "S" if q == "cat" else q)[: r.int(1, 5)]
        v = draw(r, p, n)
        cols[f"k{j}"] = v
        arrs[f"k{j}"] = rt.Cat(build("S", v)) if q == "cat" else rt.FastArray(np.array(v)) if q == "b" else build(q, v)
    arrs["row"] = rt.FastArray(np.arange(n))
    ds = rt.Dataset(dict(arrs))
    subset = r.pick([list(cols), None, r.pick(list(cols))] if k > 1 else [list(cols), r.pick(list(cols))])
    keys = list(ds.keys()) if subset is None else subset if isinstance(subset, list) else [subset]
    allc = dict(cols, row=list(range(n)))
    key = list(zip(*[allc[c] for c in keys]))
    keep = r.pick(["first", "last", False])
    m.note(kinds=kinds, subset=subset, keep=keep, n=n)
    before = gen.snap(ds)
    c = arrs.get("k0")
    part = None
    if isinstance(c, rt.Categorical) and r.chance(.6):
        part = plain(c.grouping.ifirstgroup).copy()
    d = m.call("Dataset.duplicated", ds.duplicated, subset, keep)
    exp = dup_mask(key, keep)
    m.same(plain(d), exp, f"Dataset.duplicated({keys}, {keep!r})")
    if part is not None:
        m.same(plain(c.grouping.ifirstgroup), part, "Dataset.duplicated changed the grouping of a Categorical column")
    m.check(gen.snap_diff(before, gen.snap(ds)) is None, f"Dataset.duplicated changed the Dataset: {gen.snap_diff(before, gen.snap(ds))}")
    inplace = r.chance(.3)
    out = m.call("drop_duplicates", ds.drop_duplicates, subset, keep=keep, inplace=inplace)
    out = ds if inplace else out
    rows = plain(out.row).astype("i8")
    m.same(np.sort(rows), np.flatnonzero(~exp), f"drop_duplicates({keys}, {keep!r}) kept the wrong rows")
    if keep != "last" and "cat" not in kinds:
        m.same(rows, np.flatnonzero(~exp), f"drop_duplicates({keys}, {keep!r}): order")
    for nm in cols:
        m.same(gen.decode(out[nm]), gen.decode(arrs[nm])[rows], f"drop_duplicates: column {nm}")


@case(n=60)
def search(m, r):
    kind = r.pick(["i1", "i2", "i4", "i8", "u1", "u4", "f4", "f8", "S", "U"])
    p = [v for v in pool(r, kind)]
    a = sorted(draw(r, p, r.int(1, 80)))
    n = r.int(1, 80)
    v = draw(r, p, n)
    if kind not in ("S", "U"):
        f = kind[0] == "f"
        lim = (-1e300, 1e300) if f else (np.iinfo(kind).min + 1, np.iinfo(kind).max - 1)
        v = [x if r.chance(.5) else min(max(x + r.pick([-1, 1, 2]), lim[0]), lim[1]) if not f or np.isfinite(x) else x for x in v]
        if kind == "f4":
            v = [float(np.float32(x)) for x in v]
    side = r.pick(["left", "right"])
    A, V = build(kind, a), build(kind, v)
    m.note(kind=kind, side=side)
    exp = [(bisect.bisect_left if side == "left" else bisect.bisect_right)(a, x) for x in v]
    got = m.call("searchsorted", rt.searchsorted if r.chance(.5) else (lambda x, y, side: x.searchsorted(y, side=side)), A, V, side=side)
    m.same(plain(got).astype("i8"), np.array(exp, "i8"), f"searchsorted({kind}, {side})")
    one = m.call("searchsorted", A.searchsorted, gen.txt(plain(V)[0]) if kind not in "SU" else plain(V)[0], side=side)
    m.check(int(np.asarray(one).reshape(-1)[0]) == exp[0], f"searchsorted({kind}) of a scalar {one} != {exp[0]}")
    perm = r.perm(list(range(len(a))))
    B = build(kind, [a[i] for i in perm])
    sorter = np.argsort(plain(B), kind="stable")
    got = m.call("searchsorted", rt.searchsorted, B, V, side=side, sorter=sorter)
    m.same(plain(got).astype("i8"), np.array(exp, "i8"), f"searchsorted({kind}, sorter)")


@case(n=60)
def sortedness(m, r):
    kind = r.pick(["i1", "i2", "i4", "i8", "u1", "u4", "f4", "f8", "S", "U", "date"])
    a = sorted(draw(r, pool(r, kind), size(r)))
    if len(a) > 1 and r.chance(.6):
        i, j = sorted([r.int(0, len(a) - 1), r.int(0, len(a) - 1)])
        a[i], a[j] = a[j], a[i]
    A = build(kind, a)
    exp = all(a[i] <= a[i + 1] for i in range(len(a) - 1))
    m.check(bool(m.call("issorted", rt.issorted, A)) == exp, f"issorted({kind}) should be {exp}")
    m.check(bool(m.call("FastArray.issorted", A.issorted)) == exp, f"{kind}.issorted() should be {exp}")
    if kind not in ("S", "U", "date") and a:
        lo, hi = sorted(draw(r, a, 2))
        il, ih = r.chance(.5), r.chance(.5)
        got = m.call("between", A.between, lo, hi, include_low=il, include_high=ih)
        m.same(plain(got), np.array([(v >= lo if il else v > lo) and (v <= hi if ih else v < hi) for v in a], bool), f"{kind}.between")


@case(n=30)
def checksums(m, r):
    kind = r.pick(["i1", "i4", "i8", "f8", "S", "U", "date"])
    a = draw(r, pool(r, kind), r.int(1, 300))
    A = build(kind, a)
    B = build(kind, list(a))
    m.check(rt.crc32c(A) == rt.crc32c(B) and rt.crc64(A) == rt.crc64(B) and A.crc == B.crc, "checksums of equal arrays differ")
    m.check(m.call("crc_match", crc_match, [A, B]) is True, "crc_match of equal arrays is False")
    b = list(a)
    i = r.int(0, len(b) - 1)
    alt = [v for v in pool(r, kind) if v != b[i] and (not isinstance(v, str) or len(v) <= A.itemsize // (4 if kind == "U" else 1))]
    if alt:
        b[i] = r.pick(alt)
        C = build(kind, b).astype(A.dtype) if kind in ("S", "U") else build(kind, b)
        m.check(m.call("crc_match", crc_match, [A, C]) is False, f"crc_match of arrays that differ at {i} is True")
