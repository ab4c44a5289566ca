"""C12: lookups (merge_lookup, assoc_index/assoc_copy, map, mbget) fetch the value of the equal key, or invalid."""
import logging
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen, gb

logging.disable(logging.WARNING)
KINDS = ["i1", "i2", "i4", "i8", "u1", "u4", "f4", "f8", "S", "S", "U", "date", "dtn", "cat", "catf", "cati"]


def col(r, kind, idx, null=None):
    """A key column whose values are the images of the integers idx; (array, values, null mask)."""
    n = len(idx)
    z = np.zeros(n, bool) if null is None else null
    if kind in ("S", "U", "cat", "catf"):
        w = [f"w{v}" for v in idx.tolist()]
        s = np.array(w, dtype="S" if kind != "U" else "U") if n else np.array([], dtype="S3" if kind != "U" else "U3")
        if kind in ("S", "U"):
            return rt.FastArray(s, unicode=kind == "U"), w, np.zeros(n, bool)
        if kind == "cat":
            return rt.Cat(s), w, np.zeros(n, bool)
        return rt.Cat(s, filter=~z), [None if q else x for x, q in zip(w, z.tolist())], z.copy()
    if kind == "cati":
        return rt.Cat(idx.astype("i8")), idx.tolist(), np.zeros(n, bool)
    if kind == "date":
        d = (idx + 17000).astype("i4"); d[z] = rt.Date.NAN_DATE
        return rt.Date(d), d.tolist(), z.copy()
    if kind == "dtn":
        d = (idx * 1_000_003 + 1_500_000_000_000_000_000).astype("i8"); d[z] = rt.DateTimeNano.NAN_TIME
        return rt.DateTimeNano(d, from_tz="GMT", to_tz="NYC"), d.tolist(), z.copy()
    v = idx.astype(kind); v[z] = gen.invalid(kind)
    return rt.FastArray(v), v.tolist(), z.copy()


def missing(c, i):
    v = gen.txt(gen.decode(c)[i])
    if isinstance(c, rt.Categorical):
        return v is None
    if isinstance(v, str):
        return v == ""
    if plain(c).dtype.kind == "b":
        return not v
    if isinstance(c, rt.Date) and v == rt.Date.NAN_DATE:
        return True
    if isinstance(c, rt.DateTimeNano) and v == rt.DateTimeNano.NAN_TIME:
        return True
    return bool(gen.is_inv(plain(c))[i])


def fetched(m, out, src, idx, what, cls=True):
    if cls:
        m.check(type(out) is type(src), f"{what}: class {type(out).__name__} instead of {type(src).__name__}")
    d, s = gen.decode(out).tolist(), gen.decode(src).tolist()
    m.check(len(d) == len(idx), f"{what}: {len(d)} values for {len(idx)} rows")
    for j, i in enumerate(idx):
        if i is None:
            if not missing(out, j):
                m.check(False, f"{what}: row {j} has no match but holds {d[j]!r}")
        else:
            a, b = gen.txt(d[j]), gen.txt(s[i])
            if not (a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)):
                m.check(False, f"{what}: row {j} holds {a!r}, the matching row {i} holds {b!r}")
    m.oracles += 1


def tables(r, uniq, nulls=True, kinds=KINDS, k=None):
    nl = r.pick([0, 1, 2, r.int(3, 40), r.int(3, 40), r.int(41, 400)], p=[.03, .07, .1, .4, .2, .2])
    nr = r.pick([0, 1, 2, r.int(3, 40), r.int(3, 40), r.int(41, 400)], p=[.03, .07, .1, .4, .2, .2])
    k = k or r.pick([1, 1, 1, 2, 3])
    L, R, lk, rk = [], [], [], []
    ln, rn = np.zeros(nl, bool), np.zeros(nr, bool)
    card = r.pick([2, 5, 20, 100]) if k == 1 else r.pick([2, 4, 8])
    used = []
    il, ir = [r.g.integers(0, card, nl) for _ in range(k)], [r.g.integers(0, card, nr) for _ in range(k)]
    if uniq:
        seen, rows = set(), []
        for i, t in enumerate(zip(*ir)):
            if t not in seen:
                seen.add(t); rows.append(i)
        ir = [a[rows] if len(rows) else a[:0] for a in ir]
        nr = len(rows)
        rn = np.zeros(nr, bool)
    for q in range(k):
        kind = r.pick(kinds if k == 1 else [x for x in kinds if x != "catf"])
        used.append(kind)
        zl = gen.bools(r, nl, 0.12) if nulls and r.chance(0.5) else np.zeros(nl, bool)
        a, va, na = col(r, kind, il[q], zl)
        kr = kind if kind not in ("catf",) else "cat"
        b, vb, nb = col(r, kr, ir[q], None)
        L.append(a); R.append(b); lk.append(va); rk.append(vb); ln |= na
    lt = list(zip(*lk)) if nl else []
    rtp = list(zip(*rk)) if nr else []
    return L, R, lt, rtp, ln, used, nl, nr


def match(lt, rtp, ln, keep):
    d = {}
    for j, t in enumerate(rtp):
        if keep == "last" or t not in d:
            d[t] = j
    return [None if ln[i] else d.get(t) for i, t in enumerate(lt)]


@case(n=320)
def lookup(m, r):
    keep = r.pick([None, None, "first", "last"])
    L, R, lt, rtp, ln, kinds, nl, nr = tables(r, uniq=keep is None or r.chance(0.3))
    k = len(L)
    lnames = [f"k{i}" for i in range(k)]
    rnames = [f"k{i}" if r.chance(0.6) else f"q{i}" for i in range(k)]
    lc = list(zip(lnames, L)) + [("lid", rt.FastArray(np.arange(nl)))] + [(f"x{i}", gen.column(r, nl)) for i in range(r.int(0, 2))]
    rc = list(zip(rnames, R)) + [("rid", rt.FastArray(np.arange(nr)))] + [(f"y{i}", gen.column(r, nr)) for i in range(r.int(0, 3))]
    over = r.chance(0.3)
    if over:
        lc.append(("v", gen.column(r, nl))); rc.append(("v", gen.column(r, nr)))
    left, right = rt.Dataset(dict(r.perm(lc))), rt.Dataset(dict(r.perm(rc)))
    idx = match(lt, rtp, ln, keep)
    kw = dict(on=[a if a == b else (a, b) for a, b in zip(lnames, rnames)])
    if keep:
        kw["keep"] = keep
    if r.chance(0.3):
        kw["columns_right"] = ["rid"] + [c for c in right.keys() if c != "rid" and r.chance()]
    if r.chance(0.15):
        kw["high_card"] = True
    if r.chance(0.15):
        kw["hint_size"] = 100
    if r.chance(0.25):
        kw["copy"] = False
    style = r.pick(["fn", "method", "inplace", "inplace"])
    need = r.chance(0.15)
    m.note(kinds=kinds, lkeys=lt[:40], rkeys=rtp[:40], kw=kw, style=style, nl=nl, nr=nr, over=over)
    bl, br = gen.snap(left), gen.snap(right)
    lcols = {c: left[c] for c in left.keys()}
    lorder = list(left.keys())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if need:
            args = dict(kw, require_match=True)
            if over:
                args["suffix"] = "_r"
            if any(i is None for i in idx):
                m.raises("merge_lookup[require_match]", left.merge_lookup, right, exc=ValueError, **args)
                m.check(gen.snap_diff(bl, gen.snap(left)) is None, "refused merge_lookup changed the left table")
                return
            m.call("merge_lookup[require_match]", left.merge_lookup, right, **args)
        if over and r.chance(0.3) and "columns_right" not in kw:
            m.raises("merge_lookup overlap", left.merge_lookup, right, exc=ValueError, **kw)
            m.raises("merge_lookup overlap inplace", left.merge_lookup, right, inplace=True, exc=ValueError, **kw)
            m.check(gen.snap_diff(bl, gen.snap(left)) is None, "refused in-place merge_lookup changed the left table")
        if style == "fn":
            out = m.call("rt.merge_lookup", rt.merge_lookup, left, right, **(dict(kw, suffixes=("", "_r")) if over else kw))
        else:
            out = m.call(f"merge_lookup[{style}]", left.merge_lookup, right, inplace=style == "inplace", **(dict(kw, suffix="_r") if over else kw))
    if style == "inplace":
        m.check(out is left, "in-place merge_lookup did not return the table itself")
        m.check(list(out.keys())[:len(lorder)] == lorder, "in-place merge_lookup reordered columns", got=list(out.keys()), was=lorder)
    cr = kw.get("columns_right", list(right.keys()))
    common = [a for a in lnames if a in rnames]
    exp = {c for c in lorder} | {c + "_r" if c in lorder else c for c in cr if c not in common}
    m.check(set(out.keys()) == exp, f"merge_lookup columns", got=sorted(out.keys()), exp=sorted(exp))
    for c in lorder:
        gen.same_col(m, out[c], lcols[c], f"left column {c} after merge_lookup[{style}]")
    for c in cr:
        if c not in common:
            fetched(m, out[c + "_r" if c in lorder else c], right[c], idx, f"merge_lookup[{style}][{c}]")
    m.check(gen.snap_diff(br, gen.snap(right)) is None, "merge_lookup changed the right table")
    if style != "inplace":
        m.check(gen.snap_diff(bl, gen.snap(left)) is None, "merge_lookup changed the left table")


@case(n=80)
def lookup_dups(m, r):
    """Without `keep`, a right key occurring twice is an error, never an arbitrary pick."""
    L, R, lt, rtp, ln, kinds, nl, nr = tables(r, uniq=False, nulls=False)
    k = len(L)
    names = [f"k{i}" for i in range(k)]
    left = rt.Dataset(dict(zip(names, L), lid=rt.FastArray(np.arange(nl))))
    right = rt.Dataset(dict(zip(names, R), rid=rt.FastArray(np.arange(nr))))
    m.note(kinds=kinds, lkeys=lt[:40], rkeys=rtp[:40])
    b = gen.snap(left)
    if len(set(rtp)) < len(rtp):
        inp = r.chance()
        m.raises("merge_lookup[dups]", left.merge_lookup, right, on=names, inplace=inp, exc=ValueError)
        m.check(gen.snap_diff(b, gen.snap(left)) is None, "refused merge_lookup changed the left table")
    else:
        out = m.call("merge_lookup", left.merge_lookup, right, on=names)
        fetched(m, out.rid, right.rid, match(lt, rtp, ln, None), "merge_lookup[rid]")


@case(n=160)
def assoc(m, r):
    L, R, lt, rtp, ln, kinds, nl, nr = tables(r, uniq=False, nulls=False, kinds=["i1", "i2", "i4", "i8", "u1", "u4", "f4", "f8", "S", "S", "U", "date", "dtn", "cat", "cati"], k=None)
    if nl == 0 or nr == 0 or (len(L) > 1 and any(k.startswith("cat") for k in kinds)):
        m.trivial = True
        return
    k1, k2 = (L[0], R[0]) if len(L) == 1 else (L, R) if r.chance() else (tuple(L), tuple(R))
    m.note(kinds=kinds, lkeys=lt[:40], rkeys=rtp[:40])
    idx = match(lt, rtp, ln, "first")
    got = m.call("assoc_index", rt.assoc_index, k1, k2)
    gi = [None if z else int(v) for v, z in zip(plain(got).tolist(), gen.is_inv(plain(got)).tolist())]
    m.check(gi == idx, "assoc_index", got=gi[:40], exp=idx[:40])
    mask, gi2 = m.call("ismember", rt.ismember, k1, k2)
    m.same(plain(mask), np.array([i is not None for i in idx], dtype=bool), "ismember mask")
    if r.chance():
        ds = gen.dataset(r, nr)
        out = m.call("assoc_copy[ds]", rt.assoc_copy, k1, k2, ds)
        for c in ds.keys():
            fetched(m, out[c], ds[c], idx, f"assoc_copy[{c}]")
    else:
        kind = r.pick(["num", "bool", "S", "U", "f8", "i8", "date", "dtn", "span", "cat"])
        arr = gen.column(r, nr, kind)
        m.note(arr=kind)
        out = m.call("assoc_copy", rt.assoc_copy, k1, k2, arr)
        fetched(m, out, arr, idx, f"assoc_copy({kind})", cls=True)


@case(n=160)
def mapping(m, r):
    """FastArray.map / Categorical.map with a dict or an array of new values."""
    n = r.size(big=0)
    kind = r.pick(["i1", "i4", "i8", "f8", "S", "U", "cat", "cat0", "catf", "cati"])
    card = r.pick([1, 3, 8, 30])
    ints = r.g.integers(0, card, n)
    filt = None
    if kind == "cat0":
        a = rt.Cat(np.array([f"w{v}" for v in ints.tolist()], dtype="S") if n else np.array([], dtype="S3"), base_index=0)
        v = [f"w{x}" for x in ints.tolist()]
    elif kind == "catf":
        filt = gen.bools(r, n, 0.7)
        a, v, _ = col(r, "catf", ints, ~filt)
    else:
        a, v, _ = col(r, kind, ints)
    if n == 0 and kind.startswith("cat"):
        m.trivial = True
        return
    keys = sorted(set(v) - {None}, key=str)
    if not keys:
        m.trivial = True
        return
    full = r.chance(0.4)
    use = keys if full else r.subset(keys, 1)
    to = r.pick(["int", "float", "str", "str"])
    vals = {"int": lambda i: i * 7 - 20, "float": lambda i: i / 4 - 1, "str": lambda i: f"v{i}" * r.int(1, 2)}[to]
    extra = [] if full else r.subset(["w900", "w901"] if isinstance(keys[0], str) else ([100, 101] if kind != "f8" else [100.0, 101.5]), 0, 2)
    mp = {k: vals(i) for i, k in enumerate(r.perm(list(use) + extra))}
    m.note(kind=kind, a=v[:40], mp=mp)
    got = m.call(f"map[{'cat' if kind.startswith('cat') else 'arr'}]", a.map, mp)
    d = [gen.txt(x) for x in plain(got).tolist()]
    m.check(len(d) == n, "map: length")
    for i, k in enumerate(v):
        if k in mp:
            ok = d[i] == mp[k]
        elif to == "str":
            ok = d[i] in ("", "Inv", "Filtered")
        else:
            ok = bool(gen.is_inv(plain(got))[i])
        if not ok:
            m.check(False, f"map: {k!r} became {d[i]!r}, mapping says {mp.get(k, 'missing')!r}")
    m.oracles += 1
    if kind.startswith("cat"):
        cats = [gen.txt(x) for x in plain(a.category_array).tolist()]
        new = rt.FastArray(np.array([vals(i) for i in range(len(cats))], dtype="S" if to == "str" else None))
        g2 = m.call("Categorical.map[array]", a.map, new)
        d2 = [gen.txt(x) for x in plain(g2).tolist()]
        nv = [gen.txt(x) for x in plain(new).tolist()]
        pos = {c: i for i, c in enumerate(cats)}
        for i, k in enumerate(v):
            if k is None:
                ok = d2[i] in ("", "Inv", "Filtered") if to == "str" else bool(gen.is_inv(plain(g2))[i])
            else:
                ok = d2[i] == nv[pos[k]]
            if not ok:
                m.check(False, f"Categorical.map(array): row {i} {k!r} became {d2[i]!r}")
        m.oracles += 1
        if to != "str" and not full and r.chance():
            iv = -777
            g3 = m.call("Categorical.map[invalid=]", a.map, mp, invalid=iv)
            for i, k in enumerate(v):
                e = mp.get(k, iv)
                if plain(g3)[i] != e and not (k is None and gen.is_inv(plain(g3))[i]):
                    m.check(False, f"Categorical.map(invalid={iv}): row {i} {k!r} became {plain(g3)[i]!r}, expected {e!r}")
            m.oracles += 1


@case(n=200)
def mbget(m, r):
    n = r.pick([1, 2, r.int(3, 50), r.int(51, 400)])
    k = r.size()
    kind = r.pick(["num", "num", "num", "S", "U", "date", "dtn", "span", "bool"])
    a = gen.column(r, n, kind)
    dt = r.pick(["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"])
    hi = min(np.iinfo(dt).max, n + r.pick([0, 2, 40]))
    lo = 0 if dt[0] == "u" else max(np.iinfo(dt).min, r.pick([0, -1, -n, -n - 3]))
    ix = r.g.integers(lo, hi + 1, k).astype(dt)
    if r.chance(0.3) and k:
        ix[r.g.integers(0, k, max(1, k // 5))] = gen.invalid(dt)
    m.note(kind=kind, a=a, ix=ix)
    if r.chance():
        gen.dirty(r, k)
    src = a[::1]
    if r.chance(0.2):                              # strided sources and indices
        big = rt.FastArray(np.repeat(ix, 2)) if k else rt.FastArray(ix)
        ixx = big[::2]
    else:
        ixx = rt.FastArray(ix)
    out = m.call("mbget", rt.mbget, src, ixx)
    idx = [None if v >= n or v < -n else (v if v >= 0 else v + n) for v in ix.tolist()]
    fetched(m, out, a, idx, f"mbget({kind}, {dt})")
    if kind == "num" and r.chance():
        d = 3
        out = m.call("mbget[d]", rt.mbget, src, ixx, d)
        e = np.array([plain(a)[i] if i is not None else np.array(d).astype(plain(a).dtype) for i in idx], dtype=plain(a).dtype)
        m.same(plain(out), e, "mbget with a default")
    got = m.call("a[idx]", lambda: a[ixx]) if all(i is not None for i in idx) else None
    if got is not None:
        fetched(m, got, a, idx, f"fancy indexing ({kind}, {dt})")


@case(n=10, thorough=4)
def large(m, r):
    """Lookups beyond the threading and index-width limits."""
    nl, nr = r.pick([(150000, 40000), (300, 70000), (70000, 300)])
    perm = r.g.permutation(nr * 2)[:nr]
    lk = r.g.integers(0, nr * 2, nl)
    kind = r.pick(["i4", "i8", "S", "f8"])
    mk = (lambda a: rt.FastArray(np.char.add("k", a.astype(str)).astype("S"))) if kind == "S" else (lambda a: rt.FastArray(a.astype(kind)))
    left, right = rt.Dataset({"k": mk(lk), "lid": np.arange(nl)}), rt.Dataset({"k": mk(perm), "val": perm * 3})
    m.note(nl=nl, nr=nr, kind=kind)
    out = m.call("merge_lookup[large]", left.merge_lookup, right, on="k")
    exp = np.where(np.isin(lk, perm), lk * 3, np.iinfo("i8").min)
    m.same(plain(out.val), exp, "merge_lookup of a large table")
    m.same(plain(out.lid), np.arange(nl), "left rows of a large merge_lookup")
    ac = m.call("assoc_copy[large]", rt.assoc_copy, left.k, right.k, right.val)
    m.same(plain(ac), exp, "assoc_copy of a large table")
