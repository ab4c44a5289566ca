"""C09: a Categorical denotes exactly the values it was built from, whatever view of it is read."""
import enum
import logging
import numpy as np
import pandas as pd
import riptable as rt
from rv.core import case, plain
from rv import gen, gb

logging.disable(logging.WARNING)


def obj(lst):
    out = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        out[i] = v
    return out


def label_eq(m, got, exp, what, mech=None):
    """Lists of labels (None = invalid)."""
    m.check(len(got) == len(exp), f"{what}: length {len(got)} != {len(exp)}")
    for i, (a, b) in enumerate(zip(got, exp)):
        ok = a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)
        if not ok:
            m.check(False, f"{what}: row {i}: {a!r} != {b!r}", mech=mech)
    m.oracles += 1


def norm(vals):
    return [gen.txt(v) if not isinstance(v, tuple) else tuple(gen.txt(x) for x in v) for v in vals]


def build(m, r, n=None):
    """(Categorical, expected labels with None for invalid, kind)"""
    n = r.pick([1, 2, 3, r.int(4, 40), r.int(4, 40), r.int(41, 300)]) if n is None else n
    kind = r.pick(["str", "str", "str", "num", "float", "date", "dtn", "codes", "codes", "codes0", "strcats", "enum", "intenum", "multi", "multi", "dict", "pandas", "matlab", "big", "cat", "numcats"])
    kw = {}
    if kind in ("str", "num", "float", "date", "dtn", "multi", "dict", "big"):
        if r.chance(0.35):
            kw["ordered"] = r.chance()
        if r.chance(0.2):
            kw["lex"] = True
            kw.pop("ordered", None)
    filt = gen.bools(r, n, 0.7) if r.chance(0.3) and kind in ("str", "num", "float", "date", "multi", "dict", "strcats", "codes") else None
    if filt is not None:
        kw["filter"] = filt
    if kind in ("str", "num") and filt is None and r.chance(0.25):
        kw["base_index"] = 0
        kw.pop("lex", None)
    if kind == "str":
        k = r.pick(["S", "U"])
        w = gen.words(r, n, k)
        if r.chance(0.3):
            kw["unicode"] = True
        lab = norm(w.tolist())
        if any(ord(c) > 127 for x in lab for c in x) and k == "U":
            kw["unicode"] = True
        src = w.tolist() if r.chance(0.3) and k == "U" else rt.FastArray(w, unicode=True) if k == "U" else w
    elif kind == "num":
        w = gen.num(r, n, r.pick(["i4", "i8", "u1", "i2", "i1", "u4"]), inv=0, card=r.int(1, 12))
        lab, src = w.tolist(), rt.FastArray(w)
    elif kind == "float":
        w = gen.num(r, n, r.pick(["f8", "f4"]), inv=0, card=r.int(1, 8))
        lab, src = w.tolist(), rt.FastArray(w)
    elif kind == "date":
        w = gen.dates(r, n, 0, card=r.int(1, 8))
        lab, src = w.tolist(), rt.Date(w)
    elif kind == "dtn":
        w = gen.nanos(r, n, 0, card=r.int(1, 8))
        lab, src = w.tolist(), rt.DateTimeNano(w, from_tz="GMT", to_tz="NYC")
    elif kind == "big":
        card = r.pick([100, 126, 127, 128, 129, 255, 256, 300])
        pool = [f"k{i:04d}" for i in range(card)]
        lab = pool + [r.pick(pool) for _ in range(r.int(0, 20))]
        lab = r.perm(lab)
        src = np.array(lab)
        if r.chance(0.3) and "lex" not in kw:
            kw["base_index"] = 0
    elif kind in ("codes", "codes0", "numcats"):
        k = r.int(1, 7)
        base = 0 if kind == "codes0" else 1
        if kind == "numcats":
            cats = r.perm([5, 10, -3, 22, 7, 100, 0])[:k]
        else:
            cats = r.perm(["red", "green", "blue", "cyan", "pink", "grey", "teal"])[:k]
            if r.chance(0.15):
                k = r.pick([126, 127, 128 - base])
                cats = r.perm([f"c{i}" for i in range(k)])
        codes = r.g.integers(0, k + base, n).astype(r.pick(["i1", "i2", "i4", "i8"]))
        if r.chance(0.2):
            codes[r.int(0, n - 1)] = k + base - 1
        lab = [None if base and c == 0 else cats[c - base] for c in codes.tolist()]
        kw["base_index"] = base
        src = rt.FastArray(codes)
        if r.chance():
            cats = rt.FastArray(np.array(cats))
        c = m.call("Cat(codes,cats)", rt.Cat, src, cats, **kw)
        if filt is not None:
            lab = [x if f else None for x, f in zip(lab, filt)]
        return c, lab, kind
    elif kind == "strcats":
        pool = r.perm(["red", "green", "blue", "cyan", "pink"])
        k = r.int(1, 5)
        cats = pool[:k]
        lab = [r.pick(cats) for _ in range(n)]
        src = np.array(lab) if r.chance() else lab
        c = m.call("Cat(strs,cats)", rt.Cat, src, cats, **kw)
        if filt is not None:
            lab = [x if f else None for x, f in zip(lab, filt)]
        return c, lab, kind
    elif kind in ("enum", "intenum"):
        keys = r.subset([10, 20, 30, -5, 7, 1, 0, 1000000], 1, 6)
        names = r.perm(["xx", "yy", "zz", "ww", "vv", "uu", "tt", "ss"] if kind == "intenum" or r.chance(0.8) else ["é", "Ωx", "zz", "ww", "ñ", "uu", "tt", "日本"])
        mp = {k: names[i] for i, k in enumerate(keys)}
        codes = [r.pick(keys) for _ in range(n)]
        lab = [mp[c] for c in codes]
        if kind == "intenum":
            mapping = enum.IntEnum("E", {v: k for k, v in mp.items()})
        else:
            mapping = mp if r.chance() else {v: k for k, v in mp.items()}
        c = m.call("Cat(codes,mapping)", rt.Cat, np.array(codes, dtype=np.int64 if r.chance() else np.int32), mapping)
        return c, lab, kind
    elif kind in ("multi", "dict"):
        ks = [gb.key(r, n, r.pick(["i4", "S", "U", "f8", "date", "u1"]), card=r.int(1, 4)) for _ in range(r.int(2, 3))]
        lab = norm(list(zip(*[v for _, v in ks])))
        arrs = [a for a, _ in ks]
        if any(isinstance(a, rt.FastArray) and a.dtype.kind == "U" for a in arrs):
            kw["unicode"] = True
        src = arrs if kind == "multi" else {f"key{i}": a for i, a in enumerate(arrs)}
    elif kind == "pandas":
        vals = gen.words(r, n, "U").tolist()
        if r.chance(0.6):
            vals = [None if r.chance(0.2) else v for v in vals]
        if all(v is None for v in vals):
            vals[0] = "a"
        pc = pd.Categorical(vals)
        c = m.call("Cat(pandas)", rt.Cat, pc)
        return c, vals, kind
    elif kind == "matlab":
        k = r.int(1, 5)
        cats = r.perm(["red", "green", "blue", "cyan", "pink"])[:k]
        codes = r.g.integers(0, k + 1, n).astype(np.float64)
        c = m.call("Cat(matlab)", rt.Cat, rt.FastArray(codes), cats, from_matlab=True)
        return c, [None if x == 0 else cats[int(x) - 1] for x in codes.tolist()], kind
    elif kind == "cat":
        c0, lab, k0 = build(m, r, n)
        c = m.call("Cat(Cat)", rt.Cat, c0)
        return c, lab, "cat:" + k0
    c = m.call("Cat(values)", rt.Cat, src, **kw)
    if filt is not None:
        lab = [x if f else None for x, f in zip(lab, filt)]
    return c, lab, kind


def wellformed(m, c, what):
    codes = plain(c)
    if c.isenum:
        return
    k = len(list(c.category_dict.values())[0])
    base = int(c.base_index)
    ok = (codes >= 0) & (codes < k + base)
    m.check(bool(ok.all()), f"{what}: codes {codes[~ok][:5]} refer to no category (of {k}, base {base})")


def is_inv_label(v, c):
    """Does an expanded value denote 'no category'?"""
    if isinstance(v, tuple):
        return all(is_inv_label(x, c) for x in v)
    if isinstance(v, str):
        return v in ("Filtered", "")
    if isinstance(v, bytes):
        return v in (b"Filtered", b"")
    return v != v or v in SENTINELS


SENTINELS = {0}
for _t in ("i1", "i2", "i4", "i8"):
    SENTINELS.add(int(np.iinfo(_t).min))
    SENTINELS.add(int(np.iinfo("u" + _t[1:]).max))


def expanded(c):
    e = c.expand_array
    if isinstance(e, tuple):
        return norm(list(zip(*[plain(x).tolist() for x in e])))
    return norm(plain(e).tolist())


def same_expanded(m, vals, lab, c, what):
    m.check(len(vals) == len(lab), f"{what}: {len(vals)} values for {len(lab)} rows")
    for i, (v, e) in enumerate(zip(vals, lab)):
        if e is None:
            v2 = v if not isinstance(v, tuple) else v
            m.check(is_inv_label(v2, c) or v2 == 0, f"{what}: row {i} is invalid but expands to {v!r}")
        else:
            m.check(v == e, f"{what}: row {i}: {v!r} != {e!r}")


@case(n=2500)
def construct(m, r):
    c, lab, kind = build(m, r)
    n = len(lab)
    m.note(kind=kind, n=n, codes=plain(c), lab=[str(x) for x in lab[:40]])
    what = f"Cat[{kind}]"
    m.check(len(c) == n, f"{what}: length {len(c)} != {n}")
    wellformed(m, c, what)
    label_eq(m, gen.cat_labels(c).tolist(), lab, what)
    if not c.isenum:
        cl = gb.label_list(list(c.category_dict.values()))
        m.check(len(set(cl)) == len(cl), f"{what}: repeated categories {cl[:10]}")
        same_expanded(m, expanded(c), lab, c, f"{what}.expand_array")
        ed = c.expand_dict
        vals = norm(list(zip(*[plain(x).tolist() for x in ed.values()])))
        vals = [v[0] if len(v) == 1 else v for v in vals]
        same_expanded(m, vals, lab, c, f"{what}.expand_dict")
    else:
        m.same(plain(c.expand_array), plain(c), f"{what}.expand_array of a mapping")
    # scalar access
    for i in {0, n - 1, r.int(0, n - 1), -1}:
        v = m.call("c[i]", lambda: c[i])
        e = lab[i]
        if e is None:
            m.check(isinstance(v, str) and v == "Filtered", f"{what}[{i}]: {v!r} for an invalid row")
        else:
            if kind in ("date", "dtn") or isinstance(e, tuple):
                v = tuple(gen.txt(plain(np.asarray(x)).item()) if not isinstance(x, (str, bytes)) else gen.txt(x) for x in v) if isinstance(v, tuple) else v
                if isinstance(e, tuple):
                    m.check(isinstance(v, tuple) and all(a == b for a, b in zip(v, e)), f"{what}[{i}]: {v!r} != {e!r}")
            elif "date" not in kind and "dtn" not in kind:
                m.check(v == e, f"{what}[{i}]: {v!r} != {e!r}")
    # masks
    m.same(plain(c.isfiltered()), np.array([x is None for x in lab]), f"{what}.isfiltered") if not c.isenum and int(c.base_index) == 1 else None
    # strings
    if kind in ("str", "codes", "strcats", "pandas", "matlab", "multi", "dict", "num", "big", "codes0", "enum", "intenum"):
        if c.ismultikey:  # documented for byte strings: other keys may be refused
            s, err = m.attempt("as_string_array", lambda: c.as_string_array)
        else:
            s, err = m.call("as_string_array", lambda: c.as_string_array), None
        s = [gen.txt(x) for x in plain(s).tolist()] if err is None else None
        for i, e in enumerate(lab if s is not None else []):
            if e is None:
                m.check(s[i] == "Filtered" or (c.ismultikey and s[i].replace("Filtered", "").strip("_") in ("", "Inv")), f"{what}.as_string_array: row {i}: {s[i]!r} for an invalid row")
            elif isinstance(e, str):
                m.check(s[i] == e, f"{what}.as_string_array: row {i}: {s[i]!r} != {e!r}")
            elif isinstance(e, (int, np.integer)) and not c.isenum:
                m.check(s[i] == str(e), f"{what}.as_string_array: row {i}: {s[i]!r} != {e!r}")
            elif isinstance(e, tuple) and all(isinstance(x, (str, int)) for x in e):
                m.check(s[i] == "_".join(str(x) for x in e), f"{what}.as_string_array: row {i}: {s[i]!r} != {e!r}")
    sk, err = m.attempt("as_singlekey", c.as_singlekey)
    if err is None and not c.ismultikey and "date" not in kind and "dtn" not in kind:
        label_eq(m, gen.cat_labels(sk).tolist(), lab, f"{what}.as_singlekey")
    elif err is None and c.ismultikey and all(isinstance(x, (str, int)) for e in lab if e for x in e):
        label_eq(m, gen.cat_labels(sk).tolist(), [None if e is None else "_".join(str(x) for x in e) for e in lab], f"{what}.as_singlekey")
    # ordered categories are sorted
    if kind in ("str", "num", "float", "big") and c.ordered and not c.isenum:
        cl = gb.label_list(list(c.category_dict.values()))
        m.check(cl == sorted(cl, key=gb.okey), f"{what}: ordered but categories are {cl[:8]}")


def indexer(r, n):
    k = r.pick(["slice", "slice", "bool", "fancy", "fancy32", "list", "npbool"])
    if k == "slice":
        a, b = r.pick([None, 0, 1, n // 2, -1, -3]), r.pick([None, n, n - 1, n // 2, -1, n + 5])
        s = r.pick([None, 1, 2, 3, -1, -2])
        return slice(a, b, s), np.arange(n)[slice(a, b, s)]
    if k in ("bool", "npbool"):
        f = gen.bools(r, n)
        return (rt.FastArray(f) if k == "bool" else f), np.flatnonzero(f)
    idx = r.g.integers(-n, n, r.int(0, 2 * n)).astype("i4" if k == "fancy32" else "i8")
    if k == "list":
        return idx.tolist() if len(idx) else rt.FastArray(idx), idx.astype(int)
    return (rt.FastArray(idx) if r.chance() else idx), idx.astype(int)


@case(n=1500)
def index_and_copy(m, r):
    c, lab, kind = build(m, r)
    n = len(lab)
    m.note(kind=kind, n=n, codes=plain(c))
    before = gen.snap(c)
    cur, cl = c, obj(lab)
    for _ in range(r.int(1, 3)):
        k = len(cl)
        if k == 0:
            break
        ix, pos = indexer(r, k)
        m.note(ix=ix)
        cur = m.call("c[index]", lambda: cur[ix])
        cl = cl[pos]
        m.check(isinstance(cur, rt.Categorical), f"Cat[{kind}][index] is {type(cur)}")
        label_eq(m, gen.cat_labels(cur).tolist(), cl.tolist(), f"Cat[{kind}][{type(ix).__name__}]")
        wellformed(m, cur, f"Cat[{kind}][index]")
        if not cur.isenum and len(cl):
            same_expanded(m, expanded(cur), cl.tolist(), cur, f"Cat[{kind}][index].expand_array")
    for nm, f in (("copy", lambda: c.copy()), ("copy(deep=False)", lambda: c.copy(deep=False)), ("Cat(c)", lambda: rt.Cat(c)), ("np.copy", lambda: c.copy().copy())):
        d = m.call(nm, f)
        label_eq(m, gen.cat_labels(d).tolist(), lab, f"Cat[{kind}].{nm}")
        m.check(d.ordered == c.ordered and d.base_index == c.base_index, f"{nm}: ordered/base differ")
    # a changed deep copy does not change the original
    d = c.copy()
    if n and not c.isenum and int(c.base_index) == 1:
        m.call("setitem", lambda: d.__setitem__(slice(None), 0))
        m.check(all(x is None for x in gen.cat_labels(d).tolist()), f"Cat[{kind}] assigned 0 is not filtered everywhere")
    x = gen.snap_diff(before, gen.snap(c))
    m.check(x is None, f"Cat[{kind}] changed by indexing or copying: {x}")
    it = [v for v in c]
    m.check(len(it) == n, "iteration length")
    for i, (v, e) in enumerate(zip(it, lab)):
        if isinstance(e, str):
            m.check(gen.txt(v) == e, f"iteration: row {i}: {v!r} != {e!r}")


@case(n=1800)
def compare(m, r):
    """==, !=, isin, c['label'] against the labels."""
    c, lab, kind = build(m, r)
    n = len(lab)
    pool = sorted({x for x in lab if x is not None}, key=str)
    m.note(kind=kind, n=n, codes=plain(c), lab=[str(x) for x in lab[:40]])
    if "date" in kind or "dtn" in kind or "float" in kind:
        return
    strs = all(isinstance(x, str) for x in pool)
    nums = all(isinstance(x, int) for x in pool)
    if not pool:
        return
    v = r.pick(pool)
    alien = "nosuch" if strs else 987654 if nums else None
    what = f"Cat[{kind}]"
    arg = v.encode("utf-8") if isinstance(v, str) and r.chance(0.3) and not c.isenum else v
    exp = np.array([x == v for x in lab])
    if strs or (nums and not c.isenum) or c.ismultikey:
        m.same(plain(m.call("==", lambda: c == arg)), exp, f"{what} == {v!r}")
        m.same(plain(m.call("!=", lambda: c != arg)), ~exp, f"{what} != {v!r}")
    if alien is not None and not c.isenum:
        a = m.call("==", lambda: c == alien)
        m.same(plain(a), np.zeros(n, bool), f"{what} == a value that is no category")
        a = m.call("!=", lambda: c != alien)
        m.same(plain(a), np.ones(n, bool), f"{what} != a value that is no category")
    if strs and not c.ismultikey:
        m.same(plain(m.call("c[label]", lambda: c[v])), exp, f"{what}[{v!r}]")
    if not c.ismultikey and not c.isenum:
        sub = r.subset(pool, 1) + ([alien] if r.chance(0.4) else [])
        e2 = np.array([x is not None and x in sub for x in lab])
        form = r.pick(["list", "array", "set", "cat", "fa"])
        arg = sub if form == "list" else np.array(sub) if form == "array" else set(sub) if form == "set" else rt.FastArray(np.array(sub)) if form == "fa" else rt.Cat(np.array(sub))
        if form == "cat" and len(sub) != 1 and nums:
            arg, form = sub, "list"
        if form != "cat":
            m.same(plain(m.call("isin", c.isin, arg)), e2, f"{what}.isin({form} {sub})")
        if strs and form == "list":
            m.same(plain(m.call("c[list]", lambda: c[sub])), e2, f"{what}[list of labels]")
    if c.isenum and strs:
        sub = r.subset(pool, 1)
        if len(sub) == 1:
            m.same(plain(m.call("isin", c.isin, sub)), np.array([x in sub for x in lab]), f"{what}.isin(list)")
    # another Categorical, same length, other category order
    if strs and not c.isenum and not c.ismultikey and n:
        lab2 = [r.pick(pool + ["other"]) if r.chance(0.6) else (x or pool[0]) for x in lab]
        c2 = rt.Cat(rt.FastArray(np.array(lab2), unicode=True), unicode=True)
        if c.category_mode == c2.category_mode and int(c.base_index) == 1:
            e3 = np.array([x == y for x, y in zip(lab, lab2)])
            m.same(plain(m.call("==Cat", lambda: c == c2)), e3, f"{what} == Categorical")
            m.same(plain(m.call("!=Cat", lambda: c != c2)), ~e3, f"{what} != Categorical")


@case(n=800)
def bins(m, r):
    """from_bin/from_category, categories(), unique_count, nunique, unique, sorting."""
    c, lab, kind = build(m, r)
    n = len(lab)
    if not n:
        return
    m.note(kind=kind, n=n, codes=plain(c))
    what = f"Cat[{kind}]"
    codes = plain(c).tolist()
    i = r.int(0, n - 1)
    simple = "date" not in kind and "dtn" not in kind
    if lab[i] is not None and simple:
        v = m.call("from_bin", c.from_bin, codes[i])
        v = tuple(gen.txt(plain(np.asarray(x)).item() if not isinstance(x, (str, bytes)) else x) for x in v) if isinstance(v, tuple) else gen.txt(v)
        m.check(v == lab[i], f"{what}.from_bin({codes[i]}) = {v!r} != {lab[i]!r}")
        if "date" not in kind and not (isinstance(lab[i], tuple) and any(isinstance(x, float) for x in lab[i])) and "float" not in kind:
            if not isinstance(lab[i], tuple) or not any(type(a).__name__ == "Date" for a in c.category_dict.values()):
                b = m.call("from_category", c.from_category, lab[i])
                m.check(int(b) == codes[i], f"{what}.from_category({lab[i]!r}) = {b!r} != {codes[i]}")
    used = {x for x in lab if x is not None}
    if not c.isenum:
        k = len(list(c.category_dict.values())[0])
        m.check(int(c.unique_count) == k, f"{what}.unique_count {c.unique_count} != {k}")
    nu = m.call("nunique", c.nunique)
    m.check(int(nu) == len(used), f"{what}.nunique() = {nu} != {len(used)}", mech="nunique")
    if not c.ismultikey and not c.isenum and simple:
        u = m.call("unique", c.unique)
        ul = gen.cat_labels(u).tolist() if isinstance(u, rt.Categorical) else norm(plain(u).tolist())
        m.check(len(set(map(str, ul))) == len(ul), f"{what}.unique() repeats: {ul[:8]}")
        m.check({str(x) for x in ul if x is not None and x != "Filtered"} - {str(gen.invalid(np.dtype('i8')))} >= {str(x) for x in used} or not used, f"{what}.unique() {ul[:8]} misses {used}")
    if not c.ismultikey and not c.isenum and not (kind.startswith("cat:") and False):
        idx = plain(m.call("argsort", c.argsort))
        m.check(sorted(idx.tolist()) == list(range(n)), f"{what}.argsort is not a permutation")
        cs = plain(c)[idx]
        m.check(bool((np.diff(cs.astype(np.int64)) >= 0).all()), f"{what}.argsort does not order by category")
        s = m.call("sort", lambda: rt.sort(c) if False else c[idx])
        label_eq(m, gen.cat_labels(s).tolist(), [lab[j] for j in idx], f"{what}[argsort]")
    f = gen.bools(r, n)
    d, err = (m.call("set_valid", c.set_valid, f), None) if not c.isenum and int(c.base_index) == 1 else (None, 1)
    if err is None:
        label_eq(m, gen.cat_labels(d).tolist(), [x if k else None for x, k in zip(lab, f)], f"{what}.set_valid")
        if not d.ismultikey:
            left = {x for x, k in zip(lab, f) if k and x is not None}
            m.check({gen.txt(x) for x in plain(d.category_array).tolist()} == left, f"{what}.set_valid: categories {plain(d.category_array).tolist()[:8]} != {sorted(map(str, left))[:8]}")


@case(n=1200)
def assign(m, r):
    """Element assignment through every kind of index changes exactly those rows."""
    kind = r.pick(["str", "codes", "num", "enum"])
    n = r.pick([1, 2, r.int(3, 40)])
    if kind == "str":
        lab = gen.words(r, n, "U", pool=gen.WORDS[:8]).tolist()
        c = rt.Cat(np.array(lab), ordered=r.chance())
    elif kind == "codes":
        cats = r.perm(["red", "green", "blue", "cyan"])
        codes = r.g.integers(0, 5, n).astype("i1")
        lab = [None if x == 0 else cats[x - 1] for x in codes.tolist()]
        c = rt.Cat(codes, cats)
    elif kind == "num":
        lab = gen.num(r, n, "i4", inv=0, card=5, lo=100, hi=1000).tolist()
        c = rt.Cat(rt.FastArray(np.array(lab, dtype=np.int32)))
    else:
        mp = {1: "xx", 5: "yy", 9: "zz"}
        codes = [r.pick(list(mp)) for _ in range(n)]
        lab = [mp[x] for x in codes]
        c = rt.Cat(np.array(codes), mp)
    m.note(kind=kind, n=n, lab=lab[:40])
    pool = sorted({x for x in lab if x is not None}, key=str)
    if kind == "codes":
        pool = cats
    if not pool:
        return
    other = c.copy() if r.chance(0.5) else None
    olab = list(lab)
    src = c[:]            # shares nothing observable after assignment? judged below only for `other`
    for _ in range(r.int(1, 4)):
        ix, pos = indexer(r, n) if r.chance(0.7) else ((lambda i: (i, np.array([i])))(r.int(-n, n - 1)))
        if isinstance(ix, list):
            ix = np.array(ix, dtype=int)
        how = r.pick(["label", "code", "cat", "zero"]) if kind != "enum" else r.pick(["label", "code"])
        v = r.pick(pool)
        if how == "label" and kind != "num":
            m.call("c[ix]=label", lambda: c.__setitem__(ix, v))
        elif how in ("label", "code"):
            code = int(m.call("from_category", c.from_category, v))
            m.call("c[ix]=code", lambda: c.__setitem__(ix, code))
        elif how == "zero":
            m.call("c[ix]=0", lambda: c.__setitem__(ix, 0))
            v = None
        else:
            if np.isscalar(ix):
                continue
            vals = [r.pick(pool) for _ in range(len(pos))]
            if not len(pos):
                continue
            if isinstance(ix, np.ndarray) and ix.dtype.kind != "b" and len(set((pos % n).tolist())) != len(pos):
                continue
            src2 = c.copy()
            code = [int(c.from_category(x)) for x in vals]
            val = rt.FastArray(np.array(code)).astype(plain(c).dtype)
            m.call("c[ix]=codes", lambda: c.__setitem__(ix, val))
            for p_, x in zip(pos, vals):
                lab[p_] = x
            label_eq(m, gen.cat_labels(c).tolist(), lab, f"Cat[{kind}] after assigning an array of codes")
            continue
        for p_ in pos:
            lab[p_] = v
        label_eq(m, gen.cat_labels(c).tolist(), lab, f"Cat[{kind}] after c[{type(ix).__name__}] = {how}")
        if not c.isenum:
            same_expanded(m, expanded(c), lab, c, "expand_array after assignment")
        cnt = m.call("count", c.count)
        got = dict(zip(gb.label_list([cnt[k] for k in cnt.label_get_names()]), plain(cnt["Count"]).tolist()))
        want = {}
        for x in lab:
            if x is not None:
                want[x] = want.get(x, 0) + 1
        m.check({k: x for k, x in got.items() if x} == want, f"Cat[{kind}].count() after assignment {got} != {want}")
    if other is not None:
        label_eq(m, gen.cat_labels(other).tolist(), olab, "an earlier copy after assignment to the original")
    if kind == "str" and n:
        e = m.raises("c[0]='new'", lambda: c.__setitem__(0, "brand_new"))
        label_eq(m, gen.cat_labels(c).tolist(), lab, "after a rejected assignment")


@case(n=600)
def assign_categorical(m, r):
    """Assigning from another Categorical with the same or different category list keeps the labels."""
    n = r.int(1, 30)
    kind = r.pick(["str", "str", "num", "multi"])
    pool0 = {"str": gen.WORDS[:6], "num": [1, 2, 3, 4, 10, 20], "multi": [("a", 1), ("a", 2), ("b", 1), ("c", 3)]}[kind]

    def make(labs, **kw):
        if kind == "multi":
            return rt.Cat([np.array([x[0] for x in labs]), np.array([x[1] for x in labs])], **kw)
        return rt.Cat(np.array(labs), **kw)

    def base(k):
        return {"base_index": 0} if kind != "multi" and r.chance(0.2) else {}

    lab = [r.pick(pool0) for _ in range(n)]
    pool = sorted(set(lab))
    mask = gen.bools(r, n, 0.5)
    k = int(mask.sum())
    if not k:
        return
    how = r.pick(["same", "perm", "sub", "alien"])
    if how == "same":
        vals = [r.pick(pool) for _ in range(k)]
        full = make(lab + vals)
        c, src = full[:n].copy(), full[n:]
    else:
        c = make(lab, **base(0))
        if how == "alien":
            vals = [r.pick(list(pool0)) for _ in range(k)]
        elif how == "perm":
            vals = [r.pick(pool) for _ in range(k)]
        else:
            vals = [pool[-1]] * k
        src = make(vals, ordered=False) if how == "perm" and kind != "multi" else make(vals, **base(0))
    if r.chance(0.3) and int(src.base_index) == 1:
        src[0] = 0
        vals[0] = None
    m.note(n=n, kind=kind, lab=lab, mask=mask, vals=vals, how=how, bases=(int(c.base_index), int(src.base_index)))
    ok = all(v in lab if v is not None else int(c.base_index) == 1 for v in vals)
    ix = r.pick([mask, rt.FastArray(mask), np.flatnonzero(mask)])
    res, err = m.attempt("c[mask]=Cat", lambda: c.__setitem__(ix, src))
    m.check(err is None or not ok, f"assigning a Categorical[{kind}] of known labels failed: {err!r}")
    m.check(err is not None or ok, f"assigning labels that are not categories ({vals}) succeeded")
    if err is None:
        for p_, x in zip(np.flatnonzero(mask), vals):
            lab[p_] = x
    label_eq(m, gen.cat_labels(c).tolist(), lab, "after assigning a Categorical" if err is None else "after a rejected assignment")
    wellformed(m, c, "after assigning a Categorical")


@case(n=1500)
def ordering(m, r):
    """<, <=, >, >= on Categoricals built from values compare labels; where it cannot be decided the operation refuses."""
    n = r.pick([1, 2, 3, r.int(4, 60)])
    strs = r.chance(0.6)
    if strs:
        pool = r.perm(["b", "ba", "c", "d", "dd", "x", "Q", "a1"])[: r.int(1, 7)]
        alien = r.pick(["0", "bb", "zz", "cc", "P"])
    else:
        pool = r.perm([5, 10, -3, 22, 7, 100, 0])[: r.int(1, 6)]
        alien = r.pick([-50, 6, 8, 1000, 50])
    lab = [r.pick(pool) for _ in range(n)]
    mode = r.pick(["S", "U", "list"]) if strs else r.pick(["i4", "i8", "i2"])
    src = np.array(lab) if mode in ("U", "list") else np.array(lab).astype(mode)
    c = m.call("Cat", rt.Cat, src, unicode=mode == "U" and r.chance()) if strs else m.call("Cat", rt.Cat, rt.FastArray(src))
    filt = gen.bools(r, n, 0.8) if r.chance(0.25) else np.ones(n, bool)
    if not filt.all():
        c = m.call("Cat(filter)", rt.Cat, src, filter=filt)
    m.note(lab=lab, filt=filt)
    v = r.pick(pool) if r.chance(0.6) else alien
    import operator as op
    ops = {"<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge, "==": op.eq, "!=": op.ne}
    if not strs and v == alien and r.chance(0.3):
        v = v + 0.5
    for s in r.subset(list(ops), 2, 4):
        arg = v.encode() if strs and r.chance(0.3) else v
        got = plain(m.call("cat" + s, ops[s], c, arg))
        exp = np.array([ops[s](x, v) for x in lab])
        m.check(got.dtype == bool and len(got) == n, f"{s} gives {got.dtype}[{len(got)}]")
        m.same(got[filt], exp[filt], f"Categorical of values {s} {v!r}")
    # against another Categorical
    lab2 = [r.pick(pool + [alien]) for _ in range(n)]
    c2 = m.call("Cat", rt.Cat, np.array(lab2) if strs else rt.FastArray(np.array(lab2)), ordered=r.chance(0.7))
    if c2.category_array.dtype.kind == c.category_array.dtype.kind:
        for s in r.subset(list(ops), 2, 4):
            got = plain(m.call("cat" + s + "cat", ops[s], c, c2))
            exp = np.array([ops[s](x, y) for x, y in zip(lab, lab2)])
            m.same(got[filt], exp[filt], f"Categorical {s} Categorical")
    # after an edit of the category list, ordering questions are refused or right
    if strs:
        e = c.copy()
        how = r.pick(["add", "replace"])
        if how == "add":
            new = r.pick(["mm", "A", "bz"])
            m.call("category_add", e.category_add, new)
            lab3 = lab
        else:
            old = r.pick([x for x, f in zip(lab, filt) if f] or [None])
            if old is None:
                return
            new = r.pick(["mm", "A", "bz", "zzz"])
            m.call("category_replace", e.category_replace, old, new)
            lab3 = [new if x == old else x for x in lab]
        w = r.pick(sorted(set(lab3)) + ["n", "bb"])
        for s in ops:
            got, err = m.attempt("edited cat" + s, ops[s], e, w)
            if err is None:
                exp = np.array([ops[s](x, w) for x in lab3])
                m.same(plain(got)[filt], exp[filt], f"after category_{how}: {s} {w!r}")
            else:
                m.check(isinstance(err, ValueError) and s not in ("==", "!="), f"after category_{how}: {s} {w!r} raised {err!r}")


@case(n=1200)
def multikey_compare(m, r):
    """A multikey Categorical against tuples: ==, !=, isin, c[tuple], c[list of tuples], from_category."""
    n = r.pick([1, 2, r.int(3, 40)])
    kinds = [r.pick(["S", "U", "i"]) for _ in range(r.int(2, 3))]
    pools = [["a", "b", "cc"] if k != "i" else [1, 2, 30] for k in kinds]
    cols = [[r.pick(p) for _ in range(n)] for p in pools]
    arrs = [rt.FastArray(np.array(c).astype("S") if k == "S" else np.array(c), unicode=k == "U") for k, c in zip(kinds, cols)]
    lab = list(zip(*cols))
    filt = gen.bools(r, n, 0.8) if r.chance(0.3) else None
    c = m.call("Cat(multi)", rt.Cat, arrs, **({} if filt is None else {"filter": filt}))
    if filt is not None:
        lab = [x if f else None for x, f in zip(lab, filt)]
    m.note(kinds=kinds, lab=[str(x) for x in lab])
    enc = lambda t: tuple(x.encode() if isinstance(x, str) and r.chance(0.3) else x for x in t)
    some = [tuple(r.pick(p) for p in pools) for _ in range(r.int(1, 4))] + r.subset([x for x in lab if x is not None], 0, 2)
    for t in some:
        exp = np.array([x == t for x in lab])
        m.same(plain(m.call("== tuple", lambda: c == enc(t))), exp, f"multikey == {t}")
        m.same(plain(m.call("!= tuple", lambda: c != enc(t))), ~exp, f"multikey != {t}")
        b, err = m.attempt("from_category(tuple)", c.from_category, t)
        if exp.any():
            m.check(err is None and int(b) == int(plain(c)[np.flatnonzero(exp)[0]]), f"from_category({t}) = {b!r} {err!r}")
    exp = np.array([x in some for x in lab])
    m.same(plain(m.call("== tuples", lambda: c == [enc(t) for t in some])), exp, f"multikey == list {some}")
    got, err = m.attempt("c[tuple]", lambda: c[some[0]])
    if err is None and isinstance(got, np.ndarray) and got.dtype == bool:
        m.same(plain(got), np.array([x == some[0] for x in lab]), f"multikey[{some[0]}]")
    m.raises("== short tuple", lambda: c == some[0][:-1])


@case(n=1500)
def readers(m, r):
    """isfiltered, expand_any, as_singlekey, from_category of non-members, map, isin of odd forms; mappings with codes that have no name."""
    c, lab, kind = build(m, r)
    n = len(lab)
    if kind == "enum" and r.chance(0.7) and n:
        codes = plain(c).copy()
        bad = gen.bools(r, n, 0.3)
        codes[bad] = r.pick([999, -77])
        mp = {int(k): gen.txt(v) for k, v in c.category_mapping.items()} if hasattr(c, "category_mapping") else None
        if mp:
            if not all(isinstance(k, (int, np.integer)) for k in mp):
                mp = {int(v): gen.txt(k) for k, v in mp.items()}
            c = m.call("Cat(codes,mapping)", rt.Cat, codes, mp)
            lab = [None if b else x for x, b in zip(lab, bad)]
            kind = "enum+unnamed"
    m.note(kind=kind, n=n, codes=plain(c), lab=[str(x) for x in lab[:40]])
    what = f"Cat[{kind}]"
    inv = np.array([x is None for x in lab], dtype=bool)
    m.same(plain(m.call("isfiltered", c.isfiltered)), inv, f"{what}.isfiltered()")
    simple = "date" not in kind and "dtn" not in kind and "float" not in kind
    if c.isenum:
        s = m.call("as_singlekey", c.as_singlekey, ordered=r.chance())
        label_eq(m, gen.cat_labels(s).tolist(), lab, f"{what}.as_singlekey()")
        return
    if c.ismultikey:
        ascii = not any(isinstance(x, str) and not x.isascii() for a in c.category_dict.values() for x in norm(plain(a).tolist()))
        if ascii and int(c.unique_count) and not any(isinstance(x, float) for l in lab if l for x in l) and not any(type(a).__name__ == "Date" for a in c.category_dict.values()):
            s = m.call("as_singlekey", c.as_singlekey)
            label_eq(m, gen.cat_labels(s).tolist(), [None if l is None else "_".join(str(x) for x in l) for l in lab], f"{what}.as_singlekey()")
        return
    ca, ea = c.category_array, m.call("expand_array", lambda: c.expand_array)
    if ca.dtype.kind in "iuf":
        m.check(ea.dtype == ca.dtype and len(ea) == n, f"{what}.expand_array is {ea.dtype}[{len(ea)}], categories are {ca.dtype}")
        m.check(type(ea) is type(ca), f"{what}.expand_array is {type(ea).__name__}, categories are {type(ca).__name__}")
        if type(ca) is rt.FastArray:
            m.same(gen.is_inv(ea)[inv], np.ones(int(inv.sum()), bool), f"{what}.expand_array: missing where filtered")
    k = len(ca)
    other = r.g.permutation(k * 3)[:k].astype(r.pick(["i4", "f8", "i8"]))
    e = plain(m.call("expand_any", c.expand_any, other))
    if simple and n:
        pos = {gen.txt(x): i for i, x in enumerate(plain(c.category_array).tolist())}
        for i, x in enumerate(lab):
            m.check(bool(gen.is_inv(rt.FastArray(e[i : i + 1]))[0]) if x is None else e[i] == other[pos[x]], f"{what}.expand_any: row {i} ({x!r}) gives {e[i]}")
        if k:
            arr = rt.FastArray(other + 1)
            g = plain(m.call("map(array)", c.map, arr))
            for i, x in enumerate(lab):
                m.check(bool(gen.is_inv(rt.FastArray(g[i : i + 1]))[0]) if x is None else g[i] == other[pos[x]] + 1, f"{what}.map(array): row {i} ({x!r}) gives {g[i]}")
            if r.chance(0.5):
                g = plain(m.call("map(array, invalid)", c.map, arr, invalid=-5))
                for i, x in enumerate(lab):
                    m.check(g[i] == (-5 if x is None else other[pos[x]] + 1), f"{what}.map(array, invalid=-5): row {i} ({x!r}) gives {g[i]}")
            cats = [gen.txt(x) for x in plain(c.category_array).tolist()]
            d = {x: i * 7 + 1 for i, x in enumerate(r.subset(cats, 1))}
            g = plain(m.call("map(dict)", c.map, d))
            for i, x in enumerate(lab):
                m.check(g[i] == d[x] if x in d else bool(gen.is_inv(rt.FastArray(g[i : i + 1]))[0]), f"{what}.map(dict): row {i} ({x!r}) gives {g[i]}")
        alien = "nosuch" if all(isinstance(x, str) for x in pos) else 987654
        for a in [alien] + (["", "a", "mm", "\x01"] if alien == "nosuch" else [-98765, 3, 1]):
            if a not in pos:
                m.raises("from_category(non-member)", c.from_category, a, exc=ValueError)
        if alien == 987654:
            vals = [x for x in pos]
            for q in ([vals[0] + 0.5] if vals else []), [0.5], ([vals[0] + 0.5, vals[-1]] if vals else [0.5, 1.5]):
                if q:
                    m.same(plain(m.call("isin(floats)", c.isin, q)), np.array([x is not None and float(x) in q for x in lab], dtype=bool), f"{what}.isin({q})")
    if int(c.base_index) == 0 or r.chance(0.3):
        s = m.call("as_singlekey", c.as_singlekey)
        label_eq(m, gen.cat_labels(s).tolist(), lab, f"{what}.as_singlekey()")
