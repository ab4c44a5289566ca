"""C05: grouping partitions rows exactly by key equality; all index structures describe that partition."""
import numpy as np
import riptable as rt
from riptable.rt_grouping import Grouping
from rv.core import case, plain
from rv import gen, gb


def keys(r, n, lo=1, hi=3, inv=None, kinds=None):
    inv = r.pick([0, 0, 0.2]) if inv is None else inv
    out = [gb.key(r, n, r.pick(kinds) if kinds else None, inv=inv) for _ in range(r.int(lo, hi))]
    return [a for a, _ in out], gb.tuples([v for _, v in out])


def nrows(r, big=0.01):
    u = r.g.random()
    if u < big:
        return r.int(17000, 70000)
    return r.pick([1, 2, 3, r.int(4, 30), r.int(31, 120), r.int(121, 700)])


def desc(arrs):
    return [(type(a).__name__, str(a.dtype)) for a in arrs]


@case(n=3000)
def grouping_object(m, r):
    n = nrows(r)
    arrs, kv = keys(r, n)
    filt = gen.bools(r, n) if r.chance(0.4) else None
    mode = r.pick(["hash", "lex", "ordered", "cat", "cat0", "catordered", "catlex"])
    kw = {"hash": {}, "lex": dict(lex=True), "ordered": dict(ordered=True), "cat": dict(categorical=True), "cat0": dict(categorical=True, base_index=0),
          "catordered": dict(categorical=True, ordered=True), "catlex": dict(categorical=True, lex=True)}[mode]
    if mode == "cat0":
        filt = None
    if mode == "ordered":                       # a non-categorical ordered grouping only changes the display flag
        kw = {}
    m.note(n=n, keys=desc(arrs), mode=mode, filt=filt is not None, a0=arrs[0])
    before = [gen.snap(a) for a in arrs]
    order = "sorted" if mode in ("lex", "catordered", "catlex") else None
    if filt is not None:
        kw = dict(kw, filter=filt if r.chance() else rt.FastArray(filt))
    g = m.call("Grouping", Grouping, arrs if len(arrs) > 1 or r.chance() else arrs[0], **kw)
    p = gb.Part(kv, filt, order)
    if p.count == 0:
        m.check(int(g.unique_count) == 0, "groups although every row is filtered")
        m.check((plain(g.ikey) == 0).all(), "all filtered: ikey")
        return
    gb.check_partition(m, g, p, mode)
    m.check(gb.label_list(list(g.uniquedict.values())) == p.keys, f"{mode}: unique keys {gb.label_list(list(g.uniquedict.values()))[:8]} != {p.keys[:8]}")
    m.check(list(g.gbkeys) == list(g.uniquedict), "gbkeys names")
    j = r.int(0, p.count - 1)
    m.same(plain(g.as_filter(j + 1)), np.array(p.rows[j]), "as_filter")
    m.check(bool(g.all_unique) == (p.count == n), "all_unique")
    for a, b in zip(arrs, before):
        m.check(gen.snap_diff(b, gen.snap(a)) is None, "grouping changed its keys")
    # repeated packing under other filters must not disturb the partition
    f2 = gen.bools(r, n, 0.5)
    m.call("pack_by_group", g.pack_by_group, filter=f2, mustrepack=True)
    p2 = gb.Part(kv, f2 if filt is None else f2 & filt, p.keys)
    ig, ifg, nc = plain(g.iGroup), plain(g.iFirstGroup), plain(g.nCountGroup)
    for q, rows in enumerate(p2.rows):
        m.check(ig[ifg[q + 1]:ifg[q + 1] + nc[q + 1]].tolist() == rows, f"pack_by_group(filter): rows of group {q}")
    m.call("pack_by_group", g.pack_by_group, mustrepack=True)
    gb.check_partition(m, g, p, mode + " repacked")
    c = m.call("copy", g.copy, deep=r.chance())
    gb.check_partition(m, c, p, mode + " copy")


@case(n=1000)
def index_grouping(m, r):
    """Grouping[fancy/bool/slice] groups the selected rows the same way (same group numbers)."""
    n = nrows(r, 0)
    arrs, kv = keys(r, n, 1, 2)
    filt = gen.bools(r, n, 0.7) if r.chance(0.4) else None
    g = m.call("Grouping", Grouping, arrs, categorical=True, **({"filter": filt} if filt is not None else {}))
    p = gb.Part(kv, filt)
    if p.count == 0:
        return
    how = r.pick(["bool", "fancy", "slice", "list", "strided"])
    rows = np.arange(n)
    if how == "bool":
        sel = gen.bools(r, n)
        rows = np.flatnonzero(sel)
    elif how == "fancy":
        sel = r.g.integers(0, n, r.int(1, n + 3)).astype(r.pick(["i4", "i8"]))
        rows = sel
    elif how == "strided":
        sel = np.repeat(r.g.integers(0, n, r.int(1, n + 3)), 2)[::2]
        rows = sel
    elif how == "list":
        sel = r.g.integers(0, n, r.int(1, n + 3)).tolist()
        rows = np.array(sel)
    else:
        sel = slice(r.int(0, n), None, r.pick([1, 2, -1]))
        rows = np.arange(n)[sel]
    m.note(n=n, keys=desc(arrs), how=how, sel=sel)
    if r.chance(0.5):
        _ = g.igroup, g.ifirstkey, g.ilastkey, g.inextkey
    g2 = m.call("Grouping[]", g.__getitem__, sel)
    q = gb.Part([kv[i] for i in rows], None if filt is None else filt[rows], p.keys)
    if len(rows):
        gb.check_partition(m, g2, q, f"grouping[{how}]")
    m.check(gb.label_list(list(g2.uniquedict.values())) == p.keys, "unique keys after indexing")
    gb.check_partition(m, g, p, "source grouping after indexing")
    if how == "bool" or filt is not None:
        f3 = gen.bools(r, n, 0.6)
        g3 = m.call("regroup", g.regroup, filter=f3)
        q3 = gb.Part(kv, f3 if filt is None else f3 & filt)
        keep = [k for k in p.keys if k in set(q3.keys)]
        if keep:
            m.check(gb.label_list(list(g3.uniquedict.values())) == keep, f"regroup keys {gb.label_list(list(g3.uniquedict.values()))[:6]} != {keep[:6]}")
            m.same(plain(g3.ikey), q3.reorder(keep).ikey, "regroup ikey")
            m.same(plain(g3.ifirstkey), np.array([x[0] for x in q3.reorder(keep).rows]), "regroup ifirstkey")


@case(n=1400)
def groupby_object(m, r):
    n = nrows(r)
    arrs, kv = keys(r, n, 1, 3)
    names = [f"k{i}" for i in range(len(arrs))]
    filt = gen.bools(r, n, 0.6) if r.chance(0.35) else None
    ds = rt.Dataset(dict(zip(names, arrs)))
    ds["rid"] = rt.arange(n)
    ds["s"] = gen.column(r, n, "S")
    mode = r.pick(["gb", "gbu", "gblex", "cat", "Cat"])
    kw = {"filter": filt} if filt is not None else {}
    m.note(n=n, keys=desc(arrs), mode=mode, filt=filt is not None, a0=arrs[0])
    by = names if len(names) > 1 or r.chance() else names[0]
    if mode == "gb":
        g = m.call("gb", ds.gb, by, **kw)
    elif mode == "gbu":
        g = m.call("gbu", ds.gbu, by, **kw)
    elif mode == "gblex":
        g = m.call("gb(lex)", ds.gb, by, lex=True, **kw)
    elif mode == "cat":
        g = m.call("ds.cat", ds.cat, by, **kw)
    else:
        g = m.call("Cat", rt.Cat, arrs if len(arrs) > 1 else arrs[0], ordered=r.chance(), **kw)
    order = "sorted" if mode == "gblex" or (mode in ("cat", "Cat") and g.ordered) else None
    p = gb.Part(kv, filt, order)
    if p.count == 0:
        m.check(int(g.grouping.unique_count) == 0, "groups although every row is filtered")
        return
    gb.check_partition(m, g.grouping, p, mode)
    # count(): labelled counts
    cnt = m.call("count", g.count)
    lab = gb.label_list([cnt[k] for k in cnt.label_get_names()])
    exp = sorted(p.keys, key=gb.okey) if mode == "gb" or getattr(g, "_sort_display", False) or (mode in ("cat", "Cat") and g.sort_gb) else p.keys
    m.check(lab == exp, f"{mode}: count() keys {lab[:8]} != {exp[:8]}")
    q = p.reorder(lab)
    m.same(plain(cnt["Count"]), np.array([len(x) for x in q.rows]), f"{mode}: count()")
    # first/last, bool and fancy
    m.same(plain(m.call("first_fancy", lambda: g.first_fancy)), np.array([x[0] for x in p.rows]), "first_fancy")
    m.same(plain(m.call("last_fancy", lambda: g.last_fancy)), np.array([x[-1] for x in p.rows]), "last_fancy")
    e = np.zeros(n, bool)
    e[[x[0] for x in p.rows]] = True
    m.same(plain(g.first_bool), e, "first_bool")
    e = np.zeros(n, bool)
    e[[x[-1] for x in p.rows]] = True
    m.same(plain(g.last_bool), e, "last_bool")
    # iteration
    got = {}
    for k, rows in m.call("iter_groups", g.iter_groups):
        k = tuple(gb.vals(np.array([x]))[0] for x in k) if isinstance(k, tuple) else gb.vals(rt.FastArray([k]))[0] if not isinstance(k, (rt.FastArray,)) else gb.vals(k)[0]
        got[k] = plain(rows).tolist()
    if all(type(a) is rt.FastArray for a in arrs):
        m.check(list(got) == p.keys, f"iter_groups keys {list(got)[:6]} != {p.keys[:6]}")
        m.check(list(got.values()) == p.rows, "iter_groups rows")
        gr = m.call("groups", lambda: g.groups)
        m.check(len(gr) == p.count, "groups: number")
        for (k, rows), e in zip(gr.items(), p.rows):
            m.same(plain(rows), np.array(e), "groups rows")
    else:
        m.check(len(got) == p.count or list(got.values()) == p.rows[:len(got)], "iter_groups rows")
    gs = m.call("get_groupings", g.get_groupings)
    ig, ifg, nc = (plain(gs[x]) for x in ("iGroup", "iFirstGroup", "nCountGroup"))
    for j, rows in enumerate(p.rows):
        m.check(ig[ifg[j + 1]:ifg[j + 1] + nc[j + 1]].tolist() == rows, f"get_groupings rows of group {j}")
    # iteration over datasets
    if mode in ("gb", "gbu", "gblex"):
        i = 0
        for k, sub in g:
            m.check(plain(sub["rid"]).tolist() == p.rows[i], f"iteration: rows of group {i}: {plain(sub['rid']).tolist()[:8]} != {p.rows[i][:8]}")
            m.same(plain(sub["s"]), plain(ds["s"])[p.rows[i]], "iteration: values")
            m.check(len(sub) == len(ds.keys()) or sub.shape[0] == len(p.rows[i]), "iteration: shape")
            i += 1
        m.check(i == p.count, "iteration: number of groups")
        m.same(plain(ds["rid"]), np.arange(n), "iteration changed the dataset")
    f2 = gen.bools(r, n, 0.5)
    gs = m.call("get_groupings(filter)", g.get_groupings, filter=f2)
    ig, ifg, nc = (plain(gs[x]) for x in ("iGroup", "iFirstGroup", "nCountGroup"))
    p2 = gb.Part(kv, f2 if filt is None else f2 & filt, p.keys)
    for j, rows in enumerate(p2.rows):
        m.check(ig[ifg[j + 1]:ifg[j + 1] + nc[j + 1]].tolist() == rows, f"get_groupings(filter) rows of group {j}")
    cnt2 = m.call("count", g.count)
    m.same(plain(cnt2["Count"]), plain(cnt["Count"]), "count() after get_groupings(filter)")


@case(n=1200)
def functions(m, r):
    """The functional forms: groupbyhash, groupbylex, groupby, groupbypack, combine_filter, makeifirst, ..."""
    n = nrows(r)
    arrs, kv = keys(r, n, 1, 3)
    filt = gen.bools(r, n, 0.6) if r.chance(0.4) else None
    m.note(n=n, keys=desc(arrs), filt=filt is not None, a0=arrs[0])
    how = r.pick(["hash", "lex", "gb", "gblex"])
    kw = dict(filter=filt) if filt is not None else {}
    if how == "hash":
        d = m.call("groupbyhash", rt.groupbyhash, arrs if len(arrs) > 1 else arrs[0], pack=True, **kw)
    elif how == "lex":
        d = m.call("groupbylex", rt.groupbylex, arrs if len(arrs) > 1 else arrs[0], **kw)
    else:
        d = m.call("groupby", rt.groupby, arrs, lex=how == "gblex", pack=True, **kw)
    p = gb.Part(kv, filt, "sorted" if how in ("lex", "gblex") else None)
    if not p.count:
        return
    m.check(int(d["unique_count"]) == p.count, f"{how}: unique_count {d['unique_count']} != {p.count}")
    m.same(plain(d["iKey"]), p.ikey, f"{how}: iKey")
    m.same(plain(d["iFirstKey"]), np.array([x[0] for x in p.rows]), f"{how}: iFirstKey")
    if d.get("iGroup") is not None:
        ig, ifg, nc = plain(d["iGroup"]), plain(d["iFirstGroup"]), plain(d["nCountGroup"])
        for j, rows in enumerate(p.rows):
            m.check(ig[ifg[j + 1]:ifg[j + 1] + nc[j + 1]].tolist() == rows, f"{how}: packed rows of group {j}")
    ik = rt.FastArray(p.ikey.astype(r.pick(["i1", "i2", "i4", "i8"] if p.count < 100 else ["i2", "i4", "i8"] if p.count < 30000 else ["i4", "i8"])))
    ikb = plain(ik).copy()
    pk = m.call("groupbypack", rt.groupbypack, ik, None, p.count + 1)
    ig, ifg, nc = plain(pk["iGroup"]), plain(pk["iFirstGroup"]), plain(pk["nCountGroup"])
    for j, rows in enumerate([np.flatnonzero(p.ikey == 0).tolist()] + p.rows):
        m.check(ig[ifg[j]:ifg[j] + nc[j]].tolist() == rows, f"groupbypack rows of group {j}")
    f2 = gen.bools(r, n, 0.5)
    m.same(plain(m.call("combine_filter", rt.combine_filter, ik, f2)), np.where(f2, p.ikey, 0), "combine_filter")
    d1 = m.call("combine_accum1_filter", rt.combine_accum1_filter, ik, p.count, filter=f2)
    q = gb.Part([int(x) for x in p.ikey], f2 & (p.ikey > 0))
    m.check(int(d1["unique_count"]) == q.count, f"combine_accum1_filter: unique_count {d1['unique_count']} != {q.count}")
    m.same(plain(d1["iKey"]), q.ikey, "combine_accum1_filter: iKey")
    if q.count:
        m.same(plain(d1["iFirstKey"]), np.array([x[0] for x in q.rows]), "combine_accum1_filter: iFirstKey")
    b = Grouping(gb.key(r, n, "i4")[0])
    ikey2, uc2 = b.ikey, int(b.unique_count)
    d2 = m.call("combine2keys", rt.combine2keys, ik, ikey2, p.count, uc2, filter=f2)
    # the combined bin identifies the pair of bins: col * (rows+1) + row, 0 when filtered
    got = plain(d2["iKey"])
    pairs = {}
    for i in range(n):
        pr = (int(p.ikey[i]), int(plain(ikey2)[i])) if f2[i] else "filtered"
        pairs.setdefault(pr, set()).add(int(got[i]))
    m.check(all(len(v) == 1 for v in pairs.values()), "combine2keys: a pair of keys got two bins")
    allb = [next(iter(v)) for k, v in pairs.items()]
    m.check(len(set(allb)) == len(allb) or "filtered" in pairs, "combine2keys: two pairs share a bin")
    m.same(plain(ik), ikb, "combine functions changed the key")


@case(n=250)
def cat_two_keys(m, r):
    n = nrows(r, 0)
    a, av = gb.key(r, n, r.pick(["S", "i4", "U", "date", "f8"]))
    b, bv = gb.key(r, n, r.pick(["S", "i4", "U", "i8"]))
    a, b = rt.Cat(a), rt.Cat(b)
    a.set_name("row"); b.set_name("col")
    m.note(n=n, a=av[:20], b=bv[:20])
    c = m.call("cat2keys", rt.cat2keys, a, b)
    lab = gen.decode(c)
    m.check([tuple(("nan",) if isinstance(x, float) and x != x else x for x in t) for t in lab.tolist()] == list(zip(av, bv)), "cat2keys labels differ from the pairs of keys")
    p = gb.Part(list(zip(av, bv)))
    m.check(int(c.grouping.unique_count) == len(set(av)) * len(set(bv)), "cat2keys: not the full cartesian product")
    nc = plain(c.grouping.ncountgroup)
    m.check(int(nc[1:].sum()) == n and nc[0] == 0 and int((nc[1:] > 0).sum()) == p.count, "cat2keys counts")
    s = m.call("cat2keys.sum", c.sum, rt.ones(n))
    v = [x for k, x in s.items() if k not in s.label_get_names()]
    m.check(float(np.nansum(plain(v[0]))) == n, "cat2keys: sum of ones is not the row count")


@case(n=200)
def group_rows(m, r):
    """ds.gbrows: row labels are column names."""
    n = r.int(1, 8)
    k = r.int(1, 4)
    cols = {f"c{i}": rt.FastArray(gen.num(r, n, "f8", inv=0.0, special=False)) for i in range(k)}
    ds = rt.Dataset(cols)
    m.note(n=n, k=k)
    g = m.call("gbrows", ds.gbrows)
    cnt = m.call("gbrows.count", g.count)
    m.check(int(plain(cnt["Count"]).sum()) == n * k, "gbrows: counts")
    s = m.call("gbrows.sum", g.sum)
    tot = sum(float(plain(v).sum()) for v in cols.values())
    vs = [plain(v) for kk, v in s.items() if plain(v).dtype.kind == "f"]
    m.close(np.array([sum(v.sum() for v in vs[-1:])]), np.array([tot]), "gbrows: total", rtol=1e-9)


@case(n=300)
def get_group(m, r):
    n = r.int(1, 60)
    a, av = gb.key(r, n, r.pick(["S", "U", "i4", "i8"]))
    ds = rt.Dataset({"k": a, "rid": rt.arange(n), "v": gen.column(r, n)})
    filt = gen.bools(r, n, 0.7) if r.chance(0.3) else None
    p = gb.Part(av, filt)
    if not p.count:
        return
    j = r.int(0, p.count - 1)
    m.note(n=n, k=av[:30], pick=p.keys[j])
    g = m.call("gbu", ds.gbu, "k", **({"filter": filt} if filt is not None else {}))
    sub = m.call("get_group", g.get_group, p.keys[j])
    m.same(plain(sub["rid"]), np.array(p.rows[j]), "get_group rows")
    g = m.call("gb", ds.gb, "k", **({"filter": filt} if filt is not None else {}))
    sub = m.call("get_group", g.get_group, p.keys[j])
    m.same(plain(sub["rid"]), np.array(p.rows[j]), "get_group rows (sorted display)")


@case(n=16, thorough=4)
def take_extract(m, r):
    n = r.int(1, 80)
    a, av = gb.key(r, n, "i4")
    g = Grouping(a)
    p = gb.Part(av)
    data = rt.FastArray(gen.num(r, n, r.pick(["f8", "i8"]), inv=0.1))
    packed = data[g.igroup]
    ind = rt.FastArray(r.g.integers(1, p.count + 1, r.int(1, 6)))
    got = m.call("take_groups", Grouping.take_groups, packed, ind, g.ncountgroup, g.ifirstgroup)
    m.same(plain(got), np.concatenate([plain(data)[p.rows[i - 1]] for i in plain(ind)]), "take_groups")
    cond = gen.bools(r, p.count + 1, 0.5)
    cond[0] = False
    got = m.call("extract_groups", Grouping.extract_groups, rt.FastArray(cond), packed, g.ncountgroup, g.ifirstgroup)
    exp = [plain(data)[p.rows[i - 1]] for i in range(1, p.count + 1) if cond[i]]
    m.same(plain(got), np.concatenate(exp) if exp else plain(data)[:0], "extract_groups")
    m.note(n=n, ind=ind, cond=cond)


@case(n=1200)
def grouping_tools(m, r):
    """isin / ismember / as_filter / regroup / shrink of a Grouping, with filtered rows and many categories."""
    n = r.pick([2, 7, r.int(8, 60), r.int(300, 500)])
    card = r.pick([2, 3, 6, 126, 127, 128, 140]) if n >= 300 else r.pick([1, 2, 3, 6])
    nk = r.pick([1, 1, 2])
    if nk == 1:
        pool = [f"w{i:03d}" for i in range(card)] if r.chance() else [3 * i for i in range(card)]
        kv = [r.pick(pool) for _ in range(n)]
        if n >= 300:
            kv[: card] = pool
        arrs = [rt.FastArray(np.array(kv))]
    else:
        pa, pb = ["a", "b", "cc"], [10, 20, 30, 40]
        kv = [(r.pick(pa), r.pick(pb)) for _ in range(n)]
        arrs = [rt.FastArray(np.array([k[0] for k in kv])), rt.FastArray(np.array([k[1] for k in kv]))]
    filt = gen.bools(r, n, 0.8) if r.chance(0.4) else None
    c = m.call("Cat", rt.Cat, arrs if nk > 1 else arrs[0], **({} if filt is None else {"filter": filt}))
    g = c.grouping
    live = np.ones(n, bool) if filt is None else filt
    keys = gb.label_list(list(g.uniquedict.values()))
    if not keys:
        return
    m.note(n=n, card=card, nk=nk, filt=filt is not None, kv=kv[:40])
    p = gb.Part(kv, filt, keys)
    sub = r.subset(keys, 1, min(len(keys), 5)) + ([("zz", 1) if nk > 1 else "zz" if isinstance(keys[0], str) else 987] if r.chance(0.5) else [])
    got = plain(m.call("Grouping.isin", g.isin, sub))
    m.same(got, np.array([bool(live[i]) and kv[i] in sub for i in range(n)]), "Grouping.isin")
    f, ix = m.call("Grouping.ismember", g.ismember, sub)
    m.same(plain(f), np.array([k in sub for k in keys]), "Grouping.ismember: which groups")
    for k, a, b in zip(keys, plain(f), plain(ix).tolist()):
        m.check(not a or sub[b] == k, f"Grouping.ismember: group {k} at {b} of {sub}")
    f, ix = m.call("Grouping.ismember(reverse)", g.ismember, sub, reverse=True)
    m.same(plain(f), np.array([k in keys for k in sub]), "Grouping.ismember(reverse)")
    for k, a, b in zip(sub, plain(f), plain(ix).tolist()):
        m.check(not a or keys[b] == k, f"Grouping.ismember(reverse): {k} at {b}")
    for j in [0, 1, len(keys)]:
        rows = np.flatnonzero(p.ikey == 0) if j == 0 else np.array(p.rows[j - 1], dtype=np.int64)
        a = plain(m.call("as_filter", g.as_filter, j))
        if j or len(a):
            m.same(a, rows, f"as_filter({j})")
    # regroup: the groups that are left, in the old order, with and without a filter
    f2 = gen.bools(r, n, r.pick([0.1, 0.5, 0.95])) if r.chance(0.6) else None
    alive = live if f2 is None else live & f2
    if alive.any():
        q = m.call("regroup", g.regroup, filter=f2)
        left = [k for k in keys if any(alive[i] and kv[i] == k for i in range(n))]
        m.check(gb.label_list(list(q.uniquedict.values())) == left, f"regroup: keys {gb.label_list(list(q.uniquedict.values()))[:6]} != {left[:6]}")
        m.same(plain(q.ikey), gb.Part(kv, alive, left).ikey, "regroup: ikey")
        m.same(plain(q.ifirstkey), np.array([x[0] for x in gb.Part(kv, alive, left).rows]), "regroup: ifirstkey")
    # shrink
    if nk == 1:
        new = r.perm(keys)[: r.pick([1, max(1, len(keys) // 2), len(keys)])]
        misc = (("other" if isinstance(keys[0], str) else -1) if r.chance(0.6) else None)
        s = m.call("shrink", g.shrink, rt.FastArray(np.array(new)), misc=misc)
        sk = gb.label_list(list(s.uniquedict.values()))
        m.check(sk == new + ([] if misc is None else [misc]), f"shrink: categories {sk[:6]}")
        e = [0 if not live[i] else new.index(kv[i]) + 1 if kv[i] in new else 0 if misc is None else len(new) + 1 for i in range(n)]
        m.same(plain(s.catinstance), np.array(e), "shrink: bins")
