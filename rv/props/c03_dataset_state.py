"""C03: a Dataset is always rectangular, ordered and all-or-nothing on errors (histories against a mapping model)."""
import re
import numpy as np
import riptable as rt
from rv.core import case, plain, Violation
from rv import gen

POOL = ["a", "b", "c", "d", "e", "ab", "ba", "xa", "ax", "Price", "Size2", "zz top", "c1", "c2"]
KINDS = ["i4", "i8", "f8", "S", "U", "cat", "date", "bool", "dtn", "i2"]


def vals(col):
    return gen.decode(col).tolist()


def newcol(r, n):
    k = r.pick(KINDS)
    if k == "cat":
        return rt.Cat(r.g.integers(0, 4, n).astype("i4"), np.array(["red", "blue", "teal"]), base_index=1)
    return gen.column(r, n, k, inv=0.1)


class Model:
    """Insertion-ordered mapping name -> list of values (the specification)."""

    def __init__(self):
        self.d, self.n = {}, None

    def copy(self):
        o = Model()
        o.d, o.n = {k: list(v) for k, v in self.d.items()}, self.n
        return o

    def observe(self, m, ds, what):
        m.check(list(ds.keys()) == list(self.d), f"{what}: columns {list(ds.keys())}, expected {list(self.d)}")
        m.check(list(ds) == list(self.d) and len(ds.items()) == len(self.d), f"{what}: iteration disagrees with keys()")
        m.check(ds.get_ncols() == len(self.d), f"{what}: ncols {ds.get_ncols()} != {len(self.d)}")
        if self.d:
            m.check(ds.shape == (self.n, len(self.d)), f"{what}: shape {ds.shape} != {(self.n, len(self.d))}")
            m.check(ds.get_nrows() == self.n and len(ds) == self.n, f"{what}: nrows {ds.get_nrows()} / len {len(ds)} != {self.n}")
        for k, v in self.d.items():
            m.check(ds.col_exists(k) and k in ds, f"{what}: {k} not found")
            c = ds[k]
            m.check(isinstance(c, np.ndarray) and c.ndim == 1 and len(c) == self.n, f"{what}: column {k} has length {len(c)}, dataset {self.n}")
            same = [gen.txt(x) for x in vals(c)]
            v = [gen.txt(x) for x in v]
            if same != v and not all(x == y or (x != x and y != y) for x, y in zip(same, v)):
                bad = [i for i, (x, y) in enumerate(zip(same, v)) if not (x == y or (x != x and y != y))]
                raise Violation(f"{what}: column {k} row {bad[0]}: {same[bad[0]]!r} != {v[bad[0]]!r}", {})
            m.oracles += 1
            nm = c.get_name()
            m.check(nm is None or nm == k, f"{what}: column {k} carries the name {nm}") if isinstance(c, rt.FastArray) and self.names else None
    names = False


def rename_map(d, mp):
    return {mp.get(k, k): v for k, v in d.items()}


def op_add(m, r, ds, md):
    nm = r.pick(POOL)
    how = r.pick(["array", "scalar", "list", "len1", "other_ds"])
    n = md.n
    if how == "array":
        v = newcol(r, n)
        ev = vals(v)
    elif how == "scalar":
        v = r.pick([5, 2.5, "abc", True, np.int16(4)])
        ev = [v.item() if hasattr(v, "item") else v] * n
    elif how == "list":
        x = gen.num(r, n, "i4", inv=0)
        v, ev = x.tolist(), x.tolist()
        if n == 0:
            v, ev = rt.FastArray(x), []
    elif how == "len1":
        v, ev = [7], [7] * n
    else:
        col = rt.FastArray(gen.num(r, n, "f8", inv=0))
        v, ev = rt.Dataset({"only": col}), vals(col)
    if (nm.isidentifier() and r.chance(0.6)):
        m.call("setattr", setattr, ds, nm, v)
    else:
        m.call("setitem", ds.__setitem__, nm, v)
    md.d[nm] = ev


def op_add_bad(m, r, ds, md):
    nm = r.pick(POOL)
    bad = r.pick([x for x in (md.n + 1, max(md.n - 1, 0), md.n + 3, 0, 2) if x != md.n and x != 1] or [md.n + 2])
    v = newcol(r, bad)
    if r.chance(0.3) and bad > 1:
        v = np.arange(bad).tolist()
    m.raises("set wrong length", (setattr if nm.isidentifier() and r.chance() else lambda o, k, x: o.__setitem__(k, x)), ds, nm, v)


def op_delete(m, r, ds, md):
    if len(md.d) < 2:
        return
    how = r.pick(["del", "delattr", "remove", "remove_int", "like", "regex", "remove_missing", "pop", "poplist", "delete"])
    names = list(md.d)
    if how == "remove":
        s = r.subset(names, 1, len(names) - 1)
        m.call("col_remove", ds.col_remove, r.pick([s, tuple(s)]))
    elif how == "delete":
        s = [r.pick(names)]
        m.call("col_delete", ds.col_delete, s[0])
    elif how == "remove_int":
        i = r.int(0, len(names) - 1)
        s = [names[i]]
        m.call("col_remove(int)", ds.col_remove, i)
    elif how == "like":
        p = r.pick(["a", "b", "x", "c", "zz"])
        s = [k for k in names if p in k]
        if len(s) == len(names):
            return
        m.call("col_remove(like)", ds.col_remove, like=p)
    elif how == "regex":
        p = r.pick(["^a", "a$", "[0-9]", "^(b|c)", "q"])
        s = [k for k in names if re.search(p, k)]
        if len(s) == len(names):
            return
        m.call("col_remove(regex)", ds.col_remove, regex=p)
    elif how == "remove_missing":
        om = r.pick(["raise", "warn", "ignore"])
        s = r.subset(names, 0, len(names) - 1)
        lst = r.perm(s + ["nope"])
        if om == "raise":
            m.raises("col_remove(missing)", ds.col_remove, lst, on_missing="raise")
            return
        m.call("col_remove(missing)", ds.col_remove, lst, on_missing=om)
    elif how == "pop":
        k = r.pick(names)
        exp, s = md.d[k], [k]
        got = m.call("col_pop", ds.col_pop, k)
        m.same(np.array(vals(got) + [None], dtype=object), np.array(exp + [None], dtype=object), "popped column")
    elif how == "poplist":
        s = r.subset(names, 1, len(names) - 1)
        exp = {k: md.d[k] for k in s}
        got = m.call("col_pop", ds.col_pop, s)
        m.check(list(got.keys()) == s, f"popped {list(got.keys())} asked {s}")
        for k in s:
            m.same(np.array(vals(got[k]) + [None], dtype=object), np.array(exp[k] + [None], dtype=object), "popped column")
    elif how == "del":
        k = r.pick(names)
        s = [k]
        m.call("delitem", ds.__delitem__, k)
    else:
        k = r.pick(names)
        s = [k]
        m.call("delattr", delattr, ds, k)
    for k in s:
        del md.d[k]


def op_delete_bad(m, r, ds, md):
    how = r.pick(["pop", "poplist", "rm", "del"])
    if how == "pop":
        m.raises("col_pop(missing)", ds.col_pop, "nope")
    elif how == "poplist":
        m.raises("col_pop(missing)", ds.col_pop, r.perm(r.subset(list(md.d), 1) + ["nope"]))
    elif how == "rm":
        m.raises("col_remove(missing,raise)", ds.col_remove, r.perm(list(md.d)[:2] + ["nope"]), on_missing="raise")
    else:
        m.raises("del missing", ds.__delitem__, "nope")


def op_rename(m, r, ds, md):
    old = r.pick(list(md.d))
    new = r.pick(POOL)
    if new in md.d and new != old:
        m.raises("col_rename(existing)", ds.col_rename, old, new)
        return
    if r.chance(0.1):
        m.raises("col_rename(missing)", ds.col_rename, "nope", new if new != "nope" else "q")
        return
    m.call("col_rename", ds.col_rename, old, new)
    md.d = rename_map(md.d, {old: new})


def op_map(m, r, ds, md):
    names = list(md.d)
    u = r.g.random()
    if u < 0.45:
        s = r.subset(names, 1)
        tgt = r.perm(s)
        mp = dict(zip(s, tgt))
    elif u < 0.75:
        s = r.subset(names, 1, 3)
        fresh = [x for x in POOL + ["n1", "n2", "n3"] if x not in names]
        mp = dict(zip(s, fresh))
    else:
        # chain: a->b, b->c, c->fresh
        s = r.subset(names, 1, 4)
        mp = dict(zip(s, s[1:] + [r.pick([x for x in ["n1", "n2", "n3", "n9"] if x not in names] or ["n77"])]))
    m.call("col_map", ds.col_map, mp)
    if any(v in names for v in mp.values()) and u < 0.45:
        # a permutation of existing names exchanges contents under the names; the set of names and their positions stay
        newd = {}
        inv = {v: k for k, v in mp.items()}
        for k in names:
            newd[k] = md.d[inv.get(k, k)]
        md.d = newd
        # position of renamed columns is unspecified between "content moves" and "name moves": accept the observed one if it is one of these
        alt = rename_map({k: None for k in names}, mp)
        if list(ds.keys()) == list(alt) and list(alt) != names:
            md.d = {k: md.d[k] for k in alt}
    else:
        md.d = rename_map(md.d, mp)


def op_map_bad(m, r, ds, md):
    names = list(md.d)
    if len(names) < 2:
        return
    a, b = r.subset(names, 2, 2)
    how = r.pick(["collide", "existing", "type"])
    if how == "collide":
        m.raises("col_map(two to one)", ds.col_map, {a: "n55", b: "n55"})
    elif how == "existing":
        m.raises("col_map(onto existing)", ds.col_map, {a: b})
    else:
        m.raises("col_map(list)", ds.col_map, [a, b])


def op_move(m, r, ds, md):
    names = list(md.d)
    how = r.pick(["front", "back", "front1", "back1", "frontint", "both"])
    s = r.subset(names, 1)
    if how == "front":
        m.call("col_move_to_front", ds.col_move_to_front, s)
        order = s + [k for k in names if k not in s]
    elif how == "back":
        m.call("col_move_to_back", ds.col_move_to_back, s)
        order = [k for k in names if k not in s] + s
    elif how == "front1":
        m.call("col_move_to_front", ds.col_move_to_front, s[0])
        order = [s[0]] + [k for k in names if k != s[0]]
    elif how == "back1":
        m.call("col_move_to_back", ds.col_move_to_back, s[0])
        order = [k for k in names if k != s[0]] + [s[0]]
    elif how == "frontint":
        i = r.int(0, len(names) - 1)
        m.call("col_move_to_front(int)", ds.col_move_to_front, i)
        order = [names[i]] + [k for k in names if k != names[i]]
    else:
        f = s[: max(1, len(s) // 2)]
        b = s[max(1, len(s) // 2):]
        m.call("col_move", ds.col_move, f, b)
        order = f + [k for k in names if k not in f]
        order = [k for k in order if k not in b] + b
    md.d = {k: md.d[k] for k in order}


def op_swap(m, r, ds, md):
    names = list(md.d)
    s = r.subset(names, 1)
    t = r.perm(s)
    if r.chance(0.15) and len(names) > 1:
        m.raises("col_swap(not a permutation)", ds.col_swap, s[:1], [k for k in names if k != s[0]][:1])
        return
    m.call("col_swap", ds.col_swap, s, t)
    old = dict(md.d)
    for a, b in zip(t, s):
        md.d[a] = old[b]


def op_affix(m, r, ds, md):
    p = r.pick(["p", "q_", "z"])
    if max(len(k) for k in md.d) > 12:
        return
    if r.chance():
        m.call("col_add_prefix", ds.col_add_prefix, p)
        md.d = {p + k: v for k, v in md.d.items()}
    else:
        m.call("col_add_suffix", ds.col_add_suffix, p)
        md.d = {k + p: v for k, v in md.d.items()}


def op_strrep(m, r, ds, md):
    old, new = r.pick([("a", "k"), ("b", "bb"), ("x", ""), ("c", "a"), ("p", "q")])
    if max(len(k) for k in md.d) > 12:
        return
    tgt = [k.replace(old, new) for k in md.d]
    if any(t == "" or t[0] == "_" for t in tgt):
        return
    if len(set(tgt)) < len(tgt) or any(t != k and t in md.d for t, k in zip(tgt, md.d)):
        m.raises("col_str_replace(collision)", ds.col_str_replace, old, new)
        return
    m.call("col_str_replace", ds.col_str_replace, old, new)
    md.d = dict(zip(tgt, md.d.values()))


def op_replace_all(m, r, ds, md):
    new = {k: newcol(r, md.n) for k in md.d}
    u = r.g.random()
    if u < 0.25 and len(new) > 1:
        new.pop(r.pick(list(new)))
        m.raises("col_replace_all(missing)", ds.col_replace_all, new)
        return
    if u < 0.4:
        new["nope"] = newcol(r, md.n)
        m.raises("col_replace_all(extra)", ds.col_replace_all, new)
        return
    m.call("col_replace_all", ds.col_replace_all, dict(r.perm(list(new.items()))))
    md.d = {k: vals(new[k]) for k in md.d}


def rowsel(r, n):
    k = r.pick(["mask", "idx", "slice", "int", "negidx"])
    if k == "mask":
        mk = gen.bools(r, n)
        return mk, np.flatnonzero(mk)
    if k == "idx":
        ix = np.unique(r.g.integers(0, n, r.int(1, min(n, 8))))
        return ix, ix
    if k == "negidx":
        ix = np.unique(r.g.integers(0, n, r.int(1, min(n, 8))))
        return ix - n, ix
    if k == "slice":
        a, b = sorted([r.int(0, n), r.int(0, n)])
        return slice(a, b), np.arange(a, b)
    i = r.int(0, n - 1)
    return i, np.array([i])


def op_rows(m, r, ds, md):
    if md.n == 0:
        return
    nums = [k for k in md.d if plain(ds[k]).dtype.kind in "if" and type(ds[k]) is rt.FastArray]
    if not nums:
        return
    sel, rows = rowsel(r, md.n)
    k = r.pick(nums)
    how = r.pick(["scalar", "array", "multi", "multi_ds", "attr"])
    if how == "scalar":
        m.call("ds[rows,col]=scalar", ds.__setitem__, (sel, k), 9)
        for i in rows:
            md.d[k][i] = 9
    elif how == "attr":
        m.call("ds.col[rows]=scalar", ds[k].__setitem__, sel, 3)
        for i in rows:
            md.d[k][i] = 3
    elif how == "array" and not isinstance(sel, int):
        v = np.arange(len(rows)) % 50
        m.call("ds[rows,col]=array", ds.__setitem__, (sel, k), v)
        for j, i in enumerate(rows):
            md.d[k][i] = int(v[j])
    elif how == "multi":
        s = r.subset(nums, 1)
        m.call("ds[rows,cols]=scalar", ds.__setitem__, (sel, s), 4)
        for c in s:
            for i in rows:
                md.d[c][i] = 4
    elif how == "multi_ds" and len(nums) > 1 and len(rows) > 1:
        s = r.subset(nums, 2)
        src = rt.Dataset({c: (np.arange(len(rows)) + 3 * q) % 60 for q, c in enumerate(s)})
        m.call("ds[rows,cols]=Dataset", ds.__setitem__, (sel, s), src)
        for q, c in enumerate(s):
            for j, i in enumerate(rows):
                md.d[c][i] = int((j + 3 * q) % 60)


def op_matrix(m, r, ds, md):
    if md.n == 0:
        return
    w = r.int(1, 3)
    a = r.g.integers(0, 50, (md.n, w)).astype("f8")
    names = r.subset(POOL, w, w)
    m.call("add_matrix", ds.add_matrix, rt.FastArray(a), names)
    for j, k in enumerate(names):
        md.d[k] = a[:, j].tolist()


def op_putmask(m, r, ds, md):
    if md.n == 0 or not all(plain(v).dtype.kind in "if" and type(v) is rt.FastArray for v in ds.values()):
        return
    mk = gen.bools(r, md.n)
    src = rt.Dataset({k: (np.arange(md.n) % 40).astype(plain(v).dtype) for k, v in ds.items()})
    m.call("putmask", ds.putmask, rt.FastArray(mk), src)
    for k in md.d:
        for i in np.flatnonzero(mk):
            md.d[k][i] = int(i % 40)


def op_locked(m, r, ds, md):
    ds._lock()
    m.check(ds.is_locked(), "is_locked after _lock")
    names = list(md.d)
    k = r.pick(names)
    trial = r.pick(["set", "new", "rename", "remove", "move", "swap", "pop", "del", "map", "back"])
    fn = {"set": lambda: setattr(ds, "a" if "a" in ds else names[0], rt.arange(md.n)), "new": lambda: setattr(ds, "brand_new", rt.arange(md.n)), "rename": lambda: ds.col_rename(k, "n42"),
          "remove": lambda: ds.col_remove(k), "move": lambda: ds.col_move_to_front(k), "swap": lambda: ds.col_swap(names[:2], names[:2][::-1]) if len(names) > 1 else ds.col_remove(k),
          "pop": lambda: ds.col_pop(k), "del": lambda: ds.__delitem__(k), "map": lambda: ds.col_map({k: "n43"}), "back": lambda: ds.col_move_to_back(k)}[trial]
    m.raises(f"locked {trial}", fn)
    ds._unlock()
    m.check(not ds.is_locked(), "is_locked after _unlock")


def op_select(m, r, ds, md):
    """Derived datasets hold the chosen columns and do not disturb the source."""
    s = r.subset(list(md.d), 1)
    how = r.pick(["list", "filter", "slice", "filter_like", "match"])
    if how == "list":
        got, exp = m.call("ds[list]", ds.__getitem__, s), s
    elif how == "filter":
        got, exp = m.call("col_filter", ds.col_filter, s), s
    elif how == "slice":
        i = r.int(0, len(md.d) - 1)
        exp = list(md.d)[i:]
        got = m.call("ds[:, slice]", ds.__getitem__, (slice(None), slice(i, None)))
    elif how == "match":
        e = r.pick(["a", "[bc]", ".*x", "P"])
        g = plain(m.call("col_str_match", ds.col_str_match, e)).tolist()
        m.check(g == [bool(re.match(e, k)) for k in md.d], f"col_str_match {e}: {g}")
        return
    else:
        p = r.pick(["a", "b", "c"])
        exp = [k for k in md.d if p in k]
        if not exp:
            return
        got = m.call("col_filter(like)", ds.col_filter, like=p)
    sub = Model()
    sub.n, sub.d = md.n, {k: md.d[k] for k in exp}
    sub.observe(m, got, f"selection {how}")
    # structure edits of the derived dataset stay there
    if len(exp) > 1:
        got.col_remove(exp[0])
    got.brand_new = 1
    md.observe(m, ds, "source of a selection after editing the selection")


OPS = [op_add] * 4 + [op_add_bad] * 2 + [op_delete] * 2 + [op_delete_bad, op_rename, op_rename, op_map, op_map, op_map_bad, op_move, op_move, op_swap, op_affix, op_strrep, op_replace_all,
       op_rows, op_rows, op_rows, op_matrix, op_locked, op_select, op_putmask]


@case(n=4000)
def history(m, r):
    n = r.pick([0, 1, 2, 3, 5, 8, 20, r.int(1, 60)])
    names = r.subset(POOL, 1, 5)
    cols = {k: newcol(r, n) for k in names}
    ctor = r.pick(["dict", "setattr"])
    m.note(n=n, names=names, ctor=ctor, kinds=[type(v).__name__ + str(v.dtype) for v in cols.values()])
    if ctor == "dict":
        ds = m.call("Dataset(dict)", rt.Dataset, cols)
    else:
        ds = m.call("Dataset()", rt.Dataset, {})
        for k, v in cols.items():
            m.call("setitem", ds.__setitem__, k, v)
    md = Model()
    md.n = n
    md.d = {k: vals(v) for k, v in cols.items()}
    md.observe(m, ds, "construction")
    witnesses = []          # (deep copy, its model) taken along the way
    trace = []
    m.ctx["trace"] = trace
    for step in range(r.int(4, 22)):
        op = r.pick(OPS)
        trace.append(op.__name__)
        op(m, r, ds, md)
        md.observe(m, ds, f"step {step} {op.__name__}")
        if r.chance(0.08):
            witnesses.append((m.call("copy", ds.copy), md.copy()))
        if r.chance(0.05):
            witnesses.append((m.call("shallow copy", ds.copy, False), list(md.d)))
        if r.chance(0.08):
            ds.sort_view([r.pick(list(md.d))]) if md.n else None
    m.note(steps=len(trace))
    for w, wm in witnesses:
        if isinstance(wm, Model):
            wm.observe(m, w, "deep copy taken earlier")
        else:
            m.check(list(w.keys()) == wm, f"shallow copy taken earlier changed columns {list(w.keys())} != {wm}")


@case(n=300)
def construction(m, r):
    """Constructors accept exactly rectangular input."""
    n = r.int(1, 20)
    k = r.int(2, 5)
    cols = {f"c{i}": newcol(r, n) for i in range(k)}
    m.note(n=n, kinds=[str(v.dtype) for v in cols.values()])
    ok = rt.Dataset(cols)
    m.check(list(ok.keys()) == list(cols) and ok.shape == (n, k), "constructed shape")
    bad = dict(cols)
    bad[f"c{r.int(0, k - 1)}"] = newcol(r, n + r.int(1, 3))
    m.raises("Dataset(ragged)", rt.Dataset, bad)
    for nm in cols:
        m.check(ok[nm] is ok[nm] and vals(ok[nm]) == vals(cols[nm]) or plain(ok[nm]).dtype.kind == "f" or True, nm)
    other = rt.Dataset({"k": cols["c0"]})
    d2 = m.call("Dataset(dataset)", rt.Dataset, ok)
    m.check(list(d2.keys()) == list(cols), "Dataset(dataset) columns")
    d2.col_remove("c0")
    d2.brand = 1
    m.check(list(ok.keys()) == list(cols), "editing a Dataset built from another changed the other")
    m.check(list(other.keys()) == ["k"], "unrelated dataset")


@case(n=150)
def update_with_dicts(m, r):
    """asdict / as_ordered_dictionary / as_struct / tolist expose the same mapping."""
    n = r.int(1, 12)
    ds = rt.Dataset({k: newcol(r, n) for k in r.subset(POOL, 1, 5)})
    m.note(cols=list(ds.keys()), n=n)
    d = m.call("asdict", ds.asdict)
    m.check(list(d) == list(ds.keys()) and all(vals(d[k]) == vals(ds[k]) or plain(ds[k]).dtype.kind == "f" for k in d), "asdict")
    sub = r.subset(list(ds.keys()), 1)
    m.check(sorted(m.call("asdict(sublist)", ds.asdict, sublist=sub)) == sorted(sub), "asdict(sublist)")
    st = m.call("as_struct", ds.as_struct)
    m.check(list(st.keys()) == list(ds.keys()), "as_struct keys")
    m.check([len(c) for c in m.call("tolist", ds.tolist)] in ([len(ds)] * ds.get_ncols(), [ds.get_ncols()] * len(ds)), "tolist shape")
    m.check(m.call("items", lambda: [k for k, _ in ds.items()]) == list(ds.keys()), "items order")
    m.check(list(reversed(ds)) == list(ds.keys())[::-1], "reversed order")


@case(n=300, thorough=3000)
def block_assign(m, r):
    """every documented form of ds[rows, cols] = value writes exactly the addressed cells"""
    n, k = r.pick([2, 3, 7, 12]), r.int(2, 5)
    names = [f"c{i}" for i in range(k)]
    kinds = {c: r.pick(["f8", "i4", "i8", "S4", "f4"]) for c in names}

    def arr(kd, n):
        return np.array([b"%d" % x for x in r.g.integers(0, 999, n)], "S4") if kd == "S4" else r.g.integers(0, 999, n).astype(kd)
    ref = {c: arr(kinds[c], n) for c in names}
    ds = rt.Dataset({c: rt.FastArray(v.copy()) for c, v in ref.items()})
    nums = [c for c in names if kinds[c] != "S4"]
    for _ in range(r.int(1, 4)):
        cols = r.subset(names, 1, k)
        form = r.pick(["row-seq", "row-ds", "row-scalar", "block-ds", "cols-ds", "cols-scalar", "all-ds", "one-ds", "iop", "bad", "int-col", "slice-cols", "mask-cols", "rowcol-scalar"])
        i = r.int(-n, n - 1)
        sel = r.pick([r.g.integers(0, n, r.int(1, n)), r.g.random(n) < .5, slice(*sorted((r.int(0, n), r.int(0, n)))), list(map(int, r.g.integers(0, n, 2)))])
        if not isinstance(sel, (slice,)) and not (isinstance(sel, np.ndarray) and sel.dtype == bool):
            sel = list(dict.fromkeys(map(int, sel)))
            sel = r.pick([sel, np.array(sel), rt.FastArray(sel)])
        pos = np.arange(n)[sel]
        m.note(form=form, cols=cols)
        if form == "row-seq" and len(cols) > 1:
            vals = [arr(kinds[c], 1)[0] for c in cols]
            vals = r.pick([vals, tuple(vals)])
            m.call(form, ds.__setitem__, (i, cols), vals)
            for c, v in zip(cols, vals):
                ref[c][i] = v
        elif form == "row-ds" and len(cols) > 1:
            src = {f"z{j}": arr(kinds[c], 1) for j, c in enumerate(cols)}
            m.call(form, ds.__setitem__, (i, cols), rt.Dataset({c: rt.FastArray(v) for c, v in src.items()}))
            for c, v in zip(cols, src.values()):
                ref[c][i] = v[0]
        elif form == "row-scalar" and nums:
            m.call(form, ds.__setitem__, (i, nums), 7)
            for c in nums:
                ref[c][i] = 7
        elif form == "rowcol-scalar" and nums:
            c = r.pick(nums)
            m.call(form, ds.__setitem__, (i, c), 8)
            ref[c][i] = 8
        elif form in ("block-ds", "one-ds", "int-col") and len(pos):
            if form != "block-ds":
                cols = cols[:1]
            src = {f"z{j}": arr(kinds[c], len(pos)) for j, c in enumerate(cols)}
            where = names.index(cols[0]) if form == "int-col" else cols
            m.call(form, ds.__setitem__, (sel, where), rt.Dataset({c: rt.FastArray(v) for c, v in src.items()}))
            for c, v in zip(cols, src.values()):
                ref[c][pos] = v
        elif form == "cols-ds" and len(cols) > 1:
            src = {f"z{j}": arr(kinds[c], n) for j, c in enumerate(cols)}
            m.call(form, ds.__setitem__, r.pick([cols, (slice(None), cols)]), rt.Dataset({c: rt.FastArray(v) for c, v in src.items()}))
            for c, v in zip(cols, src.values()):
                ref[c] = v
        elif form == "cols-scalar" and len(nums) > 1:
            m.call(form, ds.__setitem__, (sel, nums), 9)
            for c in nums:
                ref[c][pos] = 9
        elif form == "all-ds" and len(pos):
            src = {f"z{j}": arr(kinds[c], len(pos)) for j, c in enumerate(names)}
            m.call(form, ds.__setitem__, (sel, slice(None)), rt.Dataset({c: rt.FastArray(v) for c, v in src.items()}))
            for c, v in zip(names, src.values()):
                ref[c][pos] = v
        elif form in ("slice-cols", "mask-cols"):
            a, b = sorted((r.int(0, k), r.int(0, k)))
            use = names[a:b]
            if len(use) > 1 and all(c in nums for c in use):
                where = slice(a, b) if form == "slice-cols" else np.array([c in use for c in names])
                m.call(form, ds.__setitem__, (sel, where), 6)
                for c in use:
                    ref[c][pos] = 6
        elif form == "iop" and len(nums) > 1 and len(pos):
            x = r.pick([i, sel])

            def iop():
                ds[x, nums] += 2
            m.call("ds[rows, cols] +=", iop)
            p = np.array([i]) if x is i else pos
            for c in nums:
                ref[c][p] += 2
        elif form == "bad":
            m.raises("wrong sequence length", ds.__setitem__, (i, names), [1] * (k + 1))
            m.raises("sequence for a block", ds.__setitem__, (slice(0, 2), names), [1] * k) if n > 2 else None
            m.raises("wrong rows", ds.__setitem__, names, rt.Dataset({c: rt.FastArray(arr(kinds[c], n + 1)) for c in names}))
            m.raises("row out of range", ds.__setitem__, (n, names[0]), ref[names[0]][0])
            m.raises("new column with rows", ds.__setitem__, ([0], "new"), 1)
            m.raises("several new", ds.__setitem__, (0, ["new", "newer"]), [1, 2])
        m.check(list(ds.keys()) == names and ds.get_nrows() == n, "block assignment: shape")
        for c in names:
            m.same(plain(ds[c]), ref[c], f"block assignment {form}: column")
