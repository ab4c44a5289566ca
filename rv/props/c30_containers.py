"""C30: nested containers keep every item reachable under its own name and path."""
import copy as cp
import pickle
import re
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

warnings.simplefilter("ignore")
np.seterr(all="ignore")

NAMES = ["a", "b", "ab", "a_b", "price", "Price", "trade_time", "time2", "x1", "x10", "x", "été", "名", "A B", "col.1"]
LEAF = ["f8", "i4", "S", "U", "bool", "date", "dtn", "cat", "span", "int", "float", "str", "np", "2d"]


def leaf(r, kind=None, n=None, multi=True):
    k = kind or r.pick(LEAF)
    n = r.pick([0, 1, 3, 8]) if n is None else n
    if k == "int":
        return r.int(-99, 99)
    if k == "float":
        return r.int(-99, 99) / 4
    if k == "str":
        return r.pick(["", "fish", "a/b", "ünï"])
    if k == "np":
        return r.pick([np.int32, np.float64, np.uint8])(r.int(0, 99))
    if k == "dtn":
        return rt.DateTimeNano(plain(gen.nanos(r, n)).astype("i8"), from_tz="GMT", to_tz="NYC")
    if k == "2d":
        return rt.FastArray(r.g.integers(0, 99, (3, 4)))
    if k == "cat":
        return gen.cat(r, max(n, 1), kind=r.pick(["str", "codes", "ordered0", "int", "enum"] + ["multi"] * multi))
    return gen.column(r, n, k)


def dset(r, n=None, names=None, kinds=None):
    n = r.pick([1, 3, 8]) if n is None else n
    names = names or r.subset(NAMES, 1, 4)
    return rt.Dataset({c: leaf(r, r.pick(kinds or ["f8", "i4", "S", "U", "bool", "date", "dtn", "cat"]), n, multi=False) for c in names})  # multikey Categoricals of Datasets cannot be compared (documented)


def tree(r, depth=2, kinds=None, empty=.1, names=None, datasets=True):
    """an ordered dict of leaves, Datasets and nested dicts"""
    out = {}
    for c in r.subset(names or NAMES, 0 if r.chance(empty) else 1, 5):
        x = r.int(0, 9)
        if depth and x < 3:
            out[c] = tree(r, depth - 1, kinds, empty, names, datasets)
        elif datasets and x == 3:
            out[c] = dset(r)
        else:
            out[c] = leaf(r, kinds and r.pick(kinds))
    return out


def build(t):
    s = rt.Struct()
    for k, v in t.items():
        s[k] = build(v) if isinstance(v, dict) else v
    return s


def item_eq(a, b):
    """same item: same kind and same content"""
    if isinstance(b, rt.Dataset):
        return isinstance(a, rt.Dataset) and list(a) == list(b) and all(item_eq(a[k], b[k]) for k in b)
    if isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or a.shape != b.shape:
            return False
        if type(a) is not type(b) and not (type(b) is np.ndarray and type(a) is rt.FastArray):
            return False
        if isinstance(b, rt.Categorical):
            return repr(gen.cat_labels(a)) == repr(gen.cat_labels(b))
        p, q = plain(a), plain(b)
        if p.dtype.kind in "SU":
            return p.dtype.kind == q.dtype.kind and p.tolist() == q.tolist() or not p.size
        return gen.snap_diff({"v": p}, {"v": q}) is None
    if isinstance(b, (int, float, str, np.number)):
        return isinstance(a, (int, float, str, np.number)) and isinstance(a, str) == isinstance(b, str) and a == b
    return gen.snap_diff(gen.snap(a), gen.snap(b)) is None


def is_tree(s, t, path=""):
    """None, or where the container differs from the tree"""
    if not isinstance(s, rt.Struct) or isinstance(s, rt.Dataset):
        return f"{path}: {type(s).__name__} not a Struct"
    if list(s.keys()) != list(t):
        return f"{path}: names {list(s.keys())} not {list(t)}"
    for k, v in t.items():
        g = s[k]
        if isinstance(v, dict):
            d = is_tree(g, v, f"{path}/{k}")
            if d:
                return d
        elif not item_eq(g, v):
            return f"{path}/{k}: {g!r:.80} not {v!r:.80}"
    return None


def agree(m, s, t, what):
    d = m.call("observe", is_tree, s, t)
    m.check(d is None, what, where=str(d)[:250])


def reach(m, s, t, what):
    """every view of a container tells the same story"""
    names = list(t)
    m.check(list(s) == names and list(s.keys()) == names and [k for k, _ in s.items()] == names, what + ": iteration")
    m.check(list(reversed(s)) == names[::-1], what + ": reversed")
    m.check(s.get_ncols() == len(names) == s.col_get_len() and s.shape[1] == len(names), what + ": size", shape=s.shape)
    vs = list(s.values())
    od, ad = s.as_ordered_dictionary(), s.asdict()
    m.check(list(od) == names == list(ad), what + ": dictionaries")
    for i, k in enumerate(names):
        x = s[k]
        m.check(getattr(s, k) is x and s.col_get_value(k) is x and vs[i] is x and s[i] is x and s[i - len(names)] is x and od[k] is x and ad[k] is x and s[k.encode()] is x,
                what + ": the ways to reach an item", name=k)
        m.check(k in s and s.col_exists(k) and k in dir(s), what + ": membership", name=k)
    for k in ("zz", "a/", " "):
        if k not in t:
            m.check(k not in s, what + ": absent name", name=k)
            m.raises("absent", lambda: s[k])
    m.raises("past end", lambda: s[len(names)])


@case(n=250, thorough=2500)
def construct(m, r):
    t = tree(r)
    s = m.call("Struct", rt.Struct, {k: build(v) if isinstance(v, dict) else v for k, v in t.items()}) if r.chance() else m.call("Struct[]=", build, t)
    agree(m, s, t, "construction")
    reach(m, s, t, "construction")
    for k, v in t.items():
        if isinstance(v, dict):
            reach(m, s[k], v, "construction, nested")
    m.check(s.has_nested_containers == any(isinstance(v, (dict, rt.Dataset)) for v in t.values()), "has_nested_containers")


# ---------------------------------------------------------------- histories
def step(m, r, s, t):
    """one operation on the container and on the plain ordered dict; returns the dict afterwards"""
    names = list(t)
    op = r.pick(["set", "setattr", "del", "delattr", "rename", "map", "front", "back", "move", "swap", "pop", "poplist", "remove", "like", "regex",
                 "prefix", "suffix", "replace", "setmany", "bad", "badmap", "popmask", "badremove", "lock"])
    m.note(op=op)
    new = dict(t)
    fresh = [c for c in NAMES + ["n%d" % i for i in range(9)] if c not in t]

    def renamed(f):
        return {f(k): v for k, v in t.items()}
    if op in ("set", "setattr"):
        c, v = r.pick(NAMES), leaf(r)
        m.call(op, s.__setitem__ if op == "set" else s.__setattr__, c, v)
        new[c] = v
        return new
    if op == "lock":
        s._lock()
        c = r.pick(NAMES)
        m.raises("locked set", s.__setattr__, c, 1)
        if names:
            m.raises("locked rename", s.col_rename, names[0], fresh[0])
            m.raises("locked remove", s.col_remove, names[0])
        s._unlock()
        return new
    if not names:
        return new
    c = r.pick(names)
    if op in ("del", "delattr"):
        m.call(op, s.__delitem__ if op == "del" else s.__delattr__, c)
        del new[c]
    elif op == "rename":
        n = r.pick(fresh)
        m.call("col_rename", s.col_rename, c, n)
        new = renamed(lambda k: n if k == c else k)
    elif op == "map":
        # any one-to-one renaming that ends with distinct names, cycles and chains included
        src = r.subset(names, 1, len(names))
        targets = r.perm(src + r.subset(fresh, 0, 3))[:len(src)]
        mp = dict(zip(src, targets))
        if r.chance(.3):
            mp[fresh[-1]] = "gone"
        res, exc = m.attempt("col_map", s.col_map, mp)
        full = renamed(lambda k: mp.get(k, k))
        legal = len(full) == len(t)
        if exc is not None:
            m.check(not legal or fresh[-1] in mp, "a one-to-one renaming was refused", map=mp, error=repr(exc)[:120])
        else:
            m.check(legal, "a colliding renaming was accepted", map=mp)
            # names that swap keep their places, values move: compare as a mapping
            m.check(set(s.keys()) == set(full), "col_map: names", map=mp, have=list(s.keys()))
            new = {k: full[k] for k in s.keys()}
    elif op in ("front", "back", "move"):
        cols = r.subset(names, 1, len(names))
        form = r.pick([cols, tuple(cols), np.array(cols)]) if len(cols) > 1 else r.pick([cols, cols[0], names.index(cols[0])])
        if op == "front":
            m.call("col_move_to_front", s.col_move_to_front, form)
            new = {**{k: t[k] for k in cols}, **{k: v for k, v in t.items() if k not in cols}}
        elif op == "back":
            m.call("col_move_to_back", s.col_move_to_back, form)
            new = {**{k: v for k, v in t.items() if k not in cols}, **{k: t[k] for k in cols}}
        else:
            h = len(cols) // 2
            f, b = cols[:h], cols[h:]
            m.call("col_move", s.col_move, f, b)
            new = {**{k: t[k] for k in f}, **{k: v for k, v in t.items() if k not in cols}, **{k: t[k] for k in b}}
    elif op == "swap":
        f = r.subset(names, 1, len(names))
        to = r.perm(f)
        m.call("col_swap", s.col_swap, f, to)
        for x, y in zip(f, to):
            new[y] = t[x]
    elif op == "pop":
        got = m.call("col_pop", s.col_pop, r.pick([c, names.index(c), names.index(c) - len(names), c.encode()]))
        m.check(item_eq(got, t[c]) if not isinstance(t[c], dict) else is_tree(got, t[c]) is None, "col_pop: the item", name=c)
        del new[c]
    elif op in ("poplist", "popmask"):
        cols = r.subset(names, 1, len(names))
        form = cols
        if op == "popmask":
            k = r.int(0, 3)
            idx = [names.index(x) for x in cols]
            if k == 0:
                form = np.isin(np.arange(len(names)), idx)
                cols = [x for x in names if x in cols]
            elif k == 1:
                form = np.array(idx)
            elif k == 2:
                a, b = sorted((r.int(0, len(names)), r.int(0, len(names))))
                form, cols = slice(a, b), names[a:b]
            else:
                form = np.array(cols, dtype=object).astype("U")
        got = m.call("col_pop", s.col_pop, form)
        if not (isinstance(form, slice) and not cols):
            agree(m, got, {k: t[k] for k in cols}, "col_pop: the items")
        for k in cols:
            del new[k]
    elif op == "remove":
        cols = r.subset(names, 1, len(names))
        form = r.pick([cols, tuple(cols), np.array(cols), [names.index(x) for x in cols]]) if len(cols) > 1 else r.pick([cols[0], cols])
        m.call("col_remove", s.col_remove, form)
        for k in cols:
            del new[k]
    elif op in ("like", "regex"):
        p = r.pick(["a", "e", "x1", "im", "P", "zz"])
        m.call("col_remove", s.col_remove, **{op: p if op == "like" else p + "$"})
        new = {k: v for k, v in t.items() if not (p in k if op == "like" else re.search(p + "$", k))}
    elif op == "prefix":
        m.call("col_add_prefix", s.col_add_prefix, "p_")
        new = renamed(lambda k: "p_" + k)
    elif op == "suffix":
        m.call("col_add_suffix", s.col_add_suffix, "_s")
        new = renamed(lambda k: k + "_s")
    elif op == "replace":
        old, n = r.pick([("a", "b"), ("p_", ""), ("_s", ""), ("x", "xx"), ("i", "I"), ("1", "2")])
        mx = r.pick([-1, 1])
        res, exc = m.attempt("col_str_replace", s.col_str_replace, old, n, max=mx)
        full = renamed(lambda k: k.replace(old, n, mx))
        if exc is None:
            m.check(len(full) == len(t), "a colliding replacement was accepted", old=old, new=n)
            new = full
        else:
            hits = [k for k in t if k.replace(old, n, mx) != k]
            outs = [k.replace(old, n, mx) for k in hits]
            m.check(len(full) < len(t) or set(outs) & set(t) or "" in outs, "a replacement without conflict was refused", old=old, new=n, error=repr(exc)[:100])
    elif op == "setmany":
        cols = r.subset(names, 1, len(names))
        vs = [leaf(r, r.pick(["int", "f8", "str"])) for _ in cols]
        if len(cols) == 1:
            m.call("[]=", s.__setitem__, cols, vs[0])
        else:
            m.call("[]=", s.__setitem__, cols, vs)
        new.update(zip(cols, vs))
    elif op == "bad":
        m.raises("rename absent", s.col_rename, "nope", fresh[0])
        if len(names) > 1:
            m.raises("rename onto", s.col_rename, names[0], names[1])
            m.raises("swap not a permutation", s.col_swap, [names[0]], [names[1]])
            m.raises("set many wrong size", s.__setitem__, names, [1] * (len(names) + 1))
        m.raises("set several new", s.__setitem__, ["q1", "q2"], [1, 2])
        m.raises("pop absent", s.col_pop, "nope")
        m.raises("pop absent", s.col_pop, [names[0], "nope"])
    elif op == "badmap":
        if len(names) > 1:
            m.raises("map onto kept name", s.col_map, {names[0]: names[1]})
            m.raises("map two onto one", s.col_map, {names[0]: fresh[0], names[1]: fresh[0]})
            m.raises("map partly illegal", s.col_map, {names[0]: fresh[0], names[1]: "_bad name" if r.chance(0) else 5})
    elif op == "badremove":
        m.raises("remove absent", s.col_remove, [names[0], "nope"], on_missing="raise")
        m.call("remove ignore", s.col_remove, [names[-1], "nope"], on_missing="ignore")
        del new[names[-1]]
    return new


@case(n=300, thorough=3000)
def history(m, r):
    t = tree(r, depth=1, empty=0)
    s = build(t)
    for i in range(r.int(3, 14)):
        t = step(m, r, s, t)
        agree(m, s, t, f"after step {i + 1}")
    reach(m, s, t, "after a history")


# ---------------------------------------------------------------- selection
@case(n=250, thorough=2500)
def select(m, r):
    t = tree(r, depth=1, empty=0)
    s = build(t)
    names = list(t)
    n = len(names)
    cols = r.subset(names, 1, n)
    idx = [names.index(c) for c in cols]
    mask = [c in cols for c in names]
    a, b, st = r.int(-n - 1, n + 1), r.int(-n - 1, n + 1), r.pick([None, 1, 2, -1])
    forms = {"list": (cols, cols), "bytes": ([c.encode() for c in cols], cols), "array": (np.array(cols), cols), "ints": (idx, cols), "intarray": (rt.FastArray(idx), cols),
             "neg": ([i - n for i in idx], cols), "mask": (mask, [c for c in names if c in cols]), "maskarray": (rt.FastArray(mask), [c for c in names if c in cols]),
             "slice": (slice(a, b, st), names[a:b:st])}
    for f, (x, want) in forms.items():
        got = m.call("[] " + f, s.__getitem__, x)
        agree(m, got, {k: t[k] for k in want}, f"selection by {f}")
        for k in want:
            m.check(got[k] is s[k], f"selection by {f} shares the items", name=k)
    m.raises("absent", s.__getitem__, [names[0], "nope"])
    m.raises("twice", s.__getitem__, [names[0], names[0]])
    pat = r.pick(["a", "x1", "im", "^p", "e$", "[aA]", "zz"])
    for how, want in (("regex", [k for k in names if re.search(pat, k)]), ("like", [k for k in names if pat in k])):
        if not want:
            m.raises("nothing left", s.col_filter, **{how: pat})
            continue
        got = m.call("col_filter", s.col_filter, **{how: pat})
        agree(m, got, {k: t[k] for k in want}, "col_filter " + how)
    got = m.call("col_filter", s.col_filter, items=cols)
    agree(m, got, {k: t[k] for k in cols}, "col_filter items")
    hit = list(dict.fromkeys(cols + [k for k in names if pat in k]))
    got = m.call("col_filter", s.col_filter, items=cols, like=pat)
    agree(m, got, {k: t[k] for k in hit}, "col_filter items and like")
    got = m.call("col_filter", s.col_filter, items=cols + ["nope"], on_missing="ignore")
    agree(m, got, {k: t[k] for k in cols}, "col_filter ignoring missing")
    m.raises("missing", s.col_filter, items=cols + ["nope"])
    got = m.call("col_str_match", s.col_str_match, pat)
    m.check(list(got) == [re.match(pat, k) is not None for k in names], "col_str_match", pattern=pat)
    got = m.call("asdict", s.asdict, sublist=cols)
    m.check(set(got) == set(cols) and all(got[k] is s[k] for k in cols), "asdict of a sublist")
    agree(m, s, t, "after selection")


@case(n=150, thorough=1500)
def search(m, r):
    t = tree(r, depth=3)
    s = build(t)
    pat = r.pick(["a", "x1", "im", "^p", "e$", "[aA]", "zz", "PRICE", "^x\\d", ""])
    cs, rec = r.chance(), r.chance(.8)

    def want(t, path=""):
        keys = list(t)
        out = [path + k for k in keys if re.search(pat, k, 0 if cs else re.I)]
        if rec and not isinstance(t, rt.Dataset):
            for k in keys:
                if isinstance(t[k], (dict, rt.Dataset)):
                    out += want(t[k], path + k + ".")
        return out
    got = m.call("key_search", s.key_search, pat, case_sensitive=cs, recursive=rec)
    m.check(got == want(t), "key_search", pattern=pat, have=got, want=want(t))
    for p in got:
        if not any("." in k for k in NAMES if k in p):
            x = s
            for k in p.split("."):
                x = x[k]
    txt = m.call("tree", s.tree)
    m.check(all(k in str(txt) for k in t), "tree names every item")


# ---------------------------------------------------------------- copying and flattening
@case(n=200, thorough=2000)
def copies(m, r):
    t = tree(r)
    s = build(t)
    how = r.pick(["copy", "shallow", "deepcopy", "pickle"])
    f = {"copy": s.copy, "shallow": lambda: s.copy(deep=False), "deepcopy": lambda: cp.deepcopy(s), "pickle": lambda: pickle.loads(pickle.dumps(s))}[how]
    c, exc = m.attempt(how, f)
    if exc is not None:
        m.check(how in ("deepcopy", "pickle"), how + " refused", error=repr(exc)[:150])
        return
    agree(m, c, t, how)
    m.check(type(c) is rt.Struct, how + ": type")

    def shared(x, y, path):
        if isinstance(x, rt.Struct):
            m.check(x is not y, "a deep copy shares a container", path=path)
            for k in x:
                shared(x[k], y[k], path + "/" + k)
        elif isinstance(x, np.ndarray) and x.size:
            m.check(not np.shares_memory(plain(x), plain(y)), "a deep copy shares data", path=path)
    if how == "shallow":
        for k in t:
            m.check(c[k] is s[k], "a shallow copy holds the same items", name=k)
    else:
        shared(s, c, "")
    # editing the copy's names leaves the original alone
    c["fresh"] = 1
    if t:
        k = r.pick(list(t))
        c.col_remove(k)
    agree(m, s, t, "the original after editing the copy")


@case(n=250, thorough=2500)
def flatten(m, r):
    t = tree(r, depth=3, empty=.15)
    s = build(t)
    sep = r.pick(["/", "/", "|", "--"])
    flat = m.call("flatten", s.flatten, sep=sep)
    agree(m, s, t, "after flatten")

    def leaves(x, path=""):
        for k, v in x.items():
            if isinstance(v, (dict, rt.Dataset)):
                yield path + k + sep, None
                yield from leaves(v, path + k + sep)
            else:
                yield path + k, v
    names = list(flat.keys())
    for k, v in leaves(t):
        m.check(k in names, "a flattened item is missing", name=k)
        if v is not None and type(v) is rt.FastArray:
            m.check(item_eq(flat[k], v), "a flattened array", name=k)
    back = m.call("flatten_undo", flat.flatten_undo)
    agree(m, back, t, "flatten then undo")
    back = m.call("flatten_undo", flat.flatten_undo, sep=sep)
    agree(m, back, t, "flatten then undo twice")
    m.check(list(flat.keys()) == names, "flatten_undo leaves its input alone")


@case(n=120, thorough=1200)
def flatten_prefixed(m, r):
    """nested names that are prefixes of their neighbours' names"""
    base = r.pick(["a", "x", "price"])
    names = r.perm([base, base + "1", base + "/", base + "!", base + "_", base * 2])[:r.int(2, 5)]
    t = {}
    for c in names:
        c2 = c.replace("/", "").replace("!", "") or "q"
        if r.chance(.6):
            t[c2] = {k: leaf(r, r.pick(["f8", "int", "cat"])) for k in r.subset([base, base + "1", base * 2], 0, 3)}
        else:
            t[c2] = leaf(r, r.pick(["f8", "int", "cat"]))
    s = build(t)
    back = m.call("flatten_undo", m.call("flatten", s.flatten).flatten_undo)
    agree(m, back, t, "flatten then undo, names that prefix each other")


# ---------------------------------------------------------------- comparing
def change(r, t):
    """a tree that differs from t in exactly one place (None when there is no place)"""
    t = dict(t)
    if not t:
        return {"new": 1}
    k = r.pick(list(t))
    v = t[k]
    x = r.int(0, 9)
    if x == 0 and len(t) > 1:
        ks = list(t)
        i = r.int(0, len(ks) - 2)
        ks[i], ks[i + 1] = ks[i + 1], ks[i]
        return {c: t[c] for c in ks}
    if x == 1:
        del t[k]
        return t
    if x == 2:
        return {("other" if c == k else c): w for c, w in t.items()}
    if isinstance(v, dict):
        t[k] = change(r, v) if x < 8 else 1
    elif isinstance(v, rt.Dataset):
        w = v.copy()
        c = r.pick(list(w))
        if not isinstance(w[c], (rt.Categorical,)) and plain(w[c]).dtype.kind in "if":
            y = w[c]
            y[r.int(0, len(y) - 1)] = 123 if plain(y)[0] != 123 else 124
            if item_eq(w, v):
                w.col_remove(c)
        else:
            w.col_remove(c) if len(w.keys()) > 1 else w.col_rename(c, "other")
        t[k] = w
    elif isinstance(v, rt.Categorical):
        t[k] = 5
    elif isinstance(v, np.ndarray):
        w = v.copy()
        p = plain(w)
        if p.size and p.dtype.kind in "ifub" and x < 8:
            i = tuple(r.int(0, d - 1) for d in p.shape)
            old = p[i].copy()
            p[i] = (not old) if p.dtype.kind == "b" else 111 if old != 111 else 112
            t[k] = w
        else:
            t[k] = rt.FastArray(np.append(p.ravel(), p.ravel()[:1])) if p.size else rt.FastArray([1, 2])
    elif isinstance(v, str):
        t[k] = v + "!"
    else:
        t[k] = v + 1
    return t


@case(n=300, thorough=3000)
def equality(m, r):
    t = tree(r)
    s = build(t)
    other = build(t) if r.chance() else s.copy()
    m.check(m.call("equals", s.equals, other) is True, "equal containers compare unequal")
    m.check(m.call("equals", s.equals, s) is True, "a container is unequal to itself")
    t2 = change(r, t)
    s2 = build(t2)
    if not all(isinstance(v, (dict,)) or True for v in t2.values()):
        return
    a, e1 = m.attempt("equals", s.equals, s2)
    b, e2 = m.attempt("equals", s2.equals, s)
    m.check(e1 is None and e2 is None, "equals raised", error=repr(e1 or e2)[:150])
    m.check(a is False and b is False, "different containers compare equal", was=repr(t)[:150], now=repr(t2)[:150])
    agree(m, s, t, "after comparing")


@case(n=150, thorough=1500)
def equality_arrays(m, r):
    """arrays of equal bytes that do not denote equal values"""
    n = r.pick([2, 4, 8])
    v = r.g.integers(1, 5, n)
    pairs = {
        "shape": (rt.FastArray(v.reshape(2, -1)), rt.FastArray(v.copy())),
        "int/uint": (rt.FastArray(np.full(n, -1, "i4")), rt.FastArray(np.full(n, -1, "i4").view("u4"))),
        "float/int": (rt.FastArray(v.astype("f8")), rt.FastArray(v.astype("f8").view("i8"))),
        "categories": (rt.Categorical((v - 1).astype("i4"), ["a", "b", "c", "d"], base_index=0), rt.Categorical((v - 1).astype("i4"), ["a", "b", "c", "e"], base_index=0)),
        "width": (rt.FastArray(np.array([b"ab", b"cd"])), rt.FastArray(np.array([b"abcd"]))),
        "cat/array": (rt.Categorical([1, 2, 1]), rt.FastArray(np.array([1, 2, 1], "i1"))),
        "time/int": (rt.DateTimeNano(v.astype("i8") * 10**18 // 7, from_tz="NYC", to_tz="NYC"), rt.FastArray(v.astype("i8"))),
        "length": (rt.FastArray(np.zeros(n)), rt.FastArray(np.zeros(n + 1))),
    }
    k = r.pick(list(pairs))
    a, b = pairs[k]
    m.note(pair=k)
    got, exc = m.attempt("equals", rt.Struct({"x": a}).equals, rt.Struct({"x": b}))
    m.check(exc is None and got is False, "different arrays compare equal: " + k, error=repr(exc)[:100])
    # and arrays of equal values held differently are equal
    w = gen.column(r, 2 * n, r.pick(["f8", "i4", "S", "U", "bool", "i1"]))
    st = w[::2]
    got, exc = m.attempt("equals", rt.Struct({"x": st}).equals, rt.Struct({"x": st.copy()}))
    m.check(exc is None and got is True, "a strided array is unequal to its copy", error=repr(exc)[:100])
    got, exc = m.attempt("equals", rt.Struct({"x": w[::-1]}).equals, rt.Struct({"x": w[::-1].copy()}))
    m.check(exc is None and got is True, "a reversed array is unequal to its copy", error=repr(exc)[:100])
    got, exc = m.attempt("equals", rt.Struct({"x": 1}).equals, rt.Struct({"x": rt.Struct({"y": 1})}))
    m.check(exc is None and got is False, "a number against a Struct", error=repr(exc)[:100])
    got, exc = m.attempt("equals", rt.Struct({"x": rt.Struct({"y": 1})}).equals, rt.Struct({"x": 1}))
    m.check(exc is None and got is False, "a Struct against a number", error=repr(exc)[:100])


# ---------------------------------------------------------------- stacking
@case(n=150, thorough=1500)
def stacking(m, r):
    k = r.int(1, 4)
    shape = tree(r, depth=2, kinds=["f8", "i4", "S", "U", "bool", "date", "dtn", "cat", "span"], empty=0)

    def again(t, first):
        out = {}
        for c, v in t.items():
            if isinstance(v, dict):
                out[c] = again(v, first)
            elif isinstance(v, rt.Dataset):
                n = r.pick([1, 2, 5])
                out[c] = rt.Dataset({q: like(w, n) for q, w in v.items()})
            else:
                out[c] = like(v, r.pick([1, 2, 5]))
        return out

    def like(v, n):
        if isinstance(v, rt.Categorical):
            return rt.Categorical(gen.words(r, n))
        for kd, ty in (("date", rt.Date), ("dtn", rt.DateTimeNano), ("span", rt.TimeSpan)):
            if isinstance(v, ty):
                return leaf(r, kd, n)
        d = plain(v).dtype
        return leaf(r, {"f": "f8", "i": "i4", "S": "S", "U": "U", "b": "bool"}[d.kind], n)
    ts = [again(shape, i == 0) for i in range(k)]
    ss = [build(t) for t in ts]
    out = m.call("hstack", rt.Struct.hstack if r.chance() else rt.Struct.concat_structs, ss)

    def cells(a):
        if isinstance(a, rt.Categorical):
            return gen.cat_labels(a)
        return [gen.txt(v) if isinstance(v, (bytes, str)) else v for v in plain(a).tolist()]

    def walk(o, xs, path):
        if isinstance(xs[0], (dict, rt.Dataset)):
            m.check(isinstance(o, rt.Struct) and set(o.keys()) == set(xs[0]), "stacked names", path=path)
            for c in xs[0]:
                walk(o[c], [x[c] for x in xs], path + "/" + c)
        else:
            want = [v for x in xs for v in cells(x)]
            got = cells(o)
            m.check(len(got) == len(want) and all(a == b or (a != a and b != b) for a, b in zip(got, want)), "stacked values", path=path, have=got[:8], want=want[:8])
            m.check(type(o) is type(xs[0]), "stacked type", path=path, have=type(o).__name__)
    walk(out, ts, "")
    for s, t in zip(ss, ts):
        agree(m, s, t, "an input of stacking")


# ---------------------------------------------------------------- Multiset
def mset(r, n=None, depth=1, cols=None, kinds=None, same_cols=False):
    n = r.pick([1, 3, 8]) if n is None else n
    cols = cols or r.subset(["a", "b", "c", "key", "v"], 1, 4)
    d = {}
    for c in r.subset(["one", "two", "three", "four"], 1, 4):
        if depth and r.chance(.25):
            d[c] = mset(r, n, depth - 1, cols, kinds, same_cols)
        else:
            d[c] = dset(r, n, cols if same_cols or r.chance() else r.subset(["a", "b", "c", "key", "v"], 1, 4), kinds)
    return d


def mbuild(d):
    return rt.Multiset({k: mbuild(v) if isinstance(v, dict) else v for k, v in d.items()})


def is_mset(s, d, path=""):
    if not isinstance(s, rt.Multiset):
        return f"{path}: {type(s).__name__} not a Multiset"
    if list(s.keys()) != list(d):
        return f"{path}: names {list(s.keys())} not {list(d)}"
    for k, v in d.items():
        g = s[k]
        e = is_mset(g, v, f"{path}/{k}") if isinstance(v, dict) else None if item_eq(g, v) else f"{path}/{k}"
        if e:
            return e
    return None


def magree(m, s, d, what):
    e = m.call("observe", is_mset, s, d)
    m.check(e is None, what, where=str(e)[:200])


@case(n=250, thorough=2500)
def multiset(m, r):
    n = r.pick([1, 3, 8])
    d = mset(r, n)
    s = m.call("Multiset", mbuild, d)
    magree(m, s, d, "construction")
    m.check(len(s) == n and s.shape[0] == n, "rows of a Multiset", have=len(s), want=n)
    bad = dset(r, n + 1)
    for f in (lambda: s.__setitem__("one", bad), lambda: s.__setattr__("one", bad), lambda: s.__setitem__("newone", bad), lambda: rt.Multiset({"p": dset(r, n), "q": bad}),
              lambda: s.__setitem__("one", rt.arange(n)), lambda: rt.Multiset({"p": rt.arange(3)})):
        m.raises("rows must match", f)
    magree(m, s, d, "after refused edits")
    how = r.pick(["copy", "shallow", "rows", "col", "rowcol", "multiget", "cascade", "mask", "name", "edit"])
    m.note(how=how)
    flat = {k: v for k, v in d.items() if not isinstance(v, dict)}

    def mapped(d, f):
        return {k: mapped(v, f) if isinstance(v, dict) else f(v) for k, v in d.items()}
    if how in ("copy", "shallow"):
        c = m.call("copy", s.copy, deep=how == "copy")
        magree(m, c, d, "copy")
        c.col_remove(list(d)[0])
    elif how in ("rows", "mask"):
        if how == "rows":
            idx = r.pick([slice(0, n - 1), slice(None, None, 2), [0], list(range(n))[::-1], r.int(0, n - 1), r.int(-n, -1)])
        else:
            idx = gen.bools(r, n)
            idx[0] = True
        got = m.call("[rows,:]", s.__getitem__, (idx, slice(None)))
        one = [idx] if isinstance(idx, int) else idx
        magree(m, got, mapped(d, lambda v: v[one, :]), "rows of a Multiset")
    elif how == "name":
        k = r.pick(list(d))
        m.check(s[k] is getattr(s, k), "an item of a Multiset", name=k)
        if not isinstance(d[k], dict):
            got = m.call("[rows,name]", s.__getitem__, ([0], k))
            m.check(item_eq(got, d[k][[0], :]), "rows of one item", name=k)
    elif how in ("col", "rowcol"):
        c = r.pick(["a", "b", "c", "key", "v"])

        def pick(d):
            out = {}
            for k, v in d.items():
                if isinstance(v, dict):
                    p = pick(v)
                    if p:
                        out[k] = p
                elif c in v:
                    out[k] = rt.Dataset({c: v[c][[0]] if how == "rowcol" else v[c]})
            return out
        want = pick(d)
        if how == "col":
            got, exc = m.attempt("[col]", s.__getitem__, c)
        else:
            got, exc = m.attempt("[rows,col]", s.__getitem__, ([0], c))
        if want:
            m.check(exc is None, "a sub column was refused", error=repr(exc)[:100])
            magree(m, got, want, "a sub column of a Multiset")
        else:
            m.check(exc is not None, "an absent sub column was found")
    elif how == "multiget":
        cols = r.subset(["a", "b", "c", "key", "v"], 1, 3)
        deep = r.chance()
        s1 = mbuild(flat)
        if flat:
            got = m.call("multiget", s1.multiget, cols, deep=deep)
            want = {k: v[[c for c in cols if c in v]] for k, v in flat.items() if any(c in v for c in cols)}
            magree(m, got, want, "multiget")
    elif how == "edit":
        k = r.pick(list(d))
        new = dset(r, n)
        m.call("[]=", s.__setitem__, k, new)
        d[k] = new
        magree(m, s, d, "after replacing an item")
        new = dset(r, n)
        m.call("setattr", s.__setattr__, "five", new)
        d["five"] = new
        magree(m, s, d, "after adding an item")
        m.call("col_rename", s.col_rename, "five", "six")
        d = {("six" if q == "five" else q): v for q, v in d.items()}
        magree(m, s, d, "after renaming an item")
        m.call("col_remove", s.col_remove, k)
        del d[k]
        magree(m, s, d, "after removing an item")
    else:
        f = lambda v: rt.Dataset({"n": rt.FastArray([v.get_nrows()]), "c": rt.FastArray([len(v.keys())])})
        s1 = mbuild(flat)
        if flat:
            got = m.call("cascade", s1.cascade, f)
            magree(m, got, {k: f(v) for k, v in flat.items()}, "cascade")
    if how not in ("edit",):
        magree(m, s, d, "the Multiset afterwards")


@case(n=200, thorough=2000)
def cascades(m, r):
    n = r.pick([2, 5, 9])
    d = mset(r, n, depth=0, kinds=["f8", "i4"])
    s = mbuild(d)
    op = r.pick(["sum", "mean", "nansum", "nanmin", "max", "std", "abs", "astype", "sort_copy", "fillna", "trim", "describe", "quantile", "keep", "apply_cols", "nanvar"])
    m.note(op=op)
    a, kw = (), {}
    if op == "astype":
        a = ("f4",)
    elif op == "sort_copy":
        d = {k: rt.Dataset({"a": gen.num(r, n, "i4"), **{c: v[c] for c in v if c != "a"}}) for k, v in d.items()}
        s = mbuild(d)
        a = ("a",)
    elif op == "fillna":
        a = (7,)
    elif op == "keep":
        a = (lambda v: not v.isnan().any(),)
    elif op == "apply_cols":
        a = (lambda v: v + 1,)
    elif op == "quantile":
        a = (.5,)
    want, exc0 = {}, None
    for k, v in d.items():
        try:
            want[k] = getattr(v.copy(), op)(*a)
        except Exception as e:
            exc0 = e
    got, exc = m.attempt(op, getattr(s, op), *a)
    if exc0 is not None or any(not isinstance(w, rt.Dataset) for w in want.values()):
        return
    rows = {w.get_nrows() for w in want.values()}
    if len(rows) > 1:
        m.check(exc is not None, "results of unequal length in one Multiset")
        return
    m.check(exc is None, op + " refused", error=repr(exc)[:150])
    magree(m, got, want, "cascaded " + op)
    magree(m, s, d, "the Multiset after " + op)


@case(n=200, thorough=2000)
def multiset_flatten(m, r):
    n = r.pick([1, 2, 5])
    horizontal = r.chance()
    kinds = ["f8", "i4", "S", "bool", "U", "dtn"]
    cols = r.subset(["a", "b", "c", "v"], 1, 4)
    ck = {c: r.pick(kinds) for c in cols}
    lab = r.chance(.3)
    key = rt.FastArray(gen.words(r, n))

    def mk(depth, same=True):
        d = {}
        for c in r.subset(["one", "two", "three", "four"], 1, 4):
            if depth and r.chance(.3):
                d[c] = mk(depth - 1)
            else:
                use = cols if not horizontal or r.chance() else r.subset(cols, 1, len(cols))
                ds = rt.Dataset({**({"key": key} if lab else {}), **{q: leaf(r, ck[q], n) for q in use}})
                if lab:
                    ds.label_set_names(["key"])
                d[c] = ds
        return d
    d = mk(r.pick([0, 1, 2]))
    s = mbuild(d)
    delim = r.pick(["_", ".", "__"])
    before = gen.snap(s)
    kw = {} if r.chance(.5) else {"dset_col_name": "where"}
    out, exc = m.attempt("flatten", s.flatten, horizontal=horizontal, delimiter=delim, **kw)
    m.check(gen.snap_diff(gen.snap(s), before) is None, "flatten leaves the Multiset alone", diff=str(gen.snap_diff(gen.snap(s), before))[:150])

    def leaves(d, path=()):
        for k, v in d.items():
            if isinstance(v, dict):
                yield from leaves(v, path + (k,))
            else:
                yield path + (k,), v
    m.check(exc is None, "flatten refused", error=repr(exc)[:150])
    if horizontal:
        want = {"key": key} if lab else {}
        for p, v in leaves(d):
            for c in v:
                if c != "key":
                    want[delim.join(p + (c,))] = v[c]
        m.check(list(out.keys()) == list(want), "horizontal flatten: names", have=list(out.keys()), want=list(want))
        for k, v in want.items():
            m.check(item_eq(out[k], v), "horizontal flatten: values", name=k)
    else:
        w = kw.get("dset_col_name", "Column")
        ls = list(leaves(d))
        m.check(set(out.keys()) == set(cols) | {w} | ({"key"} if lab else set()), "vertical flatten: names", have=list(out.keys()))
        labels = [delim.join(p) for p, v in ls for _ in range(n)]
        m.check([gen.txt(x) for x in plain(out[w]).tolist()] == labels, "vertical flatten: where each row comes from", have=plain(out[w]).tolist()[:6], want=labels[:6])
        for c in cols + (["key"] if lab else []):
            want = [gen.txt(x) for _, v in ls for x in plain(v[c]).tolist()]
            got = [gen.txt(x) for x in plain(out[c]).tolist()]
            m.check(len(got) == len(want) and all(a == b or (a != a and b != b) for a, b in zip(got, want)), "vertical flatten: values", name=c, have=got[:6], want=want[:6])
    m.check(out.label_get_names() == (["key"] if lab else []), "flatten: label columns")


@case(n=120, thorough=1200)
def zero_rows(m, r):
    """row counts must agree also when one of them is zero"""
    e = rt.Dataset({"a": rt.FastArray(np.zeros(0))})
    f = rt.Dataset({"a": rt.arange(r.int(1, 5))})
    pair = {"one": e, "two": f} if r.chance() else {"one": f, "two": e}
    m.raises("rows must match (construction)", rt.Multiset, pair)
    s = m.call("Multiset", rt.Multiset, {"one": e})
    m.check(len(s) == 0, "an empty-row Multiset has no rows", have=len(s))
    m.raises("rows must match ([]=)", s.__setitem__, "two", f)
    m.raises("rows must match (setattr)", s.__setattr__, "two", f)
    s = m.call("Multiset", rt.Multiset)
    m.call("[]=", s.__setitem__, "one", f)
    m.check(len(s) == f.get_nrows(), "rows after the first item", have=len(s))
    m.raises("rows must match", s.__setitem__, "two", e)
    s = m.call("Multiset", rt.Multiset)
    m.call("setattr", s.__setattr__, "one", f)
    m.check(len(s) == f.get_nrows() == s.shape[0], "rows after the first attribute", have=len(s))
    m.raises("rows must match", s.__setattr__, "two", rt.Dataset({"a": rt.arange(9)}))


# ---------------------------------------------------------------- labels
@case(n=150, thorough=1500)
def labels(m, r):
    n = r.pick([1, 4, 9])
    kind = r.pick(["S", "U", "i4", "cat"])
    pool = ["ann", "mary ann", "joe", "john", "jo"]
    v = [r.pick(pool) for _ in range(n)] if kind != "i4" else [r.int(0, 4) for _ in range(n)]
    col = rt.Categorical(v) if kind == "cat" else rt.FastArray(v, unicode=kind == "U") if kind in "SU" else rt.FastArray(v)
    x = rt.arange(n)
    ds = rt.Dataset({"k": col, "x": x})
    ds.label_set_names(["k"])
    m.check(ds.label_get_names() == ["k"], "label names")
    how = r.pick(["items", "like", "regex"])
    if how == "items":
        want = r.subset(pool, 1, 3) if kind != "i4" else r.subset([0, 1, 2, 9], 1, 3)
        arg = want if len(want) > 1 else r.pick([want, want[0]])
        if kind == "S" and r.chance():
            arg = [w.encode() for w in want]
        keep = [i for i in range(n) if v[i] in want]
    elif kind in ("i4", "cat"):
        return
    elif how == "like":
        want = r.subset(["an", "jo", "zz", "y a"], 1, 3)
        arg = want if len(want) > 1 else r.pick([want, want[0]])
        keep = [i for i in range(n) if any(w in v[i] for w in want)]
    else:
        arg = r.pick(["^jo", "n$", "zz", "a.*a"])
        keep = [i for i in range(n) if re.search(arg, v[i])]
    got, exc = m.attempt("label_filter", ds.label_filter, **{how: arg})
    m.check(exc is None, f"label_filter {how} on {kind} refused", error=repr(exc)[:120])
    m.check(list(got.x) == keep, f"label_filter {how} on {kind}", have=list(got.x), want=keep)
