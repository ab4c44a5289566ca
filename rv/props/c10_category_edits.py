"""C10: changing the category list of a Categorical relabels exactly the rows the operation names."""
import logging
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen, gb

logging.disable(logging.WARNING)

POOL = ["red", "green", "blue", "cyan", "pink", "grey", "teal", "a", "zz", "much_longer_name"]
NEW = ["aaa_first", "zzz_last", "new", "n", "mid", "x" * 20]
NUMS = [5, 10, -3, 22, 7, 100, 1, 3]


def eq(m, got, exp, what, mech=None):
    m.check(len(got) == len(exp), f"{what}: {len(got)} rows, expected {len(exp)}", mech=mech)
    for i, (a, b) in enumerate(zip(got, exp)):
        if not (a == b):
            m.check(False, f"{what}: row {i}: {a!r} != {b!r}", mech=mech)
    m.oracles += 1


def labels(c):
    return gen.cat_labels(c).tolist()


def judge(m, c, lab, what, cats=None, groups=True):
    """All views of c agree with the model labels."""
    eq(m, labels(c), lab, what)
    if c.isenum:
        return
    codes = plain(c)
    k = len(list(c.category_dict.values())[0])
    base = int(c.base_index)
    ok = (codes >= 0) & (codes < k + base)
    m.check(bool(ok.all()), f"{what}: codes {codes[~ok][:5]} refer to no category (of {k}, base {base})")
    cl = gb.label_list(list(c.category_dict.values()))
    m.check(len(set(cl)) == len(cl), f"{what}: repeated categories {cl[:10]}")
    if cats is not None:
        m.check(sorted(map(str, cl)) == sorted(map(str, cats)), f"{what}: categories {cl[:12]} != {list(cats)[:12]}")
    e = c.expand_array
    if not isinstance(e, tuple):
        ev = [gen.txt(x) for x in plain(e).tolist()]
        for i, (a, b) in enumerate(zip(ev, lab)):
            if b is not None:
                m.check(a == b, f"{what}: expand_array row {i}: {a!r} != {b!r}")
            else:
                m.check(a != a or a in (c.filtered_name, "") or not isinstance(a, str), f"{what}: expand_array row {i}: {a!r} for an invalid row")
    if groups and len(lab):
        cnt = m.call("count", c.count)
        got = dict(zip(gb.label_list([cnt[x] for x in cnt.label_get_names()]), plain(cnt["Count"]).tolist()))
        want = {}
        for x in lab:
            if x is not None:
                want[x] = want.get(x, 0) + 1
        m.check({a: b for a, b in got.items() if b} == want, f"{what}: group counts {got} != {want}")


def make(m, r, kind=None, n=None, allow0=True):
    kind = kind or r.pick(["str", "codes", "codes", "num", "U"])
    n = r.pick([1, 2, 3, r.int(4, 40), r.int(4, 40)]) if n is None else n
    kw = {}
    base = 0 if allow0 and r.chance(0.25) else 1
    if kind in ("str", "U"):
        lab = [r.pick(POOL) for _ in range(n)]
        if base == 0:
            kw["base_index"] = 0
        elif r.chance(0.3):
            kw["ordered"] = False
        f = None
        if base == 1 and r.chance(0.4):
            f = gen.bools(r, n, 0.7)
            kw["filter"] = f
        src = rt.FastArray(np.array(lab), unicode=True) if kind == "U" else np.array(lab, dtype="S")
        if kind == "U":
            kw["unicode"] = True
        c = m.call("Cat", rt.Cat, src, **kw)
        if f is not None:
            lab = [x if k else None for x, k in zip(lab, f)]
        cats = [x for x in gb.label_list(list(c.category_dict.values()))]
    else:
        k = r.int(1, 7)
        cats = r.perm(NUMS if kind == "num" else POOL)[:k]
        codes = r.g.integers(0, k + base, n).astype(r.pick(["i1", "i2", "i4", "i8"]))
        lab = [None if base and x == 0 else cats[x - base] for x in codes.tolist()]
        c = m.call("Cat", rt.Cat, rt.FastArray(codes), rt.FastArray(np.array(cats)) if kind == "num" else cats, base_index=base)
    return c, lab, list(cats), kind, base


@case(n=2500)
def edit_sequence(m, r):
    c, lab, cats, kind, base = make(m, r, r.pick(["str", "codes", "codes", "U"]))
    n = len(lab)
    if not cats:
        return
    m.note(kind=kind, base=base, codes=plain(c), cats=cats)
    other, olab = None, None
    fresh = list(NEW) if kind != "num" else [1000, -50, 17, 2]
    for step in range(r.int(1, 6)):
        op = r.pick(["add", "replace_new", "replace_old", "auto_add", "auto_add", "make_unique", "lock", "copy", "rename_filter", "assign", "add_existing"])
        m.note(**{f"op{step}": op})
        what = f"[{kind} base {base}] after {op}"
        if other is None and r.chance(0.2):
            other, olab = c.copy(), list(lab)
        if op == "add":
            if not fresh:
                continue
            v = fresh.pop(r.int(0, len(fresh) - 1))
            m.note(**{f"v{step}": v})
            m.call("category_add", c.category_add, v)
            cats.append(v)
        elif op == "add_existing":
            if not cats:
                continue
            res, err = m.attempt("category_add", c.category_add, r.pick(cats))
        elif op == "replace_new":
            if not fresh:
                continue
            v, w = r.pick(cats), fresh.pop(r.int(0, len(fresh) - 1))
            m.note(**{f"v{step}": (v, w)})
            m.call("category_replace", c.category_replace, v, w)
            cats[cats.index(v)] = w
            lab = [w if x == v else x for x in lab]
        elif op == "replace_old":
            if len(cats) < 2:
                continue
            v, w = r.perm(cats)[:2]
            m.note(**{f"v{step}": (v, w)})
            m.call("category_replace", c.category_replace, v, w)
            lab = [w if x == v else x for x in lab]
            left = set(gb.label_list(list(c.category_dict.values())))
            m.check(left <= set(cats) and left >= {x for x in cats if x != v}, f"{what}: categories {left} from {cats}")
            cats = [x for x in cats if x in left]
        elif op == "auto_add":
            if not fresh or not n or kind == "num":
                continue
            c.auto_add_on()
            v = fresh.pop(r.int(0, len(fresh) - 1)) if r.chance(0.7) else r.pick(cats)
            ix = r.pick([r.int(0, n - 1), gen.bools(r, n), np.array([n - 1]), slice(0, max(1, n // 2))])
            m.note(**{f"v{step}": v, f"ix{step}": ix})
            m.call("c[ix]=new", lambda: c.__setitem__(ix, v))
            for p_ in np.atleast_1d(np.arange(n)[ix]).tolist():
                lab[p_] = v
            if v not in cats:
                cats.append(v)
            c.auto_add_off()
        elif op == "assign":
            if not n or kind == "num":
                continue
            v = r.pick(cats)
            i = r.int(0, n - 1)
            m.call("c[i]=v", lambda: c.__setitem__(i, v))
            lab[i] = v
        elif op == "make_unique":
            if kind == "U" or not cats:
                continue
            c = m.call("category_make_unique", c.category_make_unique)
            other = None
            judge(m, c, lab, what, None)
            cats = gb.label_list(list(c.category_dict.values()))
            continue
        elif op == "lock":
            c.lock()
            for f in (lambda: c.category_add("qq"), lambda: c.category_remove(cats[0]), lambda: c.category_replace(cats[0], "qq"), lambda: c.__setitem__(0, "qq")):
                m.raises("edit of a locked Categorical", f)
            judge(m, c, lab, what, cats)
            c.unlock()
            continue
        elif op == "rename_filter":
            if base == 0:
                continue
            c.filtered_set_name("gone")
            for i in range(min(n, 5)):
                if lab[i] is None:
                    m.check(c[i] == "gone", f"{what}: filtered row reads {c[i]!r}")
        elif op == "copy":
            other, olab = c, list(lab)
            c = c.copy()
        judge(m, c, lab, what, cats)
    if other is not None:
        judge(m, other, olab, f"[{kind} base {base}] the other copy after edits", None)


@case(n=500)
def remove(m, r):
    """category_remove: the removed label's rows become invalid, all others keep theirs."""
    c, lab, cats, kind, base = make(m, r, r.pick(["str", "codes", "codes", "U"]), allow0=False)
    if len(cats) < 2:
        return
    m.note(kind=kind, codes=plain(c), cats=cats)
    for _ in range(r.int(1, 2)):
        if len(cats) < 2:
            break
        v = r.pick(cats)
        m.note(v=v)
        m.call("category_remove", c.category_remove, v)
        cats.remove(v)
        lab = [None if x == v else x for x in lab]
        what = f"[{kind}] after category_remove"
        eq(m, labels(c), lab, what)
        cl = gb.label_list(list(c.category_dict.values()))
        m.check(sorted(cl) == sorted(cats), f"{what}: categories {cl} != {cats}")
        m.same(plain(m.call("==", lambda: c == cats[0])), np.array([x == cats[0] for x in lab]), f"{what}: c == label")
        d = c.copy()
        judge(m, d, lab, f"{what}: a copy", cats)
        for i in range(min(6, len(lab))):
            m.check(c[i] == (lab[i] if lab[i] is not None else "Filtered"), f"{what}: c[{i}] = {c[i]!r} != {lab[i]!r}", mech="category-remove-stale-grouping")
        ev = [gen.txt(x) for x in plain(c.expand_array).tolist()]
        for a, b in zip(ev, lab):
            m.check(a == b or b is None, f"{what}: expand_array {a!r} != {b!r}", mech="category-remove-stale-grouping")


@case(n=700)
def duplicates(m, r):
    """category_make_unique merges equal categories."""
    n = r.int(1, 40)
    base = r.pick([0, 1, 1])
    num = r.chance(0.3)
    pool = NUMS if num else POOL
    k = r.int(1, 8)
    cats = [r.pick(pool[:4]) for _ in range(k)]
    codes = r.g.integers(0, k + base, n).astype(r.pick(["i1", "i2", "i4", "i8"]))
    lab = [None if base and x == 0 else cats[x - base] for x in codes.tolist()]
    m.note(codes=codes, cats=cats, base=base)
    c = m.call("Cat", rt.Cat, rt.FastArray(codes), rt.FastArray(np.array(cats)), base_index=base)
    d = m.call("category_make_unique", c.category_make_unique)
    judge(m, d, lab, f"category_make_unique base {base}", set(cats))
    eq(m, labels(c), lab, "the original after category_make_unique")


@case(n=1500)
def shrink_and_map(m, r):
    c, lab, cats, kind, base = make(m, r)
    n = len(lab)
    isnum = kind == "num"
    m.note(kind=kind, base=base, codes=plain(c), cats=cats)
    op = r.pick(["shrink", "shrink", "map_dict", "map_dict", "map_array", "set_valid"])
    before = labels(c)
    if not cats or (op == "shrink" and base == 0):
        return
    what = f"[{kind} base {base}] {op}"
    if op == "shrink":
        keep = r.subset(cats, 1)
        if r.chance(0.3):
            keep = keep + [987 if isnum else "unseen"]
        keep = r.perm(keep)
        misc = None
        if base == 0 or r.chance():
            misc = 555 if isnum else r.pick(["other", "AAA", "zzzz"])
        inplace = r.chance(0.3)
        arg = rt.FastArray(np.array(keep)) if isnum or r.chance() else keep
        m.note(keep=keep, misc=misc, inplace=inplace)
        exp = [None if x is None else x if x in keep else misc for x in lab]
        d = m.call("shrink", c.shrink, arg, **({"misc": misc} if misc is not None else {}), inplace=inplace)
        judge(m, d, exp, f"{what} (inplace={inplace}, misc={misc})")
        if inplace:
            judge(m, c, exp, f"{what} inplace original")
            return
    elif op == "map_dict":
        full = r.chance()
        keys = list(cats) if full else r.subset(cats, 1)
        to_num = r.chance(0.4)
        vals = [float(r.int(-50, 50)) if to_num else r.pick(["X", "YY", "ZZZ", "W", "longer_value"]) for _ in keys]
        mp = dict(zip(keys, vals))
        if r.chance(0.2):
            mp[4321 if isnum else "absent"] = vals[0]
        inv = None
        if r.chance(0.3):
            inv = -1.0 if to_num else "INV"
        m.note(mp=mp, inv=inv)
        if base == 0 and not full:
            return
        out = m.call("map", c.map, mp, **({"invalid": inv} if inv is not None else {}))
        check_map(m, out, [mp.get(x) for x in lab], None if None in lab else inv, what)
    elif op == "map_array":
        to_num = r.chance(0.5)
        cl = gb.label_list(list(c.category_dict.values()))
        vals = [float(r.int(-50, 50)) if to_num else r.pick(["X", "YY", "ZZZ", "W"]) for _ in cl]
        mp = dict(zip(cl, vals))
        m.note(vals=vals)
        out = m.call("map", c.map, rt.FastArray(np.array(vals)))
        check_map(m, out, [None if x is None else mp[x] for x in lab], None, what)
    else:
        f = gen.bools(r, n)
        d = m.call("set_valid", c.set_valid, f)
        exp = [x if k else None for x, k in zip(lab, f)]
        judge(m, d, exp, what, {x for x in exp if x is not None})
    eq(m, labels(c), before, f"{what}: the original afterwards")


def check_map(m, out, exp, inv, what):
    v = [gen.txt(x) for x in plain(out).tolist()]
    m.check(len(v) == len(exp), f"{what}: length {len(v)} != {len(exp)}")
    for i, (a, b) in enumerate(zip(v, exp)):
        if b is None:
            if inv is not None:
                m.check(a == inv, f"{what}: row {i}: {a!r}, invalid should be {inv!r}")
            else:
                m.check(a != a or a in ("Filtered", "", "Inv", "INV", -1.0), f"{what}: row {i}: {a!r} where there is nothing to map")
        else:
            m.check(a == b, f"{what}: row {i}: {a!r} != {b!r}")


@case(n=900)
def mapping_edit(m, r):
    """Edits of a code mapping."""
    keys = r.subset([10, 20, 30, -5, 7, 1, 0], 2, 6)
    names = r.perm(["xx", "yy", "zz", "ww", "vv", "uu", "tt"])
    mp = {k: names[i] for i, k in enumerate(keys)}
    n = r.int(1, 30)
    codes = [r.pick(keys) for _ in range(n)]
    c = m.call("Cat", rt.Cat, np.array(codes), dict(mp))
    cur = dict(mp)
    m.note(mp=mp, codes=codes)
    fresh = [100, 200, -100, 55]
    held = []
    for step in range(r.int(1, 5)):
        op = r.pick(["add", "remove", "replace", "new", "assign", "assign_code"])
        m.note(**{f"op{step}": op})
        if r.chance(.2):          # go on with a copy, or keep one: neither sees the other's edits
            other = m.call("Cat.copy", c.copy)
            if r.chance():
                c, other = other, c
            held.append((step, other, dict(cur), list(codes)))
        if op == "add" and fresh:
            k = fresh.pop()
            m.call("mapping_add", c.mapping_add, k, f"n{k}")
            cur[k] = f"n{k}"
        elif op == "remove" and len(cur) > 1:
            k = r.pick(list(cur))
            m.call("mapping_remove", c.mapping_remove, k)
            del cur[k]
        elif op == "replace":
            k = r.pick(list(cur))
            gone = cur[k]
            m.call("mapping_replace", c.mapping_replace, k, f"r{step}")
            cur[k] = f"r{step}"
            hit, err = m.attempt("==", lambda: c == gone)
            m.check(err is not None or not plain(hit).any(), "mapping_replace: the replaced name still matches rows", got=hit, name=gone)
        elif op == "new":
            cur = {k: f"m{step}_{i}" for i, k in enumerate(r.subset(keys, 1))}
            m.call("mapping_new", c.mapping_new, dict(cur))
        elif op == "assign":
            k = r.pick(list(cur))
            i = r.int(0, n - 1)
            m.call("c[i]=name", lambda: c.__setitem__(i, cur[k]))
            codes[i] = k
        elif op == "assign_code":
            k = r.pick(list(cur))
            i = r.int(0, n - 1)
            m.call("c[i]=code", lambda: c.__setitem__(i, k))
            codes[i] = k
        m.same(plain(c), np.array(codes, dtype=plain(c).dtype), f"codes after mapping {op}")
        for i in range(n):
            v = c[i]
            e = cur.get(codes[i])
            if e is not None:
                m.check(v == e, f"after mapping {op}: row {i} reads {v!r} != {e!r}")
            else:
                m.check(v not in cur.values(), f"after mapping {op}: row {i} (code {codes[i]} not in the mapping) reads {v!r}")
        for k, v in cur.items():
            m.same(plain(m.call("==", lambda: c == v)), np.array(codes) == k, f"c == {v!r} after mapping {op}")
        for st, o, mp0, codes0 in held:
            m.check({int(k): gen.txt(v) for k, v in o.category_mapping.items()} == mp0, f"mapping {op} of a copied Categorical changed the other one's mapping", since=st, got=o.category_mapping, expected=mp0)
            m.same(plain(o), np.array(codes0, dtype=plain(o).dtype), f"mapping {op} of a copied Categorical changed the other one's codes")


@case(n=400)
def mapping_set_valid(m, r):
    mp = {10: "xx", 20: "yy", 30: "zz", -5: "ww"}
    n = r.int(1, 30)
    codes = [r.pick(r.subset(list(mp), 1)) for _ in range(n)]
    c = m.call("Cat", rt.Cat, np.array(codes, dtype=r.pick(["i4", "i8"])), dict(mp))
    f = gen.bools(r, n)
    arg = rt.FastArray(f) if r.chance() else f
    if r.chance(0.3):
        arg = np.flatnonzero(f)
    m.note(codes=codes, f=f, arg=arg)
    before = gen.snap(c)
    d = m.call("set_valid", c.set_valid, arg)
    x = gen.snap_diff(before, gen.snap(c))
    m.check(x is None, f"set_valid changed the Categorical: {x}")
    for i in range(n):
        v = d[i]
        m.check(v == mp[codes[i]] if f[i] else v not in mp.values(), f"set_valid on a mapping: row {i} (valid={f[i]}) reads {v!r}, was {mp[codes[i]]!r}")


def several(m, r, k, mode):
    out, labs = [], []
    base = r.pick([0, 1, 1, 1]) if mode == "single" else 1
    kind = r.pick(["str", "str", "num", "U", "big"]) if mode == "single" else mode
    for i in range(k):
        n = r.pick([0, 1, r.int(2, 30), r.int(2, 30)])
        if kind in ("str", "U"):
            pool = r.perm(POOL)[: r.int(1, 6)]
            lab = [r.pick(pool) for _ in range(n)]
            kw = {"unicode": True} if kind == "U" else {}
            if base == 0:
                kw["base_index"] = 0
            elif r.chance(0.3):
                kw["ordered"] = False
            f = gen.bools(r, n, 0.7) if base and r.chance(0.4) else None
            if f is not None:
                kw["filter"] = f
            if n == 0 or r.chance(0.3):
                codes = r.g.integers(0, len(pool) + base, n).astype("i1")
                lab = [None if base and x == 0 else pool[x - base] for x in codes.tolist()]
                c = m.call("Cat", rt.Cat, rt.FastArray(codes), rt.FastArray(np.array(pool), unicode=kind == "U"), base_index=base, **({"unicode": True} if kind == "U" else {}))
            else:
                src = rt.FastArray(np.array(lab), unicode=True) if kind == "U" else np.array(lab, dtype="S")
                c = m.call("Cat", rt.Cat, src, **kw)
                if f is not None:
                    lab = [x if y else None for x, y in zip(lab, f)]
        elif kind == "big":
            pool = [f"b{r.int(0, 400)}" for _ in range(90)]
            pool = sorted(set(pool))
            n = r.int(1, 150)
            lab = [r.pick(pool) for _ in range(n)]
            c = m.call("Cat", rt.Cat, np.array(lab), **({"base_index": 0} if base == 0 else {}))
        elif kind == "num":
            pool = r.perm(NUMS)[: r.int(1, 6)]
            codes = r.g.integers(0, len(pool) + base, n).astype(r.pick(["i1", "i4"]))
            lab = [None if base and x == 0 else pool[x - base] for x in codes.tolist()]
            c = m.call("Cat", rt.Cat, rt.FastArray(codes), rt.FastArray(np.array(pool, dtype=r.pick(["i4", "i8"]))), base_index=base)
        elif kind == "multi":
            n = max(n, 1)
            a = [r.pick(["a", "b", "c"]) for _ in range(n)]
            b = [r.int(1, 3) for _ in range(n)]
            f = gen.bools(r, n, 0.7) if r.chance(0.4) else None
            c = m.call("Cat", rt.Cat, [np.array(a), np.array(b)], **({"filter": f} if f is not None else {}))
            lab = [(x, y) if f is None or f[j] else None for j, (x, y) in enumerate(zip(a, b))]
        else:
            mp = {10: "xx", 20: "yy", 30: "zz", -5: "ww"}
            keys = r.subset(list(mp), 1)
            codes = [r.pick(keys) for _ in range(n)]
            c = m.call("Cat", rt.Cat, np.array(codes, dtype=np.int64), {q: mp[q] for q in keys})
            lab = [mp[x] for x in codes]
        out.append(c)
        labs.append(lab)
    return out, labs, base, kind


@case(n=1500)
def align_and_stack(m, r):
    mode = r.pick(["single", "single", "single", "multi", "enum"])
    k = r.int(1, 4)
    cats, labs, base, kind = several(m, r, k, mode)
    m.note(mode=mode, kind=kind, base=base, n=[len(x) for x in labs], cats=[str(c.category_dict)[:80] for c in cats])
    before = [gen.snap(c) for c in cats]
    op = r.pick(["hstack", "hstack", "rt.hstack", "align"])
    if op == "align" and mode == "enum":
        op = "hstack"
    if op == "align":
        out = m.call("align", rt.Cat.align, list(cats))
        m.check(len(out) == k, f"align returned {len(out)} of {k}")
        ref = gb.label_list(list(out[0].category_dict.values()))
        for c, lab in zip(out, labs):
            judge(m, c, lab, f"align[{kind} base {base}]", None)
            m.check(gb.label_list(list(c.category_dict.values())) == ref, "aligned category lists differ")
            m.check(int(c.base_index) == int(out[0].base_index), "aligned base indexes differ")
    else:
        f = rt.Cat.hstack if op == "hstack" else rt.hstack
        d = m.call(op, f, list(cats))
        m.check(isinstance(d, rt.Categorical), f"{op} gave {type(d)}")
        judge(m, d, [x for l in labs for x in l], f"{op}[{kind} base {base}]", None, groups=mode != "enum")
    for c, s in zip(cats, before):
        x = gen.snap_diff(s, gen.snap(c))
        m.check(x is None, f"{op} changed an input: {x}")


@case(n=800)
def shifting(m, r):
    """shift_cat, fill_invalid, isnan, one_hot."""
    c, lab, cats, kind, base = make(m, r, allow0=False)
    n = len(lab)
    m.note(kind=kind, codes=plain(c), cats=cats)
    k = r.int(-n - 1, n + 1)
    d = m.call("shift_cat", c.shift_cat, k)
    exp = [lab[i - k] if 0 <= i - k < n else None for i in range(n)]
    judge(m, d, exp, f"shift_cat({k})", None)
    m.same(plain(m.call("isfiltered", c.isfiltered)), np.array([x is None for x in lab]), "isfiltered")
    ci = m.call("copy_invalid", c.copy_invalid)
    judge(m, ci, [None] * n, "copy_invalid", None)
    eq(m, labels(c), lab, "the original after copy_invalid/shift_cat")
    oh = m.call("one_hot_encode", c.one_hot_encode)
    names = [gen.txt(x) for x in (oh[0].tolist() if isinstance(oh, tuple) else [])]
    for nm, col in zip(names, oh[1] if isinstance(oh, tuple) else []):
        m.same(plain(col).astype(bool), np.array([str(x) == nm for x in lab]), f"one_hot {nm}")
    ea = m.call("expand_any", c.expand_any, rt.FastArray(np.arange(len(cats)) * 10.0))
    cl = gb.label_list(list(c.category_dict.values()))
    for i, x in enumerate(lab):
        if x is not None:
            m.check(float(plain(ea)[i]) == cl.index(x) * 10.0, f"expand_any: row {i}: {plain(ea)[i]} for {x!r}")
        else:
            m.check(bool(np.isnan(plain(ea)[i])), f"expand_any: row {i}: {plain(ea)[i]} for an invalid row")


@case(n=120)
def grow_past_code_width(m, r):
    """Adding categories beyond what the code dtype can number fails or keeps every label."""
    k = r.pick([95, 99, 100, 120])
    base = r.pick([0, 1])
    lab = [f"c{i:03d}" for i in range(k)]
    c = m.call("Cat", rt.Cat, np.array(lab), **({"base_index": 0} if base == 0 else {}))
    m.note(k=k, base=base, dtype=plain(c).dtype)
    cats = list(lab)
    auto = r.chance()
    if auto:
        c.auto_add_on()
    for j in range(r.pick([5, 40])):
        new = r.pick(["a", "z"]) + f"{j:03d}"
        if not auto:
            _, err = m.attempt("category_add", c.category_add, new)
            if err is not None:
                break
        row = r.int(0, k - 1)
        _, err = m.attempt("c[i]=new", lambda: c.__setitem__(row, new))
        if err is not None:
            break
        lab[row] = new
    judge(m, c, lab, f"growing to {k}+{j + 1} categories (base {base}, auto_add={auto})")
