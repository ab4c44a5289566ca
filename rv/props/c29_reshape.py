"""C29: reshaping rearranges cells without losing, inventing or moving values."""
import warnings
from collections import namedtuple
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

warnings.simplefilter("ignore")
np.seterr(all="ignore")


def vals(a):
    """the values an array denotes: None where missing, text for text"""
    if isinstance(a, rt.Categorical):
        return [None if v is None else v for v in gen.cat_labels(a)]
    p = plain(a)
    if p.dtype.kind in "SU":
        return [gen.txt(v) for v in p.tolist()]
    bad = np.zeros(len(p), bool) if p.dtype.kind == "b" else np.asarray(gen.is_inv(p), bool)
    if isinstance(a, (rt.Date, rt.DateTimeNano)):
        bad = bad | (p == 0)
    return [None if b else v for v, b in zip(p.tolist(), bad)]


def eq(x, y):
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
        return True
    return x == y


def same(m, a, exp, what, mech=None):
    got = a if isinstance(a, list) else vals(a)
    bad = next((i for i, (x, y) in enumerate(zip(got, exp)) if not eq(x, y)), None)
    m.check(len(got) == len(exp) and bad is None, what, mech=mech, at=bad, have=repr(got)[:200], want=repr(exp)[:200])


def kind(m, a, src, what):
    m.check(type(a) is type(src), what + ": type", have=type(a).__name__, want=type(src).__name__)


def idcol(r, n):
    k = r.pick(["S", "U", "i4", "i8", "f8", "date", "dtn", "cat", "bool", "u1", "span"])
    if k == "cat":
        return gen.cat(r, n, kind=r.pick(["str", "codes", "ordered0", "int"]))
    return gen.column(r, n, k)


@case(n=300, thorough=3000)
def melt(m, r):
    n, k = r.pick([1, 2, 3, 7, 20]), r.int(1, 4)
    vk = r.pick(["f8", "i4", "S", "U", "mixnum", "bool", "i1"])
    ids = [f"id{i}" for i in range(r.int(0, 3))]
    vs = [f"v{i}" for i in range(k)]
    d = {c: idcol(r, n) for c in ids}
    for c in vs:
        d[c] = rt.FastArray(gen.num(r, n, r.pick(["f8", "i4", "i2", "f4", "i1"]), inv=.2, lo=0, hi=99)) if vk == "mixnum" else gen.column(r, n, vk)
    ds = rt.Dataset({c: d[c] for c in r.perm(ids + vs)})
    for c in ids:
        if not isinstance(d[c], rt.Categorical) and r.chance(.3):
            ds[c] = d[c][::1]
    use = r.subset(vs, 1, k) if r.chance() else None
    var = r.pick([None, "what"])
    vn = r.pick(["value", "amount"])
    take = use or [c for c in ds.keys() if c in vs]
    trim = r.chance(.2) and vk in ("f8", "i4")
    out = m.call("melt", ds.melt, id_vars=ids or None if len(ids) != 1 else r.pick([ids, ids[0]]), value_vars=use, var_name=var, value_name=vn, trim=trim)
    keep = []
    for c in take:
        v = vals(d[c])
        keep += [(c, i, v[i]) for i in range(n) if not (trim and (v[i] is None or v[i] == 0))]
    m.check(list(out.keys()) == ids + [var or "variable", vn], "columns", have=list(out.keys()))
    m.check(out.get_nrows() == len(keep), "one row per cell", have=out.get_nrows(), want=len(keep))
    for c in ids:
        e = vals(d[c])
        if isinstance(d[c], rt.Categorical):
            g = vals(out[c])
            e = [e[i] for _, i, _ in keep]
            same(m, [x for x, y in zip(g, e) if y is not None], [y for y in e if y is not None], f"id {c}")
        else:
            kind(m, out[c], d[c], f"id {c}")
            same(m, out[c], [e[i] for _, i, _ in keep], f"id {c}")
    same(m, out[var or "variable"], [c for c, _, _ in keep], "variable names the source column")
    same(m, out[vn], [v for _, _, v in keep], "values")
    m.note(rows=n, ids=len(ids), vals=len(take), kind=vk, trim=trim)


@case(n=400, thorough=4000)
def pivot(m, r):
    """each (label, column) cell holds the value of the row with these keys, missing where there is none"""
    nl, nc = r.int(1, 5), r.int(1, 4)
    lk = r.pick(["S", "i4", "U", "date", "cat"])
    lab = {"S": lambda: rt.FastArray(np.array(r.perm(gen.WORDS)[:nl])), "U": lambda: rt.FastArray(np.array(r.perm(gen.WORDS)[:nl]), unicode=True), "i4": lambda: rt.FastArray(r.g.permutation(50)[:nl].astype("i4")),
           "date": lambda: rt.Date(r.g.permutation(50)[:nl].astype("i4") + 18000), "cat": lambda: rt.FastArray(np.array(r.perm(gen.WORDS)[:nl]))}[lk]()
    two = r.chance(.3)
    cells = [(i, j) for i in range(nl) for j in range(nc)]
    cells = [cells[q] for q in r.g.permutation(len(cells))]
    if r.chance(.6):
        cells = cells[: r.int(1, len(cells))]
    n = len(cells)
    L, C = np.array([c[0] for c in cells]), np.array([c[1] for c in cells])
    cn = np.array(r.perm(["red", "green", "blue", "x1", "x2"])[:nc])
    lcol = lab[L]
    if lk == "cat":
        lcol = rt.Cat(lcol, ordered=r.chance())
    if two:
        names = [(["p", "q"][j % 2], j // 2) for j in range(nc)]
        cols = {"c1": rt.FastArray(np.array([names[j][0] for j in C])), "c2": rt.FastArray(np.array([names[j][1] for j in C]))}
        cname = [f"{a}_{b}" for a, b in names]
    elif r.chance(.3):
        cols = {"c1": rt.FastArray((C * 10 + 3).astype("i4"))}
        cname = [str(j * 10 + 3) for j in range(nc)]
    else:
        cols = {"c1": rt.Cat(cn[C]) if r.chance(.3) else rt.FastArray(cn[C])}
        cname = [str(v) for v in cn]
    vk = [r.pick(["f8", "i4", "S", "date", "i8", "u1", "cat", "dtn"]) for _ in range(r.pick([1, 1, 2]))]
    vcol = {f"v{i}": (gen.cat(r, n, kind="str", inv=0) if k == "cat" else gen.column(r, n, k, inv=0)) for i, k in enumerate(vk)}
    ds = rt.Dataset({"lab": lcol, **cols, **vcol})
    kw = {"ordered": r.chance(.7)}
    flt = gen.bools(r, n, .7) if r.chance(.35) else None
    if flt is not None:
        kw["filter"] = rt.FastArray(flt)
    by = r.pick(["name", "labels"])
    if by == "labels":
        ds.label_set_names(["lab"])
    cl = list(cols) if len(cols) > 1 else "c1"
    vl = list(vcol) if len(vcol) > 1 else r.pick(["v0", ["v0"]])
    out = m.call("pivot", ds.pivot, labels=None if by == "labels" else "lab", columns=cl, values=vl, **kw)
    use = np.ones(n, bool) if flt is None else flt
    lv = vals(lcol)
    for vn, v in vcol.items():
        tab = out[vn] if len(vcol) > 1 else out
        m.check(list(tab.label_get_names()) == ["lab"], "label column", have=list(tab.label_get_names()))
        have = vals(tab["lab"])
        m.check(sorted(map(str, have)) == sorted(map(str, set(lv))), "one row per distinct label", have=repr(have)[:200], want=repr(sorted(map(str, set(lv))))[:200])
        if kw["ordered"] and lk != "cat":
            m.check(have == sorted(have), "labels in order", have=repr(have)[:200])
        cset = {cname[j] for j in C}
        m.check(set(tab.keys()) == cset | {"lab"}, "one column per distinct key", have=list(tab.keys()), want=sorted(cset))
        vv = vals(v)
        for j in set(C.tolist()):
            exp = []
            for l in have:
                hit = [i for i in range(n) if C[i] == j and lv[i] == l and use[i]]
                exp.append(vv[hit[0]] if hit else ("" if plain(v).dtype.kind == "S" and not isinstance(v, rt.Categorical) else None))
            if cname[j] in tab:
                kind(m, tab[cname[j]], v, "cell type")
                same(m, tab[cname[j]], exp, f"cells of {cname[j]} ({vk})")
    m.note(labels=nl, cols=nc, cells=n, filtered=flt is not None, kinds=vk, label=lk)


@case(n=60, thorough=600)
def pivot_duplicates(m, r):
    """two values for one cell are refused, whatever else is filtered"""
    n = r.int(2, 8)
    L, C = r.g.integers(0, 3, n), r.g.integers(0, 3, n)
    f = gen.bools(r, n, .6)
    ds = rt.Dataset({"l": rt.FastArray(L), "c": rt.FastArray(C), "v": rt.FastArray(np.arange(n))})
    pairs = [(a, b) for a, b, k in zip(L, C, f) if k]
    res, err = m.attempt("pivot", ds.pivot, "l", "c", "v", filter=rt.FastArray(f))
    m.check((err is not None) == (len(set(pairs)) != len(pairs)), "refused exactly when a cell has two values", pairs=repr(pairs), error=repr(err))
    m.note(rows=n)


@case(n=120, thorough=1200)
def melt_pivot(m, r):
    """pivot undoes melt"""
    n, k = r.int(1, 8), r.int(1, 4)
    ids = rt.FastArray(np.array(r.perm(gen.WORDS)[:n]))
    cols = {f"m{i}": rt.FastArray(gen.num(r, n, "f8", inv=.2)) for i in range(k)}
    ds = rt.Dataset({"id": ids, **cols})
    long = m.call("melt", ds.melt, id_vars="id")
    wide = m.call("pivot", long.pivot, labels="id", columns="variable", values="value", ordered=False)
    m.check(set(wide.keys()) == set(ds.keys()), "columns back", have=list(wide.keys()))
    pos = {v: i for i, v in enumerate(vals(wide["id"]))}
    for c, a in cols.items():
        g, e = vals(wide[c]), vals(a)
        same(m, [g[pos[v]] for v in vals(ids)], e, f"column {c} restored")
    m.note(rows=n, cols=k)


def numcols(r, n, k, kinds=("f8", "i4", "i8", "f4", "i2", "i1", "u1"), inv=.2):
    return {f"n{i}": rt.FastArray(gen.num(r, n, r.pick(list(kinds)), inv=inv, lo=0, hi=99)) for i in range(k)}


@case(n=250, thorough=2500)
def transpose(m, r):
    n, k = r.pick([1, 2, 3, 6]), r.int(1, 4)
    cols = numcols(r, n, k)
    lab = r.pick([None, "S", "i4", "cat", "two"])
    d = {}
    if lab:
        u = r.perm([v for v in gen.WORDS if v != "tail"])[:n]
        d["lab"] = {"S": lambda: rt.FastArray(np.array(u)), "i4": lambda: rt.FastArray(r.g.permutation(40)[:n].astype("i4")), "cat": lambda: rt.Cat(np.array(u)), "two": lambda: rt.FastArray(np.array(u))}[lab]()
        if lab == "two":
            d["lab2"] = rt.FastArray(r.g.integers(0, 9, n))
    ds = rt.Dataset({**d, **cols})
    if r.chance(.3):
        ds["txt"] = rt.FastArray(gen.words(r, n, "S"))
    if lab:
        ds.label_set_names(list(d))
    h = r.pick(["Col", "name"])
    t = m.call("transpose", ds.transpose, headername=h)
    same(m, t[h], list(cols), "header lists the columns")
    names = [f"C{i}" for i in range(n)] if not lab else [str(v) for v in vals(d["lab"])]
    if lab == "two":
        names = [f"{a}_{b}" for a, b in zip(names, vals(d["lab2"]))]
    m.check(list(t.keys()) == [h] + names, "one column per row", have=list(t.keys()), want=names)
    m.check(list(t.label_get_names()) == [h], "label")
    for i in range(n):
        e = [vals(c)[i] for c in cols.values()]
        g = vals(t[names[i]])
        m.check(len(g) == len(e) and all(eq(x, y) or (x is not None and y is not None and abs(x - y) <= 1e-4 * abs(y)) for x, y in zip(g, e)), "row becomes column", have=repr(g), want=repr(e))
    m.note(rows=n, cols=k, label=lab)


@case(n=250, thorough=2500)
def matrix(m, r):
    n, k = r.pick([1, 2, 3, 4, 9]), r.int(1, 4)
    cols = numcols(r, n, k)
    ds = rt.Dataset(cols)
    ds["txt"] = rt.FastArray(gen.words(r, n, "S"))
    order = r.pick(["F", "F", "C"])
    kw = {} if r.chance(.6) else {"dtype": r.pick(["f8", "f4"])}
    use = None if r.chance() else r.subset(list(cols), 1, k)
    x = m.call("imatrix_make", ds.imatrix_make, order=order, colnames=use, inplace=False, **kw)
    names = use or list(cols)
    m.check(x.shape == (n, len(names)), "shape of the matrix", have=x.shape, want=(n, len(names)), order=order)
    if x.shape == (n, len(names)):
        for j, c in enumerate(names):
            g, e = vals(x[:, j]), vals(cols[c])
            m.check(all(eq(a, b) or (a is not None and b is not None and abs(a - b) <= 1e-4 * abs(b)) for a, b in zip(g, e)), f"matrix column {c} ({order})", have=repr(g), want=repr(e))
        m.check(bool(x.flags.f_contiguous if order == "F" else x.flags.c_contiguous), "memory order")
    # in place: the columns become views of the matrix
    if order == "F" and r.chance(.4):
        d2 = ds.copy()
        y = m.call("imatrix in place", d2.imatrix_make, colnames=use)
        same(m, [v for c in names for v in vals(d2[c])], [v for j in range(len(names)) for v in vals(y[:, j])], "columns are the matrix")
        m.check(all(np.shares_memory(plain(d2[c]), plain(y)) for c in names), "columns view the matrix")
    # add_matrix is the inverse
    d3 = rt.Dataset({"txt": ds["txt"]})
    m.call("add_matrix", d3.add_matrix, x, names=names)
    for j, c in enumerate(names):
        m.same(plain(d3[c]), plain(x[:, j]), "add_matrix restores the columns")
    m.note(rows=n, cols=k, order=order)


@case(n=200, thorough=2000)
def one_hot(m, r):
    """one indicator per category, one set indicator per row with a category"""
    n = r.pick([1, 3, 8, 20])
    c = gen.cat(r, n, kind=r.pick(["str", "codes", "ordered0", "int", "enum", "str"]))
    lab = [None if v is None else str(v) for v in gen.cat_labels(c)]
    dt = r.pick([None, "i1", "u1", "f8", "?", "i4"])
    names, arrs = m.call("one_hot_encode", c.one_hot_encode, dtype=dt)
    names = [gen.txt(v) for v in plain(names).tolist()]
    m.check(len(names) == len(arrs) and len(set(names)) == len(names), "one name per indicator", have=names)
    m.check(set(v for v in lab if v is not None) <= set(names), "every category present", have=names, want=lab)
    for nm, a in zip(names, arrs):
        m.check(plain(a).dtype == np.dtype(dt or "f4"), "dtype of indicators", have=str(a.dtype), want=dt)
        m.same(plain(a).astype("f8"), np.array([float(v == nm) for v in lab]), f"indicator {nm}")
    ds = rt.Dataset({"x": rt.arange(n), "c": c, "o": gen.cat(r, n, kind="codes")})
    ex = r.pick([None, "o", ["o"]])
    cols = ["c"] if ex is None and r.chance() else None
    m.call("Dataset.one_hot_encode", ds.one_hot_encode, columns=cols, exclude=ex)
    m.check("c" not in ds and ("o" in ds) == (ex is not None or cols is not None), "encoded columns replaced, others kept", have=list(ds.keys()))
    for nm in names:
        if m.check(f"c__{nm}" in ds, "named indicator", name=nm, have=list(ds.keys())):
            m.same(plain(ds[f"c__{nm}"]).astype("f8"), np.array([float(v == nm) for v in lab]), f"Dataset indicator {nm}")
    m.note(rows=n, cats=len(names))


def rowvalue(r, k):
    return {"i": lambda: r.int(-50, 50), "f": lambda: float(r.int(-50, 50)) / 4, "s": lambda: r.pick(gen.WORDS), "b": lambda: r.chance()}[k]()


@case(n=250, thorough=2500)
def rows_in(m, r):
    """from_rows and from_tagged_rows put every cell under its name in row order"""
    n, k = r.int(1, 9), r.int(1, 5)
    kinds = [r.pick("ifsb") for _ in range(k)]
    names = r.perm(["b", "a", "zz", "m", "q"])[:k]
    data = [[rowvalue(r, q) for q in kinds] for _ in range(n)]
    form = r.pick(["tuple", "list", "gen", "dict", "dictperm", "namedtuple", "struct", "mixed"])
    if form in ("tuple", "list", "gen"):
        rows = [tuple(x) for x in data] if form != "list" else data
        ds = m.call("from_rows", rt.Dataset.from_rows, (x for x in rows) if form == "gen" else rows, names)
        m.check(list(ds.keys()) == names, "column order", have=list(ds.keys()))
        m.raises("from_rows ragged", rt.Dataset.from_rows, rows + [rows[0][:-1]], names)
    else:
        T = namedtuple("T", names)
        mk = {"dict": lambda x: dict(zip(names, x)), "dictperm": lambda x: {names[i]: x[i] for i in r.perm(list(range(k)))}, "namedtuple": lambda x: T(*x), "struct": lambda x: rt.Struct(dict(zip(names, x)))}
        rows = [mk[form if form != "mixed" else r.pick(list(mk))](x) for x in data]
        ds = m.call("from_tagged_rows", rt.Dataset.from_tagged_rows, rows)
        m.check(sorted(ds.keys()) == sorted(names), "columns", have=list(ds.keys()))
        m.raises("from_tagged_rows missing key", rt.Dataset.from_tagged_rows, [{"a": 1, "b": 2}, {"a": 3}], exc=NotImplementedError)
    m.check(ds.get_nrows() == n, "rows")
    for j, c in enumerate(names):
        same(m, [gen.txt(v) for v in plain(ds[c]).tolist()], [x[j] for x in data], f"column {c} ({form})")
    # and back
    if form not in ("dict", "dictperm", "namedtuple", "struct", "mixed"):
        back = m.call("asrows", lambda: [list(x) for x in ds.asrows("tuple")])
        m.check(len(back) == n and all(all(gen.txt(a) == b for a, b in zip(x, y)) for x, y in zip(back, data)), "asrows gives the rows back", have=repr(back)[:200])
        it = [[gen.txt(row[c]) for c in names] for _, row in ds.iterrows()]  # the row object is reused
        m.check(it == [list(x) for x in data], "iterrows gives the rows back", have=repr(it)[:200])
    m.note(form=form, rows=n, cols=k)


@case(n=300, thorough=3000)
def jagged_rows(m, r):
    n = r.int(1, 7)
    data, rows = [], []
    for _ in range(n):
        q = r.pick(["words", "words", "int", "uni", "list", "cat", "uarr"])
        k = r.int(1, 4)
        if q == "int":
            v = [r.int(0, 999) for _ in range(k)]
            row = r.pick([list, np.array, rt.FastArray])(v)
            v = [str(x) for x in v]
        elif q == "uni":
            v = [r.pick(gen.UWORDS) for _ in range(k)]
            row = rt.FastArray(v, unicode=True) if r.chance() else v
        else:
            v = [r.pick(gen.WORDS) for _ in range(k)]
            row = {"words": lambda: np.array(v, dtype="S"), "list": lambda: list(v), "cat": lambda: rt.Cat(v), "uarr": lambda: np.array(v)}[q]()
        data.append(v)
        rows.append(row)
    fv = r.pick([None, "fill", "long fill value", b"by", 7])
    base = r.pick(["C", "Col"])
    before = list(rows)
    ds = m.call("from_jagged_rows", rt.Dataset.from_jagged_rows, rows, column_name_base=base, fill_value=fv)
    m.check(all(a is b for a, b in zip(before, rows)), "the caller's rows are left alone")
    w = max(map(len, data))
    m.check(list(ds.keys()) == [f"{base}{i}" for i in range(w)] and ds.get_nrows() == n, "as wide as the longest row", have=list(ds.keys()))
    fill = "" if fv is None else gen.txt(fv) if isinstance(fv, (str, bytes)) else str(fv)
    for i in range(w):
        if f"{base}{i}" in ds:
            same(m, ds[f"{base}{i}"], [x[i] if i < len(x) else fill for x in data], f"cell {i}")
    m.note(rows=n, width=w, fill=repr(fv))


@case(n=200, thorough=2000)
def jagged_dict(m, r):
    """stacked: the cross product of the row's values; not stacked: columns side by side"""
    n, k = r.int(1, 5), r.int(1, 3)
    kinds = [r.pick("is") for _ in range(k)]
    short = r.chance(.4)
    zero = r.chance(.15)
    d = {}
    for j in range(k):
        d[f"c{j}"] = [[rowvalue(r, kinds[j]) for _ in range(r.int(0 if zero else 1, 1 if short else 3))] if r.chance(.85) else rowvalue(r, kinds[j]) for _ in range(n)]
    exp = [[] for _ in range(k)]
    for i in range(n):
        cells = [v[i] if isinstance(v[i], list) else [v[i]] for v in d.values()]
        combos = [()]
        for c in cells:  # the first column varies fastest
            combos = [p + (x,) for x in c for p in combos]
        for p in combos:
            for j in range(k):
                exp[j].append(p[j])
    if not exp[0]:
        return
    ds = m.call("from_jagged_dict", rt.Dataset.from_jagged_dict, {a: list(b) for a, b in d.items()}, stacked=True)
    for j in range(k):
        same(m, [gen.txt(v) for v in plain(ds[f"c{j}"]).tolist()], exp[j], f"stacked column {j}")
    if not zero:
        ds = m.call("from_jagged_dict flat", rt.Dataset.from_jagged_dict, {a: [x if isinstance(x, list) else [x] for x in b] for a, b in d.items()})
        for j in range(k):
            rows = [x if isinstance(x, list) else [x] for x in d[f"c{j}"]]
            for i in range(max(map(len, rows))):
                same(m, ds[f"c{j}{i}"], [str(x[i]) if i < len(x) else "" for x in rows], f"flat cell {j}{i}")
    m.note(rows=n, cols=k, zero=zero)


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


@case(n=300, thorough=3000)
def dataset_arith(m, r):
    """Dataset arithmetic works column by column with the same-named column, list element or scalar; the rest is carried over"""
    n, k = r.pick([1, 2, 5, 12]), r.int(1, 4)
    cols = {f"n{i}": rt.FastArray(gen.num(r, n, r.pick(["f8", "f8", "i8"]), inv=0, lo=1, hi=60)) for i in range(k)}
    ds = rt.Dataset({"lab": rt.FastArray(gen.words(r, n, "S")), **cols, "txt": rt.FastArray(gen.words(r, n, "S"))})
    if r.chance(.5):
        ds.label_set_names(["lab"])
    o = r.pick(list(BIN))
    rhs = r.pick(["scalar", "array", "list", "ds", "ds-perm", "ds-part", "struct"])
    if rhs == "scalar":
        v = r.pick([2, 3., -1])
        arg, per = v, {c: v for c in cols}
    elif rhs in ("array", "list"):
        v = r.g.integers(1, 9, n)
        arg, per = (rt.FastArray(v) if rhs == "array" else [int(q) for q in v]), {c: v for c in cols}
    elif rhs == "struct":
        per = {c: r.int(1, 9) for c in r.subset(list(cols), 1, k)}
        arg = rt.Struct(per)
    else:
        names = list(cols) if rhs != "ds-part" else r.subset(list(cols), 1, k)
        per = {c: r.g.integers(1, 9, n) for c in names}
        arg = rt.Dataset({c: rt.FastArray(per[c]) for c in (r.perm(names) if rhs == "ds-perm" else names)})
    before = gen.snap(ds)
    out, err = m.attempt(f"ds {o} {rhs}", BIN[o], ds, arg)
    if err is not None:
        m.check(rhs in ("list",), f"Dataset {o} {rhs} failed", error=repr(err))
        return
    m.check(set(out.keys()) == set(ds.keys()), "columns kept", have=list(out.keys()))
    for c in cols:
        e = BIN[o](plain(cols[c]).astype("f8"), np.asarray(per[c], "f8")) if c in per else plain(cols[c])
        m.close(plain(out[c]).astype("f8"), np.asarray(e, "f8"), f"{c} {o} {rhs}", rtol=1e-12)
    for c in ("lab", "txt"):
        m.same(plain(out[c]), plain(ds[c]), f"{c} carried over")
    m.check(list(out.label_get_names()) == list(ds.label_get_names()), "labels kept")
    m.check(gen.snap_diff(before, gen.snap(ds)) is None, "operands unchanged")
    m.note(op=o, rhs=rhs, rows=n, cols=k)


@case(n=250, thorough=2500)
def apply_cols(m, r):
    n, k = r.pick([1, 2, 5, 12]), r.int(1, 4)
    cols = numcols(r, n, k, inv=.2)
    ds = rt.Dataset({"lab": rt.FastArray(r.g.integers(0, 9, n)), **cols, "txt": rt.FastArray(gen.words(r, n, "S")), "c": gen.cat(r, n, kind="str")})
    lab = r.chance()
    if lab:
        ds.label_set_names(["lab"])
    ops = [("abs", lambda d: d.abs(), lambda a: abs(a)), ("__abs__", lambda d: abs(d), lambda a: abs(a)), ("+", lambda d: +d, lambda a: +a), ("fillna", lambda d: d.fillna(5), lambda a: a.fillna(5)), ("lambda", lambda d: d.apply_cols(lambda a: a * 2), lambda a: a * 2),
           ("name", lambda d: d.apply_cols("cumsum"), lambda a: a.cumsum()), ("astype", lambda d: d.astype("f8"), lambda a: a.astype("f8")), ("neg", lambda d: -d, lambda a: -a),
           ("args", lambda d: d.apply_cols(lambda a, q: a + q, 3), lambda a: a + 3), ("ffill", lambda d: d.fillna(method="ffill"), lambda a: a.fill_forward()), ("bfill", lambda d: d.fillna(method="bfill"), lambda a: a.fill_backward())]
    name, fn, one = r.pick(ops)
    out = m.call(name, fn, ds)
    m.check(list(out.keys()) == list(ds.keys()), "columns kept", have=list(out.keys()))
    for c, a in ds.items():
        comp = a.iscomputable() and not (lab and c == "lab")
        if comp and not isinstance(a, (rt.Date, rt.DateTimeNano, rt.TimeSpan)):
            m.same(plain(out[c]), plain(one(a)), f"{name} of {c}")
        elif not a.iscomputable() or (lab and c == "lab"):
            m.same(gen.decode(out[c]), gen.decode(a), f"{name} leaves {c}")
    m.note(op=name, rows=n)


@case(n=250, thorough=2500)
def trim_keep(m, r):
    """trim drops exactly the rows (columns) that are all zero or missing; keep keeps those where the test holds somewhere"""
    n, k = r.pick([1, 2, 4, 9]), r.int(1, 4)
    cols = {f"n{i}": rt.FastArray(gen.num(r, n, r.pick(["f8", "i4"]), inv=.3, lo=0, hi=3)) for i in range(k)}
    for c in cols:
        plain(cols[c])[r.g.random(n) < .5] = 0
        if plain(cols[c]).dtype.kind == "f":
            cols[c][:] = np.round(plain(cols[c]))
    ds = rt.Dataset({"txt": rt.FastArray(gen.words(r, n, "S")), **cols})
    mode = r.pick(["both", "zeros", "nans", "func", "keep"])
    rows, colsf = r.chance(.8), r.chance(.8)
    V = {c: vals(a) for c, a in cols.items()}
    t = {"both": lambda v: v is None or v == 0, "zeros": lambda v: v is not None and v == 0, "nans": lambda v: v is None, "func": lambda v: v is not None and v > 1, "keep": lambda v: v is not None and v > 1}[mode]
    if mode == "keep":
        out = m.call("keep", ds.keep, lambda a: a > 1, rows=rows)
        ck = [c for c in cols if any(t(v) for v in V[c])]
        rk = [i for i in range(n) if any(t(V[c][i]) for c in ck)] if rows and ck else list(range(n))
    else:
        kw = {"both": {}, "zeros": {"nans": False}, "nans": {"zeros": False}, "func": {"func": lambda a: a > 1}}[mode]
        out = m.call("trim", ds.trim, rows=rows, columns=colsf, **kw)
        ck = [c for c in cols if not colsf or not all(t(v) for v in V[c])]
        rk = [i for i in range(n) if not all(t(V[c][i]) for c in ck)] if rows and ck else list(range(n))
    m.check(list(out.keys()) == ["txt"] + ck, "columns kept", have=list(out.keys()), want=ck, mode=mode)
    m.check(out.get_nrows() == len(rk), "rows kept", have=out.get_nrows(), want=len(rk), mode=mode)
    if out.get_nrows() == len(rk):
        for c in out.keys():
            e = vals(ds[c])
            same(m, out[c], [e[i] for i in rk], f"{mode}: {c}")
    m.note(mode=mode, rows=n, kept=len(rk))


@case(n=250, thorough=2500)
def masks(m, r):
    """mask_or/mask_and of NaN, infinity and finiteness, any/all/isin by cell"""
    n, k = r.pick([1, 2, 5, 12]), r.int(1, 4)
    cols = {}
    for i in range(k):
        a = gen.num(r, n, r.pick(["f8", "f8", "i4", "f4"]), inv=.3, lo=0, hi=3)
        if a.dtype.kind == "f":
            a[r.g.random(n) < .2] = np.inf
            a[r.g.random(n) < .2] = 0
        cols[f"n{i}"] = rt.FastArray(a)
    ds = rt.Dataset({**cols, "txt": rt.FastArray(gen.words(r, n, "S"))})
    P = [plain(a) for a in cols.values()]
    nan = [np.asarray(gen.is_inv(a), bool) for a in P]
    inf = [np.isinf(a.astype("f8")) for a in P]
    fin = [~(x | y) for x, y in zip(nan, inf)]
    for nm, ms in (("isnan", nan), ("isinf", inf), ("isfinite", fin)):
        m.same(plain(m.call(f"mask_or_{nm}", getattr(ds, f"mask_or_{nm}"))), np.logical_or.reduce(ms), f"mask_or_{nm}")
        m.same(plain(m.call(f"mask_and_{nm}", getattr(ds, f"mask_and_{nm}"))), np.logical_and.reduce(ms), f"mask_and_{nm}")
    nz = rt.Dataset({c: rt.FastArray(r.g.integers(0, 2, n).astype(r.pick(["i4", "f8", "?"]))) for c in cols})
    Z = [plain(a) != 0 for a in nz.values()]
    m.same(plain(m.call("any rows", nz.any, axis=1)), np.logical_or.reduce(Z), "any across a row")
    m.same(plain(m.call("all rows", nz.all, axis=1)), np.logical_and.reduce(Z), "all across a row")
    m.check(bool(m.call("any", nz.any, axis=None)) == bool(np.any(Z)), "any cell")
    m.check(bool(m.call("all", nz.all, axis=None)) == bool(np.all(Z)), "all cells")
    for nm, f in (("any", np.any), ("all", np.all)):
        o = m.call(nm, getattr(nz, nm))
        m.check([bool(v[0]) for v in o.values()] == [bool(f(z)) for z in Z] and list(o.keys()) == list(cols), f"{nm} of each column")
    w = [1, 2]
    o = m.call("isin", rt.Dataset(cols).isin, w)
    for c, a in cols.items():
        m.same(plain(o[c]), np.isin(plain(a), w), "isin by cell")
    m.note(rows=n, cols=k)


@case(n=200, thorough=2000)
def across(m, r):
    """row-wise functions: reductions with axis=1, apply_rows, argmax and outliers pick cells of that row"""
    n, k = r.pick([1, 2, 5, 12]), r.int(1, 4)
    cols = {f"n{i}": rt.FastArray(gen.num(r, n, r.pick(["f8", "i4", "i8"]), inv=0, lo=0, hi=30)) for i in range(k)}
    ds = rt.Dataset(cols)
    M = np.array([plain(a).astype("f8") for a in cols.values()])
    nm = r.pick(["sum", "mean", "min", "max", "nansum", "nanmean", "std", "var", "median"])
    f = {"nansum": np.sum, "nanmean": np.mean, "sum": np.sum, "mean": np.mean, "min": np.min, "max": np.max, "std": lambda x, axis: np.std(x, axis=axis, ddof=1), "var": lambda x, axis: np.var(x, axis=axis, ddof=1), "median": np.median}[nm]
    if not (nm in ("std", "var") and k == 1):
        res, err = m.attempt(f"{nm} axis 1", getattr(ds, nm), axis=1)
        if err is None:
            m.close(plain(res).astype("f8"), f(M, axis=0), f"{nm} of each row", rtol=1e-9, atol=1e-9)
    tot = m.call(f"{nm} axis None", getattr(ds, nm), axis=None) if nm not in ("std", "var") or n * k > 1 else None
    if tot is not None:
        m.close(float(tot), float(f(M.reshape(-1), axis=0)), f"{nm} of all cells", rtol=1e-9, atol=1e-9)
    res = m.call("apply_rows", ds.apply_rows, lambda row: float(sum((j + 1) * row[j] for j in range(k))))
    m.close(np.asarray(res, "f8"), (M * np.arange(1, k + 1)[:, None]).sum(0), "apply_rows sees each row in column order", rtol=1e-9)
    d2 = rt.Dataset({"name": rt.FastArray(np.array([f"r{i}" for i in range(n)])), **cols})
    o = m.call("outliers", d2.outliers, "name")
    for key, pick in (("Max", np.max), ("Min", np.min)):
        t = o[key]
        same(m, t["Names"], list(cols), "outliers lists the columns")
        for j in range(k):
            pos = int(t["Pos"][j])
            m.check(0 <= pos < n and M[j][pos] == pick(M[j]) and float(t["Values"][j]) == M[j][pos] and gen.txt(t["name"][j]) == f"r{pos}", "outlier is a cell of its row", pos=pos, key=key)
    im = m.call("imatrix_totals", lambda: ds.copy().imatrix_totals())
    m.close(plain(im["Sum"]).astype("f8"), M.sum(0), "row totals", rtol=1e-9)
    ft = im.footer_get_dict()["Sum"]
    for j, c in enumerate(cols):
        m.close(float(ft[c]), float(M[j].sum()), "column totals in the footer", rtol=1e-9)
    m.close(float(ft["Sum"]), float(M.sum()), "grand total", rtol=1e-9)
    m.note(rows=n, cols=k, op=nm)
