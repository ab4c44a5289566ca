"""C11: merge2 / merge / merge_indices return exactly the relational join of the two tables."""
import logging
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen, gb

logging.disable(logging.WARNING)
PAIRS = [("i1", "i8"), ("i2", "i4"), ("i4", "i4"), ("i8", "i8"), ("i8", "i4"), ("u1", "u4"), ("u2", "u2"), ("u4", "i8"), ("u1", "i1"), ("f4", "f8"), ("f8", "f8"), ("f4", "f4"), ("i4", "f8"),
         ("S", "S"), ("S", "S"), ("U", "U"), ("S", "U"), ("date", "date"), ("dtn", "dtn"),
         ("cat", "cat"), ("cat", "S"), ("S", "cat"), ("cat0", "cat"), ("cati", "cati"), ("cati", "i8"), ("catf", "cat"), ("catf", "S"), ("S", "catf"), ("cat", "catf"), ("catx", "catx")]


def one(a, idx, null, kind):
    """Materialise pool[idx] (null rows missing) as a riptable array of `kind`; returns (array, values, null mask)."""
    n = len(idx)
    if kind in ("S", "U", "cat", "cat0", "catf", "catx"):
        w = [f"w{v}" for v in idx.tolist()]
        if kind in ("S", "U"):
            arr = rt.FastArray(np.array(w, dtype=kind if n else kind + "3"), unicode=kind == "U")
            return arr, w, np.zeros(n, bool)
        if kind == "cat":
            src = np.array(w, dtype="S") if n else np.array([], dtype="S3")
            return rt.Cat(src), w, np.zeros(n, bool)
        if kind == "catx":                         # ordered=False: first-appearance order, unused categories
            cats = np.array([f"w{v}" for v in range(int(a.max(initial=0)), -1, -1)] + ["zz"], dtype="S")
            pos = {c.decode(): i + 1 for i, c in enumerate(cats.tolist())}
            codes = np.array([pos[x] for x in w], dtype="i4")
            codes[null] = 0
            return rt.Cat(codes, cats), [None if z else x for x, z in zip(w, null.tolist())], null.copy()
        if kind == "cat0":
            return rt.Cat(np.array(w, dtype="S") if n else np.array([], dtype="S3"), base_index=1, ordered=False), w, np.zeros(n, bool)
        return rt.Cat(np.array(w, dtype="S") if n else np.array([], dtype="S3"), filter=~null), [None if z else x for x, z in zip(w, null.tolist())], null.copy()
    if kind == "cati":
        return rt.Cat(idx.astype("i4")), (idx + 0).tolist(), np.zeros(n, bool)
    if kind == "bool":
        b = (idx % 2).astype(bool)
        return rt.FastArray(b), b.tolist(), np.zeros(n, bool)
    if kind == "date":
        d = (idx + 18000).astype("i4")
        d[null] = rt.Date.NAN_DATE
        return rt.Date(d), d.tolist(), null.copy()
    if kind == "dtn":
        d = (idx * 1_000_000_007 + 1_600_000_000_000_000_000).astype("i8")
        d[null] = rt.DateTimeNano.NAN_TIME
        return rt.DateTimeNano(d, from_tz="GMT", to_tz="NYC"), d.tolist(), null.copy()
    v = idx.astype(kind)
    v[null] = gen.invalid(kind)
    return rt.FastArray(v), v.tolist(), null.copy()


def keycols(r, nl, nr, k, nulls):
    """Lists of (left array, right array) plus per-row key tuples (None = matches nothing)."""
    L, Rr, lk, rk, ln, rn = [], [], [], [], np.zeros(nl, bool), np.zeros(nr, bool)
    kinds = []
    for _ in range(k):
        kl, kr = r.pick(PAIRS if k == 1 else [p for p in PAIRS if not (p[0].startswith("cat") or p[1].startswith("cat"))] * 3 + [("cat", "cat"), ("cati", "cati")])
        card = r.pick([1, 2, 3, 6, 12, 40, 100]) if k == 1 else r.pick([1, 2, 3, 5])
        span = max(1, int(card * r.pick([1, 1, 1.5])))
        pool = np.arange(span)
        sh = r.pick([0, 0, 0, card // 2, card])
        il = r.g.integers(0, card, nl) if card > 1 else np.zeros(nl, "i8")
        ir = (r.g.integers(0, card, nr) if card > 1 else np.zeros(nr, "i8")) + (sh if sh + card < 120 else 0)
        if r.chance(0.25) and k == 1:
            ir = np.sort(ir)
        if r.chance(0.25) and k == 1:
            il = np.sort(il)
        zl = gen.bools(r, nl, 0.15) if nulls else np.zeros(nl, bool)
        zr = gen.bools(r, nr, 0.15) if nulls else np.zeros(nr, bool)
        top = np.array([il.max(initial=0), ir.max(initial=0)])
        a, va, na = one(top, il, zl, kl)
        b, vb, nb = one(top, ir, zr, kr)
        L.append(a); Rr.append(b); lk.append(va); rk.append(vb); ln |= na; rn |= nb
        kinds.append((kl, kr))
    lt = [gb.tuples(lk)[i] if k > 1 else lk[0][i] for i in range(nl)] if nl else []
    rtp = [gb.tuples(rk)[i] if k > 1 else rk[0][i] for i in range(nr)] if nr else []
    nz = lambda v: ("nan",) if isinstance(v, float) and v != v else v
    lt = [tuple(nz(x) for x in v) if isinstance(v, tuple) else nz(v) for v in lt]
    rtp = [tuple(nz(x) for x in v) if isinstance(v, tuple) else nz(v) for v in rtp]
    return L, Rr, lt, rtp, ln, rn, kinds


def dedup(keys, keep):
    """Rows kept: one per distinct key (missing keys equal each other)."""
    if keep is None:
        return list(range(len(keys)))
    d = {}
    for i, k in enumerate(keys):
        if keep == "last" or k not in d:
            d[k] = i
    return sorted(d.values())


def join(lt, rtp, ln, rn, how, keep):
    kl, kr = keep
    L, Rr = dedup(lt, kl), dedup(rtp, kr)
    if how == "right":
        sw = join(rtp, lt, rn, ln, "left", (kr, kl))
        return [(b, a) for a, b in sw]
    byr = {}
    for j in Rr:
        if not rn[j]:
            byr.setdefault(rtp[j], []).append(j)
    out, used = [], set()
    for i in L:
        mt = byr.get(lt[i], []) if not ln[i] else []
        for j in mt:
            out.append((i, j)); used.add(j)
        if not mt and how != "inner":
            out.append((i, None))
    if how == "outer":
        out += [(None, j) for j in Rr if j not in used]
    return out


def tables(r, nulls=None, extra=True, k=None):
    nl = r.pick([0, 1, 2, r.int(3, 30), r.int(3, 30), r.int(31, 200), r.int(200, 900)], p=[.04, .06, .06, .34, .3, .15, .05])
    nr = r.pick([0, 1, 2, r.int(3, 30), r.int(3, 30), r.int(31, 200), r.int(200, 900)], p=[.04, .06, .06, .34, .3, .15, .05])
    k = k or r.pick([1, 1, 1, 2, 3])
    nulls = r.chance(0.4) if nulls is None else nulls
    L, Rr, lt, rtp, ln, rn, kinds = keycols(r, nl, nr, k, nulls)
    samenames = [r.chance(0.6) for _ in range(k)]
    lnames = [f"k{i}" for i in range(k)]
    rnames = [f"k{i}" if s else f"q{i}" for i, s in enumerate(samenames)]
    left, right = rt.Dataset({}), rt.Dataset({})
    lc = [(nm, a) for nm, a in zip(lnames, L)] + [("lid", rt.FastArray(np.arange(nl, dtype="i4")))]
    rc = [(nm, a) for nm, a in zip(rnames, Rr)] + [("rid", rt.FastArray(np.arange(nr, dtype="i4")))]
    if extra:
        for q in range(r.int(0, 3)):
            lc.append((f"x{q}", gen.column(r, nl)))
        for q in range(r.int(0, 3)):
            rc.append((f"y{q}", gen.column(r, nr)))
    left = rt.Dataset(dict(r.perm(lc)))
    right = rt.Dataset(dict(r.perm(rc)))
    return left, right, lnames, rnames, lt, rtp, ln, rn, kinds


def ids(col):
    return [None if z else int(v) for v, z in zip(plain(col).tolist(), gen.is_inv(plain(col)).tolist())]


def missing(col, i):
    d = gen.decode(col)
    v = d[i]
    if v is None or isinstance(col, rt.Categorical):
        return v is None or bool(gen.txt(v) == "" if isinstance(gen.txt(v), str) else gen.is_inv(np.array([v]))[0])
    if plain(col).dtype.kind in "SU":
        return gen.txt(v) == ""
    if plain(col).dtype.kind == "b":
        return not v
    if isinstance(col, rt.Date):
        return bool(v == rt.Date.NAN_DATE or gen.is_inv(plain(col))[i])
    if isinstance(col, rt.DateTimeNano):
        return bool(v == rt.DateTimeNano.NAN_TIME or gen.is_inv(plain(col))[i])
    return bool(gen.is_inv(plain(col))[i])


def pick_missing(m, out, src, idx, what):
    """out[j] == src[idx[j]] or missing where idx is None."""
    m.check(type(out) is type(src), f"{what}: class {type(out).__name__} != {type(src).__name__}")
    d, s = gen.decode(out).tolist(), gen.decode(src).tolist()
    m.check(len(d) == len(idx), f"{what}: {len(d)} values for {len(idx)} rows")
    for j, i in enumerate(idx):
        if i is None:
            if not missing(out, j):
                m.check(False, f"{what}: unmatched row {j} holds {d[j]!r} instead of a missing value")
        else:
            a, b = gen.txt(d[j]), gen.txt(s[i])
            if not (a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)):
                m.check(False, f"{what}: row {j} holds {a!r}, source row {i} holds {b!r}")
    m.oracles += 1


def on_arg(r, ln, rn):
    """Equivalent spellings of the join columns."""
    same = [a == b for a, b in zip(ln, rn)]
    mode = r.pick(["lr", "lr_list", "on_list"] + (["on"] if len(ln) == 1 else []))
    if mode == "lr" and len(ln) == 1:
        return dict(left_on=ln[0], right_on=rn[0])
    if mode in ("lr", "lr_list"):
        return dict(left_on=list(ln), right_on=list(rn))
    lst = [a if s and r.chance(0.7) else (a, b) for a, b, s in zip(ln, rn, same)]
    return dict(on=lst[0] if mode == "on" else lst)


def note_inputs(m, left, right, lnames, rnames, kinds, **kw):
    m.note(kinds=kinds, lkeys=[gen.decode(left[c]).tolist()[:40] for c in lnames], rkeys=[gen.decode(right[c]).tolist()[:40] for c in rnames], nl=len(left["lid"]), nr=len(right["rid"]), **kw)


def judge(m, out, left, right, lnames, rnames, pairs, how, what, ordered, cl=None, cr=None, sfx=None, ind=None):
    common = [a for a in lnames if a in rnames]
    cl = list(left.keys()) if cl is None else cl
    cr = list(right.keys()) if cr is None else cr
    lonly = [c for c in cl if c not in common]
    ronly = [c for c in cr if c not in common]
    over = set(lonly) & set(ronly)
    nm_l = {c: c + sfx[0] if c in over else c for c in lonly}
    nm_r = {c: c + sfx[1] if c in over else c for c in ronly}
    exp_cols = set(common) | set(nm_l.values()) | set(nm_r.values()) | ({ind} if ind else set())
    m.check(set(out.keys()) == exp_cols, f"{what}: columns {sorted(out.keys())} != {sorted(exp_cols)}")
    gl, gr = ids(out[nm_l["lid"]]), ids(out[nm_r["rid"]])
    got = list(zip(gl, gr))
    if ordered:
        if got != pairs:
            j = next((j for j, (a, b) in enumerate(zip(got, pairs)) if a != b), min(len(got), len(pairs)))
            same = sorted(got, key=str) == sorted(pairs, key=str)
            m.check(False, f"{what}: {'same rows, wrong order' if same else 'wrong rows'} at output row {j}", got=got[max(0, j - 2):j + 6], exp=pairs[max(0, j - 2):j + 6], n=(len(got), len(pairs)))
    else:
        a, b = sorted(got, key=str), sorted(pairs, key=str)
        if a != b:
            m.check(False, f"{what}: wrong rows", extra=[x for x in a if x not in b][:6], lacking=[x for x in b if x not in a][:6], n=(len(a), len(b)))
    m.oracles += 1
    for c in lonly:
        pick_missing(m, out[nm_l[c]], left[c], gl, f"{what}[{c}]")
    for c in ronly:
        pick_missing(m, out[nm_r[c]], right[c], gr, f"{what}[{c}]")
    for c in common:
        ld, rd, od = gen.decode(left[c]).tolist(), gen.decode(right[c]).tolist(), gen.decode(out[c]).tolist()
        for j, (a, b) in enumerate(got):
            e = gen.txt(rd[b] if a is None or (how == "right" and b is not None) else ld[a])
            v = gen.txt(od[j])
            if not (v == e or (isinstance(v, float) and isinstance(e, float) and v != v and e != e) or (e is None and v in (None, "", "Filtered"))):
                src = right[c] if a is None or (how == "right" and b is not None) else left[c]
                if missing(src, b if src is right[c] else a) and missing(out[c], j):
                    continue
                m.check(False, f"{what}: key column {c} row {j} is {v!r}, the row's key is {e!r}")
        m.oracles += 1
    if ind:
        lab = [gen.txt(x) for x in gen.decode(out[ind]).tolist()]
        exp = ["both" if a is not None and b is not None else "left_only" if b is None else "right_only" for a, b in got]
        m.check(lab == exp, f"{what}: indicator", got=lab, exp=exp)


def run2(m, left, right, kw, how, **more):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return m.call(f"merge2[{how}]", rt.merge2, left, right, how=how, **kw, **more)


@case(n=420)
def merge2_join(m, r):
    left, right, lnames, rnames, lt, rtp, ln, rn, kinds = tables(r)
    how = r.pick(["left", "right", "inner", "outer"])
    opts = {}
    if r.chance(0.3):
        opts["indicator"] = r.pick([True, "ind"])
    if r.chance(0.2):
        opts["copy"] = False
    if r.chance(0.25):
        opts["high_card"] = r.pick([True, False, (True, False), (None, True)])
    if r.chance(0.25):
        opts["hint_size"] = r.pick([10, 1000, (5, 1000), (None, 3)])
    cl = cr = None
    if r.chance(0.3):
        cl = ["lid"] + [c for c in left.keys() if c != "lid" and r.chance()]
        opts["columns_left"] = cl if len(cl) > 1 or r.chance() else "lid"
    if r.chance(0.3):
        cr = ["rid"] + [c for c in right.keys() if c != "rid" and r.chance()]
        opts["columns_right"] = cr if len(cr) > 1 or r.chance() else "rid"
    kw = on_arg(r, lnames, rnames)
    note_inputs(m, left, right, lnames, rnames, kinds, how=how, opts=opts, on=kw)
    before = gen.snap(left), gen.snap(right)
    if r.chance(0.5):
        gen.dirty(r, len(left["lid"]))
    out = run2(m, left, right, kw, how, **opts)
    pairs = join(lt, rtp, ln, rn, how, (None, None))
    ind = opts.get("indicator")
    judge(m, out, left, right, lnames, rnames, pairs, how, f"merge2[{how}]", True, cl, cr, None, "merge_indicator" if ind is True else ind)
    after = gen.snap(left), gen.snap(right)
    m.check(gen.snap_diff(list(before), list(after)) is None, f"merge2[{how}]: changed an input", diff=gen.snap_diff(list(before), list(after)))


@case(n=300)
def merge2_keep(m, r):
    left, right, lnames, rnames, lt, rtp, ln, rn, kinds = tables(r, extra=False)
    how = r.pick(["left", "right", "inner", "outer"])
    ch = ["first", "last", None]
    keep = (r.pick(ch), r.pick(ch)) if how != "outer" else (None, r.pick(["first", "last"]))
    if keep[0] == keep[1] and keep[0] and r.chance():
        arg = keep[0]
    else:
        arg = keep
    opts = {}
    if r.chance(0.25):
        opts["high_card"] = r.pick([True, False])
    if r.chance(0.4):
        opts["indicator"] = True
    kw = on_arg(r, lnames, rnames)
    note_inputs(m, left, right, lnames, rnames, kinds, how=how, keep=arg, opts=opts)
    out = run2(m, left, right, kw, how, keep=arg, **opts)
    pairs = join(lt, rtp, ln, rn, how, keep)
    drive, dk = (left, 0) if how != "right" else (right, 1)
    judge(m, out, left, right, lnames, rnames, pairs, how, f"merge2[{how}] keep={arg}", keep == (None, None), ind="merge_indicator" if opts.get("indicator") else None)


@case(n=120)
def validate(m, r):
    left, right, lnames, rnames, lt, rtp, ln, rn, kinds = tables(r, nulls=False, extra=False)
    if any(k[0] in ("bool",) for k in kinds):
        pass
    how = r.pick(["left", "right", "inner", "outer"])
    v = r.pick(["1:1", "1:m", "m:1", "m:m", "one_to_one", "one_to_many", "many_to_one", "many_to_many"])
    if r.chance(0.5):                              # make one side unique
        keepl = dedup(lt, "first")
        left = left[rt.FastArray(np.array(keepl, dtype="i4")), :] if keepl else left
        left.lid = rt.FastArray(np.arange(len(keepl), dtype="i4"))
        lt, ln = [lt[i] for i in keepl], ln[keepl] if keepl else ln
    if r.chance(0.5):
        keepr = dedup(rtp, "first")
        right = right[rt.FastArray(np.array(keepr, dtype="i4")), :] if keepr else right
        right.rid = rt.FastArray(np.arange(len(keepr), dtype="i4"))
        rtp, rn = [rtp[i] for i in keepr], rn[keepr] if keepr else rn
    ul, ur = len(set(lt)) == len(lt), len(set(rtp)) == len(rtp)
    bad = (v in ("1:1", "1:m", "one_to_one", "one_to_many") and not ul) or (v in ("1:1", "m:1", "one_to_one", "many_to_one") and not ur)
    kw = on_arg(r, lnames, rnames)
    note_inputs(m, left, right, lnames, rnames, kinds, how=how, validate=v, unique=(ul, ur))
    if bad:
        m.raises(f"merge2[validate={v}]", rt.merge2, left, right, how=how, validate=v, exc=ValueError, **kw)
        if how != "outer":
            out = run2(m, left, right, kw, how, validate=v, keep="first")
            judge(m, out, left, right, lnames, rnames, join(lt, rtp, ln, rn, how, ("first", "first")), how, "merge2 validated with keep", False)
    else:
        out = run2(m, left, right, kw, how, validate=v)
        judge(m, out, left, right, lnames, rnames, join(lt, rtp, ln, rn, how, (None, None)), how, f"merge2[validate={v}]", True)


@case(n=120)
def indices(m, r):
    """merge_indices describes the same join, and the JoinIndices row count is right."""
    left, right, lnames, rnames, lt, rtp, ln, rn, kinds = tables(r, extra=False)
    how = r.pick(["left", "right", "inner", "outer"])
    note_inputs(m, left, right, lnames, rnames, kinds, how=how)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ji = m.call("merge_indices", rt.rt_merge.merge_indices, left, right, on=list(zip(lnames, rnames)), how=how)
    pairs = join(lt, rtp, ln, rn, how, (None, None))
    nl, nr = len(lt), len(rtp)
    li = list(range(nl)) if ji.left_index is None else ids(ji.left_index)
    ri = list(range(nr)) if ji.right_index is None else ids(ji.right_index)
    m.check(list(zip(li, ri)) == pairs and len(li) == len(ri), f"merge_indices[{how}]: wrong row pairs", got=list(zip(li, ri))[:30], exp=pairs[:30])
    m.check(type(ji).result_rowcount(ji.left_index, nl) == len(pairs), "JoinIndices.result_rowcount(left)")
    m.check(type(ji).result_rowcount(ji.right_index, nr) == len(pairs), "JoinIndices.result_rowcount(right)")


@case(n=120)
def suffixes(m, r):
    left, right, lnames, rnames, lt, rtp, ln, rn, kinds = tables(r, extra=False)
    nl, nr = len(lt), len(rtp)
    for c in r.subset(["v", "w", "z"], 1, 3):
        left[c] = gen.column(r, nl)
        right[c] = gen.column(r, nr)
    how = r.pick(["left", "right", "inner", "outer"])
    kw = on_arg(r, lnames, rnames)
    sfx = r.pick([("_l", "_r"), ("", "_r"), ("_l", ""), ("_x", "_y")])
    note_inputs(m, left, right, lnames, rnames, kinds, how=how, suffixes=sfx)
    out = run2(m, left, right, kw, how, suffixes=sfx)
    judge(m, out, left, right, lnames, rnames, join(lt, rtp, ln, rn, how, (None, None)), how, "merge2 suffixes", True, sfx=sfx)
    m.raises("merge2 overlap", rt.merge2, left, right, how=how, exc=ValueError, **kw)
    m.raises("merge2 same suffixes", rt.merge2, left, right, how=how, suffixes=("_a", "_a"), exc=ValueError, **kw)
    left["v_l"] = rt.FastArray(np.arange(nl))
    if "v" in left and "v" in right and sfx[0] == "_l":
        m.raises("merge2 self collision", rt.merge2, left, right, how=how, suffixes=sfx, exc=ValueError, **kw)


@case(n=200)
def merge1(m, r):
    """rt.merge: the first matching row of the other table (no multiplication of rows)."""
    left, right, lnames, rnames, lt, rtp, ln, rn, kinds = tables(r, nulls=False)
    if any(("U" in k and "S" in k) for k in kinds):
        pass
    if any(k[0] != k[1] for k in kinds) and len(kinds) > 1:
        m.trivial = True
        return
    if any(k[0].startswith("cat") for k in kinds) and len(kinds) > 1:
        m.trivial = True
        return
    how = r.pick(["left", "right", "inner", "outer"])
    if how == "outer" and any(a != b or a.startswith("cat") for a, b in kinds):
        how = "inner"
    if not len(lt) or not len(rtp):
        m.trivial = True
        return
    ind = r.pick([None, True, "ind"])
    kw = dict(on=lnames if len(lnames) > 1 or r.chance() else lnames[0]) if lnames == rnames else dict(left_on=lnames, right_on=rnames)
    note_inputs(m, left, right, lnames, rnames, kinds, how=how)
    before = gen.snap(left), gen.snap(right)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = m.call(f"merge[{how}]", rt.merge, left, right, how=how, **(dict(indicator=ind) if ind else {}), **kw)
    fl, fr = {}, {}
    for i, k in enumerate(lt):
        fl.setdefault(k, i)
    for i, k in enumerate(rtp):
        fr.setdefault(k, i)
    if how == "left":
        pairs = [(i, fr.get(k)) for i, k in enumerate(lt)]
    elif how == "right":
        pairs = [(fl.get(k), j) for j, k in enumerate(rtp)]
    elif how == "outer":
        pairs = [(fl.get(k), fr.get(k)) for k in dict.fromkeys(list(lt) + list(rtp))]
    else:
        pairs = [(fl[k], fr[k]) for k in lt if k in fr]
    judge(m, out, left, right, lnames, rnames, pairs, how, f"merge[{how}]", True, ind="merge_indicator" if ind is True else ind)
    d = gen.snap_diff(list(before), list((gen.snap(left), gen.snap(right))))
    m.check(d is None, f"merge[{how}]: changed an input", diff=d)


@case(n=60)
def merge_paths(m, r):
    """The Dataset methods give what the functions give."""
    left, right, lnames, rnames, lt, rtp, ln, rn, kinds = tables(r)
    how = r.pick(["left", "right", "inner", "outer"])
    kw = dict(left_on=lnames, right_on=rnames)
    note_inputs(m, left, right, lnames, rnames, kinds, how=how)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = m.call("merge2", rt.merge2, left, right, how=how, **kw)
        b = m.call("Dataset.merge2", left.merge2, right, how=how, **kw)
    gen.same_ds(m, b, a, "Dataset.merge2")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = m.call("merge2 again", rt.merge2, left, right, how=how, **kw)
    gen.same_ds(m, c, a, "the same join a second time")
    # re-joining after editing the key column reflects the edited keys
    if len(lt) and len(kinds) == 1 and kinds[0][0] in ("i4", "i8", "f8"):
        col = left[lnames[0]]
        j = r.int(0, len(lt) - 1)
        v = r.int(0, 5)
        col[j] = v
        lt = list(lt); lt[j] = v
        ln = ln.copy(); ln[j] = False
        out = run2(m, left, right, kw, how)
        judge(m, out, left, right, lnames, rnames, join(lt, rtp, ln, rn, how, (None, None)), how, "join after editing a key", True)


@case(n=12, thorough=4)
def big(m, r):
    """Sizes beyond the threading and index-width thresholds."""
    nl, nr = r.pick([(70000, 40000), (40000, 70000), (200000, 300), (130, 33000), (33000, 130), (100000, 100000)])
    card = r.pick([nl, nr, 40000, 500]) if min(nl, nr) < 1000 else r.pick([nl, nr, 60000])
    lk, rk = r.g.integers(0, card, nl), r.g.integers(0, card, nr)
    how = r.pick(["left", "right", "inner", "outer"])
    kind = r.pick(["i4", "i8", "S", "f8"])
    mk = (lambda a: rt.FastArray(np.char.add("k", a.astype(str)).astype("S"))) if kind == "S" else (lambda a: rt.FastArray(a.astype(kind)))
    left, right = rt.Dataset({"k": mk(lk), "lid": np.arange(nl)}), rt.Dataset({"k": mk(rk), "rid": np.arange(nr)})
    m.note(nl=nl, nr=nr, card=card, how=how, kind=kind)
    out = run2(m, left, right, dict(on="k"), how)
    pairs = join(lk.tolist(), rk.tolist(), np.zeros(nl, bool), np.zeros(nr, bool), how, (None, None))
    got = list(zip(ids(out["lid"]), ids(out["rid"])))
    m.check(got == pairs, f"merge2[{how}] large: wrong rows", n=(len(got), len(pairs)))
    exp = [lk[a] if a is not None else rk[b] for a, b in pairs]
    m.check([gen.txt(v) for v in plain(out["k"]).tolist()] == ([f"k{v}" for v in exp] if kind == "S" else [kind[0] == "f" and float(v) or int(v) for v in exp]), "merge2 large: key column")
