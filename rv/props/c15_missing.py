"""C15: missing values are recognised, survive, propagate and are replaced only where asked."""
import logging
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
FLTS = ["f4", "f8"]
CLS = ["date", "dtn", "span", "dspan"]
KINDS = INTS + FLTS + ["S", "U", "b"] + CLS


def size(r):
    return r.pick([0, 1, 2, r.int(3, 20), r.int(20, 70), r.int(70, 400), r.int(9000, 40000)], p=[.03, .05, .05, .35, .3, .18, .04])


def make(r, n, kind, p=None):
    """(riptable array, missing mask); the raw memory is the source of truth."""
    p = r.pick([0, .1, .3, .8, 1.0], p=[.15, .3, .35, .15, .05]) if p is None else p
    z = r.g.random(n) < p
    if kind in INTS:
        ii = np.iinfo(kind)
        lo, hi = r.pick([(max(ii.min + 1, -5), 5), (ii.min + 1, ii.max - 1), (max(ii.min + 1, -100), 100)])
        a = r.g.integers(lo, hi, n, dtype=kind, endpoint=True)
        a[z] = gen.invalid(kind)
        return rt.FastArray(a), z
    if kind in FLTS:
        a = np.round(r.g.normal(0, 50, n), 2).astype(kind)
        if r.chance(.3):
            a[r.g.random(n) < .1] = np.inf
            a[r.g.random(n) < .05] = -np.inf
        if r.chance(.3):
            a[r.g.random(n) < .1] = 0
        a[z] = np.nan
        return rt.FastArray(a), z
    if kind in ("S", "U"):
        a = gen.words(r, n, kind)
        a = np.array(a, dtype=plain(a).dtype)
        a[a == a.dtype.type()] = "x"
        a[z] = ""
        return rt.FastArray(a, unicode=kind == "U"), z
    if kind == "b":
        return rt.FastArray(r.g.random(n) < .5), np.zeros(n, bool)
    if kind == "date":
        a = r.g.integers(1, 40000, n).astype("i4")
        alt = r.g.random(n) < .3
        a[z] = 0
        a[z & alt] = np.iinfo("i4").min
        return rt.Date(a), z
    if kind == "dtn":
        a = r.g.integers(10**9, 2 * 10**18, n)
        alt = r.g.random(n) < .3
        a[z] = 0
        a[z & alt] = np.iinfo("i8").min
        return rt.DateTimeNano(a, from_tz="GMT", to_tz=r.pick(["NYC", "GMT"])), z
    if kind == "span":
        a = np.round(r.g.normal(0, 1e13, n)); a[z] = np.nan
        return rt.TimeSpan(a), z
    a = r.g.integers(-500, 500, n).astype("i4"); a[z] = np.iinfo("i4").min
    return rt.DateSpan(a), z


def strided(r, a):
    if type(a) is not rt.FastArray or not len(a) or not r.chance(.25):
        return a
    k = r.int(2, 3)
    big = np.repeat(plain(a), k)
    if r.chance(.5):
        return big.view(rt.FastArray)[::k]
    return big[::-1].copy().view(rt.FastArray)[::-k]


def val(a):
    return plain(a)


@case(n=160)
def recognise(m, r):
    kind = r.pick(KINDS)
    n = size(r)
    A, z = make(r, n, kind)
    A = strided(r, A)
    m.note(kind=kind, n=n)
    raw = plain(A)
    for nm, e in (("isnan", z), ("isnotnan", ~z), ("isna", z), ("notna", ~z)):
        if kind in ("S", "U") and nm == "isnotnan" and not hasattr(A, nm):
            continue
        m.same(plain(m.call(nm, getattr(A, nm))), e, f"{kind}.{nm}()")
    if kind not in ("S", "U"):
        m.same(plain(m.call("rt.isnan", rt.isnan, A)), z, f"rt.isnan({kind})")
        m.same(plain(m.call("rt.isnotnan", rt.isnotnan, A)), ~z, f"rt.isnotnan({kind})")
        if kind not in CLS and A.flags.contiguous:
            m.same(plain(m.call("np.isnan", np.isnan, A)), z, f"np.isnan({kind})")
        inf = np.isinf(raw) if raw.dtype.kind == "f" else np.zeros(n, bool)
        m.same(plain(m.call("isfinite", A.isfinite)), ~z & ~inf, f"{kind}.isfinite()")
        m.same(plain(m.call("isnotfinite", A.isnotfinite)), z | inf, f"{kind}.isnotfinite()")
        m.same(plain(m.call("rt.isfinite", rt.isfinite, A)), ~z & ~inf, f"rt.isfinite({kind})")
        m.same(plain(m.call("rt.isnotfinite", rt.isnotfinite, A)), z | inf, f"rt.isnotfinite({kind})")
    if kind in INTS + FLTS:
        m.same(plain(m.call("isnanorzero", A.isnanorzero)), z | (raw == 0), f"{kind}.isnanorzero()")
        m.same(plain(m.call("rt.isnanorzero", rt.isnanorzero, A)), z | (raw == 0), f"rt.isnanorzero({kind})")
        m.same(plain(m.call("isinf", A.isinf)), inf, f"{kind}.isinf()")
        m.same(plain(m.call("isnotinf", A.isnotinf)), ~inf, f"{kind}.isnotinf()")
        f = m.call("isnan(fancy)", A.isnan, fancy=True)
        m.same(plain(f).astype("i8"), np.flatnonzero(z), f"{kind}.isnan(fancy=True)")
        f = m.call("isnotnan(fancy)", A.isnotnan, fancy=True)
        m.same(plain(f).astype("i8"), np.flatnonzero(~z), f"{kind}.isnotnan(fancy=True)")
    if n and kind in FLTS + ["dtn", "span", "dspan"]:
        i = r.int(0, n - 1)
        s = A[i]
        if kind in FLTS:
            m.check(bool(rt.isnan(s)) == bool(z[i]), f"isnan of the {kind} scalar {s!r} is {rt.isnan(s)}")
        else:
            m.check(bool(m.call("scalar.isnan", s.isnan)) == bool(z[i]), f"isnan of the {kind} scalar at {i} (raw {raw[i]})")
            m.check(bool(s.isnotnan()) != bool(z[i]), f"isnotnan of the {kind} scalar at {i}")


@case(n=40)
def recognise_2d(m, r):
    kind = r.pick(INTS + FLTS)
    a, b = r.int(1, 12), r.int(1, 12)
    A, z = make(r, a * b, kind)
    X = rt.FastArray(np.array(plain(A)).reshape((a, b), order=r.pick(["C", "F"])))
    z = gen.is_inv(plain(X))
    if r.chance(.4):
        X, z = X[:, ::2], z[:, ::2]
    m.note(kind=kind, shape=X.shape)
    m.same(plain(m.call("isnan", rt.isnan, X)), z, f"isnan of a 2-d {kind} array")
    m.same(plain(m.call("isnotnan", rt.isnotnan, X)), ~z, f"isnotnan of a 2-d {kind} array")


def expect_cast(raw, z, to):
    """(values, missing, judged) of the converted array: judged where representable."""
    dt = np.dtype(to)
    with np.errstate(all="ignore"):
        if dt.kind in "iu":
            ii = np.iinfo(dt)
            lo, hi = (ii.min + 1, ii.max) if dt.kind == "i" else (ii.min, ii.max - 1)
            vals, judged = [], []
            for v, q in zip(raw.tolist(), z.tolist()):
                ok = not q and (not isinstance(v, float) or (np.isfinite(v) and abs(v) < 2**53)) and lo <= v <= hi
                vals.append(int(v) if ok else 0)
                judged.append(ok)
            return np.array(vals, dtype=dt), np.array(judged, bool)
        return raw.astype(dt), ~z


@case(n=160)
def convert(m, r):
    frm, to = r.pick(INTS + FLTS), r.pick(INTS + FLTS)
    n = size(r)
    A, z = make(r, n, frm)
    A = strided(r, A)
    raw = plain(A).copy()
    m.note(frm=frm, to=to, n=n)
    gen.dirty(r, n)
    B = m.call("astype", A.astype, to)
    m.check(plain(B).dtype == np.dtype(to), f"astype({to}) gave {B.dtype}")
    gz = gen.is_inv(plain(B))
    lost = z & ~gz
    m.check(not lost.any(), f"astype {frm}->{to}: missing value at {int(np.argmax(lost)) if lost.any() else 0} became {plain(B)[lost][:1]}")
    e, judged = expect_cast(raw, z, to)
    inv = judged & gz & ~gen.is_inv(e)
    m.check(not inv.any(), f"astype {frm}->{to}: value {raw[inv][:1]} became missing")
    m.same(plain(B)[judged], e[judged], f"astype {frm}->{to}: values")
    m.same(plain(A), raw, "astype changed its input")


@case(n=100)
def combine_types(m, r):
    """Missing values keep being missing when arrays of different types meet."""
    frm, to = r.pick(INTS + FLTS), r.pick(INTS + FLTS)
    n = size(r)
    A, za = make(r, n, frm)
    B, zb = make(r, n, to)
    op = r.pick(["hstack", "where", "where_scalar", "add_float", "mul_float", "sub_float", "setitem", "setmask"])
    m.note(frm=frm, to=to, op=op, n=n)
    if op == "hstack":
        C = m.call("hstack", rt.hstack, [A, B])
        z = np.concatenate([za, zb])
        g = gen.is_inv(plain(C))
        m.same(g, z, f"hstack({frm}, {to}): missing mask")
        with np.errstate(all="ignore"):
            both = np.concatenate([plain(A).astype("f8"), plain(B).astype("f8")])
        m.close(plain(C).astype("f8")[~z], both[~z], f"hstack({frm}, {to}): values", rtol=1e-6)
        return
    if op == "where":
        c = gen.bools(r, n)
        C = m.call("where", rt.where, rt.FastArray(c), A, B)
        z = np.where(c, za, zb)
        m.same(gen.is_inv(plain(C)), z, f"where(cond, {frm}, {to}): missing mask")
        with np.errstate(all="ignore"):
            e = np.where(c, plain(A).astype("f8"), plain(B).astype("f8"))
        m.close(plain(C).astype("f8")[~z], e[~z], f"where(cond, {frm}, {to}): values", rtol=1e-6)
        return
    if op == "where_scalar":
        c = gen.bools(r, n)
        C = m.call("where", rt.where, rt.FastArray(c), A, r.pick([1, 1.5, 0, 100]))
        z = np.where(c, za, False)
        m.same(gen.is_inv(plain(C)), z, f"where(cond, {frm}, scalar): missing mask")
        return
    if op.endswith("_float"):
        f = {"add": lambda x, y: x + y, "mul": lambda x, y: x * y, "sub": lambda x, y: x - y}[op[:3]]
        y = r.pick([1.5, rt.FastArray(np.full(n, 2.5)), rt.FastArray(np.full(n, 2.5, "f4"))])
        C = m.call(op, f, A, y)
        if plain(C).dtype.kind != "f":
            m.check(False, f"{frm} {op} is {C.dtype}")
        with np.errstate(all="ignore"):
            nanres = np.isnan(f(plain(A).astype("f8"), plain(y) if isinstance(y, np.ndarray) else y)) & ~za
        m.same(np.isnan(plain(C)), za | nanres, f"{frm} {op} {type(y).__name__}: missing mask")
        return
    # assignment of one type into another
    C = B.copy()
    if op == "setitem":
        k = r.int(0, n)
        m.call("setitem", C.__setitem__, slice(0, k), A[:k])
        sel = np.arange(n) < k
    else:
        sel = gen.bools(r, n)
        m.call("setitem", C.__setitem__, rt.FastArray(sel), A[rt.FastArray(sel)])
    _, judged = expect_cast(plain(A), za, to)
    g = gen.is_inv(plain(C))
    if sel.any():
        bad = sel & za & ~g
        m.check(not bad.any(), f"assigning {frm} into {to}: a missing value became {plain(C)[bad][:1]}", mech="setitem-missing")
        bad = sel & judged & g
        m.check(not bad.any(), f"assigning {frm} into {to}: a value became missing")
    m.same(g[~sel], zb[~sel], f"assigning {frm} into {to}: untouched rows")


@case(n=120)
def survive(m, r):
    """Selection, shifting, copying, stacking keep the missing mask and values."""
    kind = r.pick(KINDS)
    n = size(r)
    A, z = make(r, n, kind)
    raw = plain(A).copy()
    op = r.pick(["copy", "mask", "fancy", "fancy_invalid", "slice", "shift", "hstack", "copy_invalid", "fill_invalid", "reverse", "dataset", "repeat", "tile"])
    m.note(kind=kind, n=n, op=op)
    miss = None
    if op == "copy":
        B, idx = m.call("copy", A.copy), np.arange(n)
    elif op == "mask":
        c = gen.bools(r, n)
        B, idx = m.call("getitem", A.__getitem__, rt.FastArray(c)), np.flatnonzero(c)
    elif op == "fancy":
        idx = r.g.integers(0, max(n, 1), r.int(0, 40)) if n else np.zeros(0, int)
        B = m.call("getitem", A.__getitem__, rt.FastArray(idx.astype(r.pick(["i4", "i8"]))))
    elif op == "fancy_invalid":
        if not n:
            return
        idx = r.g.integers(0, n, r.int(1, 40)).astype(r.pick(["i2", "i4", "i8"]) if n < 30000 else "i8")
        miss = gen.bools(r, len(idx), .3)
        idx[miss] = gen.invalid(idx.dtype)
        B = m.call("getitem", A.__getitem__, rt.FastArray(idx))
        idx = np.where(miss, 0, idx)
    elif op == "slice":
        s = slice(r.int(0, max(n, 1)), r.int(0, max(n, 1)), r.pick([1, 2, -1, 3]))
        B, idx = m.call("getitem", A.__getitem__, s), np.arange(n)[s]
    elif op == "shift":
        k = r.int(-n - 2, n + 2)
        B = m.call("shift", A.shift, k)
        idx = np.arange(n) - k
        miss = (idx < 0) | (idx >= n)
        idx = np.where(miss, 0, idx)
    elif op == "hstack":
        B, idx = m.call("hstack", rt.hstack, [A, A, A[:1]]), np.concatenate([np.arange(n), np.arange(n), np.arange(n)[:1]])
    elif op == "reverse":
        B, idx = m.call("getitem", A.__getitem__, slice(None, None, -1)), np.arange(n)[::-1]
    elif op == "dataset":
        ds = rt.Dataset({"a": A})
        c = gen.bools(r, n)
        B, idx = m.call("Dataset.filter", ds.filter, rt.FastArray(c)).a, np.flatnonzero(c)
    elif op == "repeat":
        B, idx = m.call("repeat", A.repeat, 3), np.repeat(np.arange(n), 3)
        if kind in CLS:
            return
    elif op == "tile":
        B, idx = m.call("tile", rt.tile, A, 2), np.tile(np.arange(n), 2)
        if kind in CLS:
            return
    elif op == "copy_invalid":
        B, idx = m.call("copy_invalid", A.copy_invalid), np.zeros(n, int)
        miss = np.ones(n, bool)
    else:
        C = A.copy()
        if r.chance(.5):
            m.call("fill_invalid", C.fill_invalid, inplace=True)
            B = C
        else:
            k = r.int(0, 30)
            B = m.call("fill_invalid", C.fill_invalid, shape=k, inplace=False)
        miss = np.ones(len(B), bool)
        idx = np.zeros(len(B), int)
    if kind != "b":
        m.check(type(B) is type(A), f"{op} of {kind}: class {type(B).__name__} instead of {type(A).__name__}")
    m.check(len(B) == len(idx), f"{op} of {kind}: {len(B)} rows instead of {len(idx)}")
    if miss is None:
        miss = np.zeros(len(idx), bool)
    ez = miss | (z[idx] if n else miss)
    if kind != "b" and len(B):
        m.same(plain(m.call("isna", B.isna)), ez, f"{op} of {kind}: missing mask")
    if n:
        m.same(plain(B)[~miss], raw[idx][~miss], f"{op} of {kind}: values")
    m.same(plain(A), raw, f"{op} of {kind} changed its input")


def canon(a):
    """Either code for a missing date is as good as the other."""
    return np.where(a == np.iinfo(a.dtype).min, 0, a)


def filled(raw, z, how, limit, fill):
    out = raw.copy()
    n = len(raw)
    rng = range(n) if how == "f" else range(n - 1, -1, -1)
    last, have, cnt = fill, fill is not None, 0
    for i in rng:
        if z[i]:
            cnt += 1
            if have and (limit in (None, 0) or cnt <= limit):
                out[i] = last
        else:
            last, have, cnt = raw[i], True, 0
    return out


@case(n=120)
def fill(m, r):
    kind = r.pick(INTS + FLTS + ["S", "U", "date", "dtn", "span"])
    n = size(r)
    if n > 5000:
        n = 500
    A, z = make(r, n, kind)
    raw = plain(A).copy()
    how = r.pick(["replacena", "fillna", "ffill", "bfill", "pad", "backfill", "fill_forward", "fill_backward"])
    inplace = r.chance(.4)
    m.note(kind=kind, n=n, how=how, inplace=inplace)
    if how in ("replacena", "fillna"):
        v = {"S": "zz", "U": "zz", "date": 17000, "dtn": 1_500_000_000_123_456_789, "span": 5e9}.get(kind, 7)
        e = raw.copy()
        e[z] = v if kind not in "SU" else np.array([v], dtype=kind)[0]
        g = m.call(how, getattr(A, how), v, inplace=inplace)
    else:
        fwd = how in ("ffill", "pad", "fill_forward")
        limit = r.pick([None, None, 1, 2, 5])
        fv = r.pick([None, None, 7]) if kind not in ("S", "U") else None
        kw = dict(inplace=inplace, limit=limit)
        if how.startswith("fill_"):
            g, err = m.attempt(how, getattr(A, how), fv, **kw)
        else:
            g, err = m.attempt(how, A.fillna, fv, method=how, **kw)
        if err is not None:
            m.check(kind in ("S", "U"), f"{kind}.{how} refused: {err!r}"[:150])
            m.same(plain(A), raw, f"{kind}.{how} refused but changed its input")
            return
        e = filled(raw, z, "f" if fwd else "b", limit, fv)
    B = A if inplace else g
    if kind in ("date", "dtn"):
        e = canon(e)
        m.same(canon(plain(B)), e, f"{kind}.{how}")
    else:
        m.same(plain(B), e, f"{kind}.{how}")
    m.check(type(B) is type(A), f"{kind}.{how}: class {type(B).__name__}")
    if not inplace:
        m.same(plain(A), raw, f"{kind}.{how} changed its input")


@case(n=40)
def fill_dataset(m, r):
    n = r.int(1, 60)
    kinds = [r.pick(INTS + FLTS + ["date", "span"]) for _ in range(r.int(1, 4))]
    cols, zs = {}, {}
    for i, k in enumerate(kinds):
        cols[f"c{i}"], zs[f"c{i}"] = make(r, n, k)
    raw = {k: plain(v).copy() for k, v in cols.items()}
    ds = rt.Dataset({k: v.copy() for k, v in cols.items()})
    how = r.pick(["value", "ffill", "bfill"])
    inplace = r.chance(.4)
    limit = r.pick([None, 1, 3]) if how != "value" else None
    m.note(kinds=kinds, how=how, inplace=inplace, limit=limit)
    before = gen.snap(ds)
    g = m.call("Dataset.fillna", ds.fillna, 7 if how == "value" else None, method=None if how == "value" else how, inplace=inplace, limit=limit)
    out = ds if inplace else g
    if not inplace:
        m.check(gen.snap_diff(before, gen.snap(ds)) is None, "Dataset.fillna changed its input")
    m.check(list(out.keys()) == list(cols), f"Dataset.fillna: columns {list(out.keys())}")
    for k in cols:
        if how == "value":
            e = raw[k].copy(); e[zs[k]] = 7
        else:
            e = filled(raw[k], zs[k], how[0], limit, None)
        c = canon if kinds[int(k[1:])] == "date" else (lambda v: v)
        m.same(c(plain(out[k])), c(e), f"Dataset.fillna({how}) column {k} ({kinds[int(k[1:])]})")


@case(n=60)
def fill_grouped(m, r):
    n = r.int(1, 80)
    kind = r.pick(INTS + FLTS + ["span"])  # dates are left out by a grouped fill, with a warning
    A, z = make(r, n, kind)
    raw = plain(A).copy()
    g = r.g.integers(0, r.int(1, 5), n)
    c = rt.Cat(rt.FastArray(np.array([f"g{i}" for i in g])))
    how = r.pick(["fill_forward", "fill_backward"])
    limit = r.pick([0, 0, 1, 2])
    fv = r.pick([None, None, 7])
    m.note(kind=kind, how=how, limit=limit, n=n)
    out = m.call("Categorical." + how, getattr(c, how), A, limit=limit, fill_val=fv)
    got = plain(out["col_0"])
    e = raw.copy()
    for k in range(6):
        idx = np.flatnonzero(g == k)
        e[idx] = filled(raw[idx], z[idx], how[5], limit, fv)
    m.same(got, e, f"Categorical.{how}({kind}, limit={limit}, fill_val={fv})")
    m.same(plain(A), raw, f"Categorical.{how} changed its input")


@case(n=50)
def zero_and_num(m, r):
    kind = r.pick(INTS + FLTS)
    n = size(r)
    A, z = make(r, n, kind)
    raw = plain(A).copy()
    e = raw.copy(); e[z] = 0
    B = A.copy()
    g = m.call("nan_to_zero", rt.nan_to_zero, B)
    m.same(plain(g), e, f"nan_to_zero({kind})")
    if kind in FLTS:
        g = m.call("nan_to_num", rt.nan_to_num, A)
        m.same(plain(g), np.nan_to_num(raw), f"nan_to_num({kind})")
        m.same(plain(A), raw, "nan_to_num changed its input")


@case(n=60)
def skip_in_reductions(m, r):
    kind = r.pick(INTS + FLTS)
    n = max(1, size(r))
    A, z = make(r, n, kind, p=r.pick([.1, .5, 1.0]))
    A = strided(r, A)
    raw = plain(A)[~z]
    if raw.dtype.kind == "f":
        raw = raw[:]
        if np.isinf(raw).any():
            return
    m.note(kind=kind, n=n, valid=len(raw))
    s = m.call("nansum", A.nansum)
    e = np.sum(raw.astype("f8")) if kind in FLTS else sum(raw.tolist())
    if kind in FLTS:
        m.close(float(s), float(e), f"nansum({kind})", rtol=1e-4, atol=1e-2)
    elif sum(abs(x) for x in raw.tolist()) < 2**53:  # integer sums are accumulated in doubles
        m.check(int(s) == e, f"nansum({kind}) {s} != {e}")
    if len(raw) and (kind in FLTS or sum(abs(x) for x in raw.tolist()) < 2**62):
        m.check(float(m.call("nanmin", A.nanmin)) == float(raw.min()), f"nanmin({kind})")
        m.check(float(m.call("nanmax", A.nanmax)) == float(raw.max()), f"nanmax({kind})")
        m.close(float(m.call("nanmean", A.nanmean)), float(raw.astype("f8").mean()), f"nanmean({kind})", rtol=1e-4, atol=1e-3)
        if len(raw) > 1 and (n < 9000 or np.abs(raw.astype('f8')).max() < 1e6):
            v = float(raw.astype("f8").var(ddof=1))
            m.close(float(m.call("nanvar", A.nanvar)), v, f"nanvar({kind})", rtol=1e-3, atol=1e-3)


@case(n=40)
def dataset_masks(m, r):
    n = r.int(1, 60)
    kinds = [r.pick(INTS + FLTS + ["date", "dtn", "span"]) for _ in range(r.int(1, 4))]
    cols, zs = {}, []
    for i, k in enumerate(kinds):
        cols[f"c{i}"], z = make(r, n, k)
        zs.append(z)
    ds = rt.Dataset(dict(cols))
    if r.chance(.3):
        ds.s = rt.FastArray(np.array(["a"] * n))
    raw = [plain(v) for v in cols.values()]
    inf = [np.isinf(a) if a.dtype.kind == "f" else np.zeros(n, bool) for a in raw]
    fin = [~z & ~f for z, f in zip(zs, inf)]
    before = gen.snap(ds)
    for nm, ms, red in (("mask_or_isnan", zs, np.logical_or), ("mask_and_isnan", zs, np.logical_and), ("mask_or_isfinite", fin, np.logical_or),
                        ("mask_and_isfinite", fin, np.logical_and), ("mask_or_isinf", inf, np.logical_or), ("mask_and_isinf", inf, np.logical_and)):
        g = m.call(nm, getattr(ds, nm))
        m.same(plain(g), red.reduce(ms), f"Dataset.{nm} of {kinds}")
    m.check(gen.snap_diff(before, gen.snap(ds)) is None, "a mask function changed the Dataset")


@case(n=40)
def categorical_missing(m, r):
    n = r.int(1, 60)
    w = np.array([f"w{i}" for i in r.g.integers(0, 5, n)])
    inv = r.pick([None, "w1", "w2"])
    z = gen.bools(r, n, r.pick([0, .3]))
    kw = {}
    if inv is not None:
        kw["invalid"] = inv
    if z.any():
        kw["filter"] = rt.FastArray(~z)
    c = m.call("Categorical", rt.Cat, rt.FastArray(w), **kw)
    bad = (w == inv) & ~z if inv is not None else np.zeros(n, bool)
    m.note(inv=inv, filt=bool(z.any()))
    m.same(plain(c.isnan()), bad, "Categorical.isnan")
    m.same(plain(c.isnotnan()), ~bad, "Categorical.isnotnan")
    m.same(plain(c.isna()), bad, "Categorical.isna")
    m.same(plain(c.isfiltered()), z, "Categorical.isfiltered")
    d = m.call("copy_invalid", c.copy_invalid)
    m.check(len(d) == n, "Categorical.copy_invalid: length")
    lab = gen.decode(d)
    m.check(all(x is None for x in lab.tolist()), f"Categorical.copy_invalid holds {lab[:4]}")
