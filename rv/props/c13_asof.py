"""C13: as-of merges pick, for every left row, the nearest eligible right row of the same by-group, or nothing."""
import datetime
import logging
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from riptable.rt_merge_asof import merge_asof2
from rv import gen, gb

logging.disable(logging.WARNING)
BASE = 1_600_000_000_000_000_000


def times(r, n, kind, sort=True, span=None):
    """(array, integer-valued positions)"""
    span = span or r.pick([3, 10, 40, 4 * n + 4])
    t = r.g.integers(0, span, n)
    if sort:
        t = np.sort(t)
    return mk(t, kind), t


def mk(t, kind):
    if kind == "dtn":
        return rt.DateTimeNano((t * 1_000_000_000 + BASE).astype("i8"), from_tz="GMT", to_tz="NYC")
    if kind == "dtnu":
        return rt.DateTimeNano((t * 1_000 + BASE).astype("i8"), from_tz="GMT", to_tz="NYC")
    if kind == "date":
        return rt.Date((t + 18000).astype("i4"))
    if kind == "f8h":
        return rt.FastArray(t / 4)
    return rt.FastArray(t.astype(kind))


def bycol(r, n, kind, card):
    ix = r.g.integers(0, card, n)
    if kind == "S":
        a = rt.FastArray(np.array([f"s{v}" for v in ix.tolist()], dtype="S") if n else np.array([], dtype="S2"))
    elif kind == "U":
        a = rt.FastArray(np.array([f"s{v}" for v in ix.tolist()], dtype="U") if n else np.array([], dtype="U2"), unicode=True)
    elif kind == "cat":
        a = rt.Cat(np.array([f"s{v}" for v in ix.tolist()], dtype="S") if n else np.array([], dtype="S2"))
    elif kind == "date":
        a = rt.Date((ix + 17000).astype("i4"))
    else:
        a = rt.FastArray(ix.astype(kind))
    return a, ix


def eligible(lt, rtm, lb, rb, direction, exact, tol):
    """Expected right row for each left row: latest not after / earliest not before / nearest (ties: the earlier one)."""
    groups = {}
    for j, (b, t) in enumerate(zip(rb, rtm)):
        groups.setdefault(b, []).append((t, j))
    for g in groups.values():
        g.sort()
    out = []
    for b, t in zip(lb, lt):
        g = groups.get(b, [])
        bk = fw = None
        for (s, j) in g:
            if s < t or (exact and s == t):
                bk = (s, j)
        for (s, j) in reversed(g):
            if s > t or (exact and s == t):
                fw = (s, j)
        if tol is not None:
            if bk is not None and t - bk[0] > tol:
                bk = None
            if fw is not None and fw[0] - t > tol:
                fw = None
        if direction == "backward":
            c = bk
        elif direction == "forward":
            c = fw
        else:
            c = bk if fw is None or (bk is not None and t - bk[0] <= fw[0] - t) else fw
        out.append(c)
    return out


def missing(c, i):
    v = gen.txt(gen.decode(c)[i])
    if isinstance(c, rt.Categorical):
        return v is None
    if isinstance(v, str):
        return v == ""
    if plain(c).dtype.kind == "b":
        return not v
    if isinstance(c, rt.Date) and v == rt.Date.NAN_DATE:
        return True
    if isinstance(c, rt.DateTimeNano) and v == rt.DateTimeNano.NAN_TIME:
        return True
    return bool(gen.is_inv(plain(c))[i])


def fetched(m, out, src, idx, what):
    m.check(type(out) is type(src), f"{what}: class {type(out).__name__} instead of {type(src).__name__}")
    d, s = gen.decode(out).tolist(), gen.decode(src).tolist()
    for j, i in enumerate(idx):
        if i is None:
            if not missing(out, j):
                m.check(False, f"{what}: row {j} has no match but holds {d[j]!r}")
        else:
            a, b = gen.txt(d[j]), gen.txt(s[i])
            if not (a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)):
                m.check(False, f"{what}: row {j} holds {a!r}, the matching row {i} holds {b!r}")
    m.oracles += 1


def judge(m, out, left, right, lt, rtm, exp, what, common, on_l, on_r, matched=None, cl=None, cr=None):
    n = len(exp)
    cl = list(left.keys()) if cl is None else cl
    cr = list(right.keys()) if cr is None else cr
    cols = set(common) | set(cl) | set(cr) | ({matched} if matched else set())
    m.check(set(out.keys()) == cols, f"{what}: columns", got=sorted(out.keys()), exp=sorted(cols))
    for c in set(cl) | set(common):
        gen.same_col(m, out[c], left[c], f"{what}: left column {c}")
    rid = [None if z else int(v) for v, z in zip(plain(out.rid).tolist(), gen.is_inv(plain(out.rid)).tolist())]
    m.check(len(rid) == n, f"{what}: {len(rid)} rows for {n} left rows")
    for i, (g, e) in enumerate(zip(rid, exp)):
        ej = None if e is None else e[1]
        if g == ej:
            continue
        m.check(False, f"{what}: left row {i} (time {lt[i]}) matched right row {g} (time {None if g is None else rtm[g]}) instead of {ej} (time {None if e is None else e[0]})")
    m.oracles += 1
    for c in cr:
        if c not in common:
            fetched(m, out[c], right[c], rid, f"{what}[{c}]")
    if matched:
        fetched(m, out[matched], right[on_r], rid, f"{what}: matched_on")


def setup(r, kinds_on, kinds_by, sort_l=True, sort_r=True, extra=True, kby=None):
    nl = r.pick([1, 2, r.int(3, 40), r.int(3, 40), r.int(41, 300)], p=[.08, .1, .45, .2, .17])
    nr = r.pick([1, 2, r.int(3, 40), r.int(3, 40), r.int(41, 300)], p=[.08, .1, .45, .2, .17])
    on = r.pick(kinds_on)
    span = r.pick([3, 10, 40, 120])
    L, lt = times(r, nl, on, sort_l, span)
    R, rtm = times(r, nr, on, sort_r, span)
    kby = r.pick([0, 1, 1, 1, 2]) if kby is None else kby
    lb, rb, lbi, rbi, kb = [], [], [], [], []
    for _ in range(kby):
        k = r.pick(kinds_by)
        card = r.pick([1, 2, 4, 10])
        a, ai = bycol(r, nl, k, card)
        b, bi = bycol(r, nr, k, card + r.int(0, 1))
        lb.append(a); rb.append(b); lbi.append(ai.tolist()); rbi.append(bi.tolist()); kb.append(k)
    lbt = list(zip(*lbi)) if kby else [()] * nl
    rbt = list(zip(*rbi)) if kby else [()] * nr
    on_l, on_r = "t", r.pick(["t", "u"])
    bn_l = [f"b{i}" for i in range(kby)]
    bn_r = [f"b{i}" if r.chance(0.7) else f"c{i}" for i in range(kby)]
    lc = [(on_l, L)] + list(zip(bn_l, lb)) + [("lid", rt.FastArray(np.arange(nl)))]
    rc = [(on_r, R)] + list(zip(bn_r, rb)) + [("rid", rt.FastArray(np.arange(nr)))]
    if extra:
        lc += [(f"x{i}", gen.column(r, nl)) for i in range(r.int(0, 2))]
        rc += [(f"y{i}", gen.column(r, nr)) for i in range(r.int(0, 2))]
    left, right = rt.Dataset(dict(r.perm(lc))), rt.Dataset(dict(r.perm(rc)))
    return left, right, lt.tolist(), rtm.tolist(), lbt, rbt, on_l, on_r, bn_l, bn_r, on, kb


def args(r, on_l, on_r, bl, br):
    kw = {}
    if r.chance():
        kw["on"] = on_l if on_l == on_r and r.chance(0.7) else (on_l, on_r)
    else:
        kw.update(left_on=on_l, right_on=on_r)
    if bl:
        if r.chance():
            lst = [a if a == b else (a, b) for a, b in zip(bl, br)]
            kw["by"] = lst[0] if len(lst) == 1 and r.chance() else lst
        else:
            kw.update(left_by=bl if len(bl) > 1 or r.chance() else bl[0], right_by=br if len(br) > 1 or r.chance() else br[0])
    return kw


@case(n=420)
def asof(m, r):
    """rt.merge_asof, sorted and unsorted inputs."""
    sl, sr = r.chance(0.7), r.chance(0.7)
    left, right, lt, rtm, lb, rb, on_l, on_r, bl, br, on, kb = setup(r, ["i4", "i8", "i8", "f8", "f4", "f8h", "dtn", "date", "u4", "u8"], ["S", "U", "cat", "i4", "i8", "date"], sl, sr)
    direction = r.pick(["backward", "forward", "nearest"])
    exact = r.chance(0.65)
    kw = args(r, on_l, on_r, bl, br)
    matched = None
    if r.chance(0.4):
        kw["matched_on"] = r.pick([True, "hit"])
        matched = "matched_on" if kw["matched_on"] is True else "hit"
    if r.chance(0.2):
        kw["copy"] = False
    cl = cr = None
    if r.chance(0.2):
        cl = kw["columns_left"] = ["lid"] + [c for c in left.keys() if c != "lid" and r.chance()]
    if r.chance(0.2):
        cr = kw["columns_right"] = ["rid"] + [c for c in right.keys() if c != "rid" and r.chance()]
    m.note(on=on, by=kb, lt=lt[:50], rt=rtm[:50], lb=lb[:50], rb=rb[:50], direction=direction, exact=exact, kw=kw)
    b = [gen.snap(left), gen.snap(right)]
    fn = r.pick(["fn", "method"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = (lambda **k: rt.merge_asof(left, right, **k)) if fn == "fn" else (lambda **k: left.merge_asof(right, **k))
        out = m.call(f"merge_asof[{direction}]", f, direction=direction, allow_exact_matches=exact, **kw)
    exp = eligible(lt, rtm, lb, rb, direction, exact, None)
    common = [c for c in [on_l] + bl if c in [on_r] + br]
    judge(m, out, left, right, lt, rtm, exp, f"merge_asof[{direction}{'' if exact else ', strict'}]", common, on_l, on_r, matched, cl, cr)
    d = gen.snap_diff(b, [gen.snap(left), gen.snap(right)])
    m.check(d is None, "merge_asof changed an input", diff=d)
    m.check(all(left[c].flags.writeable for c in left.keys()), "merge_asof made an input column read-only")
    uns = not (lt == sorted(lt) and rtm == sorted(rtm))
    if uns:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.raises("merge_asof[raise]", f, direction=direction, action_on_unsorted="raise", exc=ValueError, **kw)


@case(n=130)
def asof2(m, r):
    """rt.merge_asof2 (compiled separately), incl. tolerance; sorted within each by-group is enough."""
    left, right, lt, rtm, lb, rb, on_l, on_r, bl, br, on, kb = setup(r, ["i8", "f8h"], ["S", "cat", "i8"])
    direction = r.pick(["backward", "forward", "nearest"])
    exact = r.chance(0.6)
    kw = args(r, on_l, on_r, bl, br)
    tol = None
    if r.chance(0.5):
        tol = r.pick([0, 1, 3, 8])
        kw["tolerance"] = float(tol) / 4 if on == "f8h" else tol
    matched = None
    if r.chance(0.3):
        kw["matched_on"] = True
        matched = "matched_on"
    if r.chance(0.2):
        kw["copy"] = False
    m.note(on=on, by=kb, lt=lt[:50], rt=rtm[:50], lb=lb[:50], rb=rb[:50], direction=direction, exact=exact, kw=kw)
    b = [gen.snap(left), gen.snap(right)]
    gen.dirty(r, len(lt))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = m.call(f"merge_asof2[{direction}]", merge_asof2, left, right, direction=direction, allow_exact_matches=exact, **kw)
    exp = eligible(lt, rtm, lb, rb, direction, exact, tol)
    common = [c for c in [on_l] + bl if c in [on_r] + br]
    judge(m, out, left, right, lt, rtm, exp, f"merge_asof2[{direction}{'' if exact else ', strict'}{', tolerance' if tol is not None else ''}]", common, on_l, on_r, matched)
    d = gen.snap_diff(b, [gen.snap(left), gen.snap(right)])
    m.check(d is None, "merge_asof2 changed an input", diff=d)


@case(n=60)
def asof2_time(m, r):
    """merge_asof2 on times, with tolerances given as durations."""
    left, right, lt, rtm, lb, rb, on_l, on_r, bl, br, on, kb = setup(r, ["dtnu", "dtn"], ["S", "cat", "i8"])
    direction = r.pick(["backward", "forward", "nearest"])
    exact = r.chance(0.6)
    kw = args(r, on_l, on_r, bl, br)
    tol = None
    if r.chance(0.5):
        tol = r.pick([0, 1, 3, 8])
        us = tol * (1 if on == "dtnu" else 1_000_000)
        kw["tolerance"] = r.pick([datetime.timedelta(microseconds=us), rt.TimeSpan(np.array([us * 1000.0]))[0]])
    matched = None
    if r.chance(0.3):
        kw["matched_on"] = True
        matched = "matched_on"
    if r.chance(0.2):
        kw["copy"] = False
    m.note(on=on, by=kb, lt=lt[:50], rt=rtm[:50], lb=lb[:50], rb=rb[:50], direction=direction, exact=exact, kw=kw)
    b = [gen.snap(left), gen.snap(right)]
    gen.dirty(r, len(lt))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = m.call(f"merge_asof2[{direction}]", merge_asof2, left, right, direction=direction, allow_exact_matches=exact, **kw)
    exp = eligible(lt, rtm, lb, rb, direction, exact, tol)
    common = [c for c in [on_l] + bl if c in [on_r] + br]
    judge(m, out, left, right, lt, rtm, exp, f"merge_asof2[{direction}{'' if exact else ', strict'}{', tolerance' if tol is not None else ''}]", common, on_l, on_r, matched)
    d = gen.snap_diff(b, [gen.snap(left), gen.snap(right)])
    m.check(d is None, "merge_asof2 changed an input", diff=d)


@case(n=160)
def alignmk(m, r):
    """The core routine used directly."""
    left, right, lt, rtm, lb, rb, on_l, on_r, bl, br, on, kb = setup(r, ["i4", "i8", "f8", "f4"], ["S", "U", "i4", "i8", "f8"], extra=False, kby=r.pick([1, 1, 2]))
    direction = r.pick(["backward", "forward"])
    exact = r.chance(0.65)
    m.note(on=on, by=kb, lt=lt[:50], rt=rtm[:50], lb=lb[:50], rb=rb[:50], direction=direction, exact=exact)
    k1 = left[bl[0]] if len(bl) == 1 else tuple(left[c] for c in bl)
    k2 = right[br[0]] if len(br) == 1 else tuple(right[c] for c in br)
    got = m.call("alignmk", rt.alignmk, k1, k2, left[on_l], right[on_r], direction=direction, allow_exact_matches=exact)
    g = [None if z else int(v) for v, z in zip(plain(got).tolist(), gen.is_inv(plain(got)).tolist())]
    exp = [None if e is None else e[1] for e in eligible(lt, rtm, lb, rb, direction, exact, None)]
    m.check(g == exp, f"alignmk[{direction}]", got=g[:50], exp=exp[:50])


@case(n=8, thorough=5)
def large(m, r):
    nl, nr = r.pick([(60000, 40000), (300, 90000), (90000, 200), (40000, 40000)])
    syms = r.pick([1, 50, 5000])
    lt, rtm = np.sort(r.g.integers(0, 10**6, nl)), np.sort(r.g.integers(0, 10**6, nr))
    lb, rb = r.g.integers(0, syms, nl), r.g.integers(0, syms, nr)
    left, right = rt.Dataset({"t": lt, "s": lb, "lid": np.arange(nl)}), rt.Dataset({"t": rtm, "s": rb, "rid": np.arange(nr)})
    direction = r.pick(["backward", "forward"])
    m.note(nl=nl, nr=nr, syms=syms, direction=direction)
    out = m.call("merge_asof[large]", rt.merge_asof, left, right, on="t", by="s", direction=direction)
    exp = np.full(nl, np.iinfo("i8").min)
    for s in np.unique(lb):
        rows, cand = np.flatnonzero(lb == s), np.flatnonzero(rb == s)
        if direction == "backward":
            p = np.searchsorted(rtm[cand], lt[rows], side="right") - 1
            ok = p >= 0
        else:
            p = np.searchsorted(rtm[cand], lt[rows], side="left")
            ok = p < len(cand)
        exp[rows[ok]] = cand[p[ok]]
    m.same(plain(out.rid), exp, f"merge_asof[{direction}] large")
