"""C22: date and time arithmetic is exact and yields the right kind of result."""
import datetime as D
import logging
import operator
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
DAY = 86400 * 10**9
I64, I32 = np.iinfo(np.int64).min, np.iinfo(np.int32).min
CLS = {"D": rt.Date, "N": rt.DateTimeNano, "T": rt.TimeSpan, "S": rt.DateSpan}
UNIT = {"D": DAY, "S": DAY, "N": 1, "T": 1}            # nanoseconds per unit of the stored number

# what each pair of classes gives, if it means anything
ADD = {"DS": "D", "SD": "D", "DT": "N", "TD": "N", "NT": "N", "TN": "N", "NS": "N", "SN": "N", "TT": "T", "SS": "S", "ST": "T", "TS": "T"}
SUB = {"DD": "S", "DS": "D", "DT": "N", "NN": "T", "NT": "N", "NS": "N", "DN": "T", "ND": "T", "TT": "T", "SS": "S", "ST": "T", "TS": "T"}
REJECT_ADD = ["DD", "NN", "DN", "ND"]
REJECT_SUB = ["SD", "SN", "TN"]
CMP = ["DD", "NN", "TT", "SS", "DN", "ND", "TS", "ST"]
REJECT_CMP = ["DS", "DT", "NT", "NS", "SD", "SN", "TD", "TN"]


def size(r):
    return r.pick([1, 2, r.int(3, 12), r.int(12, 80), 3000], p=[.2, .15, .4, .24, .01])


def values(r, k, n, inv=.15, small=False):
    """numbers of the class's own unit; None for missing"""
    if k == "D":
        v = r.g.integers(800, 20000, n)
        if small:
            v = r.g.integers(5000, 5004, n)
    elif k == "S":
        v = r.g.integers(-300, 300, n)
    elif k == "N":
        v = r.g.integers(800 * DAY, 20000 * DAY, n)
        if small:
            v = 5000 * DAY + r.g.integers(-2, 3, n) * r.pick([1, DAY // 2, DAY])
    else:
        v = r.g.integers(-2**52, 2**52, n) if not small else r.g.integers(-3, 4, n) * DAY
    out = [int(x) for x in v]
    if inv and r.chance(.6):
        out = [None if r.chance(inv) else x for x in out]
    return out


def make(r, k, vals, tz="UTC"):
    if k == "D":
        raw = np.array([r.pick([0, I32]) if v is None else v for v in vals], np.int32)
        return rt.Date(raw)
    if k == "S":
        return rt.DateSpan(np.array([I32 if v is None else v for v in vals], np.int32))
    if k == "N":
        return rt.DateTimeNano(np.array([r.pick([0, I64]) if v is None else v for v in vals], np.int64), from_tz="UTC", to_tz=tz)
    return rt.TimeSpan(np.array([np.nan if v is None else v for v in vals], np.float64))


def lay(r, a):
    if len(a) and r.chance(.2):
        return rt.hstack([a, a])[np.repeat(np.arange(len(a)), 2)][::2]
    return a


def back(a):
    """stored numbers of a date/time array or scalar; None for missing"""
    if isinstance(a, np.ndarray):
        miss = plain(a.isnan())
        return [None if b else (int(x) if x == x and float(x).is_integer() else float(x)) for x, b in zip(plain(a).tolist(), miss.tolist())]
    x = a.item() if hasattr(a, "item") else a
    if isinstance(a, (rt.rt_datetime.DateScalar, rt.rt_datetime.DateTimeNanoScalar)) and x in (0, I64, I32):
        return [None]
    if x != x or x in (I64, I32):
        return [None]
    return [int(x)]


def close(g, e, unit):
    """the stored number of a span of years has 53 bits"""
    if g is None or e is None:
        return g is e
    return g == e or (unit == "T" and abs(g - e) <= abs(e) * 2.3e-16 + 0.)


def operands(m, r, pair, small=False, same_tz=True):
    n = size(r)
    form = r.pick(["aa", "a1", "1a", "as"], p=[.55, .15, .1, .2])
    nl = 1 if form[0] in "1s" else n
    nr = 1 if form[1] in "1s" else n
    lv, rv = values(r, pair[0], nl, small=small), values(r, pair[1], nr, small=small)
    tz = r.pick(gen.TZS) if "D" not in pair else "UTC"
    a, b = lay(r, make(r, pair[0], lv, tz)), lay(r, make(r, pair[1], rv, tz))
    if form[0] == "s":
        a = a[0]
    if form[1] == "s":
        b = b[0]
    N = max(nl, nr)
    m.note(pair=pair, form=form, n=n, tz=tz, left=lv[:5], right=rv[:5])
    return a, b, lv * (N // nl), rv * (N // nr), form, tz


def kind(res):
    for k, c in CLS.items():
        if isinstance(res, c):
            return k
    return {"DateScalar": "D", "DateSpanScalar": "S", "DateTimeNanoScalar": "N", "TimeSpanScalar": "T"}.get(type(res).__name__)


def combine(op, res, pair, x, y):
    if x is None or y is None:
        return None
    v = op(x * UNIT[pair[0]], y * UNIT[pair[1]])
    return v // UNIT[res]


@case(n=700)
def addsub(m, r):
    op, table = r.pick([(operator.add, ADD), (operator.sub, SUB)])
    pair = r.pick(sorted(table))
    a, b, lv, rv, form, tz = operands(m, r, pair)
    if isinstance(a, (rt.rt_datetime.DateScalar, rt.rt_datetime.DateSpanScalar)):
        a = CLS[pair[0]]([int(a)])                      # a plain integer as far as operators go
    if isinstance(b, (rt.rt_datetime.DateScalar, rt.rt_datetime.DateSpanScalar)) and r.chance(.5):
        b = CLS[pair[1]]([int(b)])
    s0 = [gen.snap(x) for x in (a, b) if isinstance(x, np.ndarray)]
    nm = f"{'+' if op is operator.add else '-'} {pair} {form}"
    res = m.call(nm, op, a, b)
    k = table[pair]
    m.check(kind(res) == k, f"class of {nm}", got=type(res).__name__, expected=CLS[k].__name__)
    exp = [combine(op, k, pair, x, y) for x, y in zip(lv, rv)]
    got = back(res)
    m.check(len(got) == len(exp), f"rows of {nm}", got=len(got), expected=len(exp))
    for i, (g, e) in enumerate(zip(got, exp)):
        m.check(close(g, e, k), f"{nm}", at=i, got=g, expected=e, left=lv[i], right=rv[i])
    if k == "N" and "N" in pair:
        m.check(res._timezone._to_tz in (tz, {"NYC": "America/New_York", "DUBLIN": "Europe/Dublin"}.get(tz)), f"time zone of {nm}", got=res._timezone._to_tz, expected=tz)
    for x, s in zip([x for x in (a, b) if isinstance(x, np.ndarray)], s0):
        m.check(not gen.snap_diff(s, gen.snap(x)), f"operands of {nm} untouched")


@case(n=150)
def inplace(m, r):
    nm, k, o, f = r.pick([("N += T", "N", "T", "iadd"), ("N -= T", "N", "T", "isub"), ("D += S", "D", "S", "iadd"), ("D -= S", "D", "S", "isub"),
                          ("S += S", "S", "S", "iadd"), ("S -= S", "S", "S", "isub"), ("N += S", "N", "S", "iadd")])
    n = size(r)
    lv, rv = values(r, k, n), values(r, o, n)
    a, b = make(r, k, lv, "NYC"), make(r, o, rv, "NYC")
    s = gen.snap(b)
    m.note(op=nm, n=n, left=lv[:5], right=rv[:5])
    res = m.call(nm, getattr(operator, f), a, b)
    op = operator.add if f == "iadd" else operator.sub
    m.check(kind(res) == k, "class of " + nm, got=type(res).__name__)
    exp = [combine(op, k, k + o, x, y) for x, y in zip(lv, rv)]
    got = back(res)
    for i in range(n):
        m.check(close(got[i], exp[i], k), nm, at=i, got=got[i], expected=exp[i], left=lv[i], right=rv[i])
    m.check(not gen.snap_diff(s, gen.snap(b)), f"right operand of {nm} untouched")


@case(n=300)
def numbers(m, r):
    """plain numbers count days for dates and nanoseconds for date-times"""
    k = r.pick(["D", "N", "S", "T"])
    n = size(r)
    lv = values(r, k, n)
    a = lay(r, make(r, k, lv, "GMT"))
    form = r.pick(["int", "array", "npint", "list"] if k != "T" else ["int", "array", "npint"])
    hi = 200 if k in "DS" else 10**12
    cnt = n if form in ("array", "list") else 1
    rv = [int(x) for x in r.g.integers(-hi, hi, cnt)]
    if k == "N" or k == "D":
        rv = [abs(x) for x in rv] if r.chance(.5) else rv
    dt = r.pick(["i8", "i4"] if k in "DS" else ["i8", "f8"])
    b = {"int": rv[0], "npint": np.int64(rv[0]), "array": rt.FastArray(np.array(rv, dtype=dt)), "list": rv}[form]
    if form == "list" and k in "DS":
        b = np.array(rv)
    miss = False
    if form == "array" and dt == "f8" and n > 1 and r.chance(.4) and k == "T":
        b = b.copy()
        b[0] = np.nan
        miss = True
    op = r.pick([operator.add, operator.sub])
    nm = f"{k} {'+' if op is operator.add else '-'} {form}"
    m.note(op=nm, n=n, left=lv[:5], right=rv[:5])
    res = m.call(nm, op, a, b)
    m.check(kind(res) == k, "class of " + nm, got=type(res).__name__)
    got = back(res)
    rr = rv * (n // len(rv))
    for i in range(n):
        e = None if lv[i] is None or (miss and i == 0) else op(lv[i], rr[i])
        m.check(close(got[i], e, k), nm, at=i, got=got[i], expected=e, left=lv[i], right=rr[i])
    if op is operator.add and form == "int":
        g2 = back(m.call("reflected " + nm, lambda: b + a))
        m.check(g2 == got, "number + array equals array + number", got=g2[:5], expected=got[:5])


@case(n=250)
def spans(m, r):
    """multiples, ratios, signs and units of spans"""
    n = size(r)
    lv = values(r, "T", n)
    a = lay(r, make(r, "T", lv))
    sc = r.chance(.25)
    if sc:
        a, lv, n = a[0], lv[:1], 1
    m.note(n=n, scalar=sc, left=lv[:5])
    k = r.pick(["mul", "rmul", "div", "ratio", "floor", "neg", "abs", "units", "hhmmss"])
    f = np.array([np.nan if v is None else v for v in lv], float)

    def vals(x):
        return np.atleast_1d(np.asarray(plain(x) if isinstance(x, np.ndarray) else x, dtype=float))
    if k in ("mul", "rmul", "div"):
        q = r.pick([2, 3, .5, 7.25, -1, rt.FastArray(r.g.integers(1, 9, n)), rt.FastArray(r.g.normal(1, .2, n))])
        if sc and isinstance(q, np.ndarray):
            q = 3
        res = m.call("span " + k, {"mul": lambda: a * q, "rmul": lambda: q * a, "div": lambda: a / q}[k])
        m.check(kind(res) == "T", f"class of span {k}", got=type(res).__name__, by=str(type(q)))
        qq = np.asarray(q, float)
        m.close(vals(res), f / qq if k == "div" else f * qq, f"span {k}", rtol=1e-14)
    elif k in ("ratio", "floor"):
        bv = values(r, "T", n, inv=.1)
        bv = [None if v is None else (v or 1) for v in bv]
        b = make(r, "T", bv)
        if sc:
            b = b[0]
        g = np.array([np.nan if v is None else v for v in bv], float)
        res = m.call("span " + k, (lambda: a / b) if k == "ratio" else (lambda: a // b))
        m.check(kind(res) is None, f"a ratio of spans is a number", got=type(res).__name__)
        with np.errstate(all="ignore"):
            m.close(vals(res), f / g if k == "ratio" else np.floor_divide(f, g), f"span {k}", rtol=1e-14)
    elif k in ("neg", "abs"):
        res = m.call("span " + k, (lambda: -a) if k == "neg" else r.pick([lambda: abs(a), lambda: a.abs()]))
        m.check(kind(res) == "T", f"class of span {k}", got=type(res).__name__)
        m.close(vals(res), -f if k == "neg" else np.abs(f), f"span {k}", rtol=0)
    elif k == "units":
        for u, d in (("days", DAY), ("hours", DAY / 24), ("minutes", 6e10), ("seconds", 1e9), ("milliseconds", 1e6), ("microseconds", 1e3), ("nanoseconds", 1)):
            m.close(vals(m.call(u, getattr, a, u)), f / d, u, rtol=1e-15)
        u, d = r.pick([("D", DAY), ("h", DAY // 24), ("m", 60 * 10**9), ("s", 10**9), ("ms", 10**6), ("us", 1000), ("ns", 1), ("W", 7 * DAY)])
        q = r.g.integers(-1000, 1000, 5)
        src = r.pick([q, q.astype("f8"), q.astype("i4"), q.tolist(), rt.FastArray(q)])
        res = m.call("TimeSpan(unit)", lambda: rt.TimeSpan(src, u))
        m.close(plain(res), q * float(d), f"TimeSpan in {u}", rtol=1e-15)
        w = m.call("DateSpan(unit)", lambda: rt.DateSpan(q.astype(r.pick(["i4", "i8"])), unit=r.pick(["W", "w"])))
        m.same(plain(w).astype("i8"), q * 7, "DateSpan in weeks")
        w = m.call("DateSpan()", lambda: rt.DateSpan(q.tolist()))
        m.same(plain(w).astype("i8"), q, "DateSpan in days")
    else:
        lv = [v % DAY if v is not None else 0 for v in lv]
        a = make(r, "T", lv)
        res = m.call("hhmmss", lambda: a.hhmmss)
        e = [(v // (3600 * 10**9)) * 10000 + (v // (60 * 10**9) % 60) * 100 + v // 10**9 % 60 for v in lv]
        m.same(plain(res).astype("i8"), np.array(e, "i8"), "hhmmss")
        f = r.pick(["%H:%M:%S", "%H:%M", "%S.%f"])
        if "%f" not in f:
            t = m.call("strftime", lambda: a.strftime(f))
            ok = [(v % 10**9) < 999_999_000 for v in lv]
            for i in range(len(lv)):
                e = (D.datetime(1970, 1, 1) + D.timedelta(seconds=lv[i] // 10**9)).strftime(f)
                m.check(not ok[i] or str(t[i]) == e, "TimeSpan.strftime", got=str(t[i]), expected=e)
        # from text
        txt = [f"{v // (3600 * 10**9):02d}:{v // (60 * 10**9) % 60:02d}:{v // 10**9 % 60:02d}.{v % 10**9:09d}" for v in lv]
        b = m.call("TimeSpan(text)", lambda: rt.TimeSpan(np.array(txt, dtype=r.pick(["S", "U"]))))
        m.same(plain(b), np.array(lv, float), "TimeSpan from text")


OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


@case(n=400)
def compare(m, r):
    pair = r.pick(CMP)
    a, b, lv, rv, form, tz = operands(m, r, pair, small=True)
    if form[0] == "s":
        a, form = CLS[pair[0]].newclassfrominstance(np.array([a]).view(rt.FastArray), make(r, pair[0], lv[:1], tz)), "1" + form[1]
    if isinstance(b, (rt.rt_datetime.DateScalar, rt.rt_datetime.DateSpanScalar)):
        b, form = CLS[pair[1]]([int(b)]), form[0] + "1"
    for o in r.perm(list(OPS))[:3]:
        nm = f"{pair} {o} {form}"
        res = m.call(nm, OPS[o], a, b)
        m.check(np.asarray(res).dtype == bool, f"{nm} is boolean", got=str(np.asarray(res).dtype))
        res = np.atleast_1d(plain(res) if isinstance(res, np.ndarray) else res).tolist()
        m.check(len(res) == len(lv), f"rows of {nm}", got=len(res), expected=len(lv))
        for i in range(len(lv)):
            x, y = lv[i], rv[i]
            if x is None or y is None:
                e = o == "!="
            else:
                e = OPS[o](x * UNIT[pair[0]], y * UNIT[pair[1]])
            m.check(res[i] == e, nm, at=i, got=res[i], expected=e, left=x, right=y)
    if pair[0] == "D" and r.chance(.5):
        d0 = D.date(1970, 1, 1) + D.timedelta(days=5001)
        t = r.pick([f"{d0:%Y-%m-%d}", f"{d0:%Y%m%d}"])
        o = r.pick(list(OPS))
        res = plain(m.call("Date compared with text", OPS[o], a, r.pick([t, t.encode()]))).tolist()
        n = len(res)
        for i in range(n):
            e = o == "!=" if lv[i] is None else OPS[o](lv[i], 5001)
            m.check(res[i] == e, f"Date {o} text", got=res[i], expected=e, left=lv[i])


@case(n=120)
def rejected(m, r):
    """combinations that mean nothing"""
    what = r.pick(["add", "sub", "cmp", "mul"])
    if what == "add":
        pair, op = r.pick(REJECT_ADD), operator.add
    elif what == "sub":
        pair, op = r.pick(REJECT_SUB), operator.sub
    elif what == "cmp":
        pair, op = r.pick(REJECT_CMP), OPS[r.pick(list(OPS))]
    else:
        pair, op = r.pick(["DD", "NN", "TT", "NT", "TN", "DT"]), operator.mul
    n = size(r)
    a, b = make(r, pair[0], values(r, pair[0], n)), make(r, pair[1], values(r, pair[1], n))
    m.note(pair=pair, what=what, n=n)
    res, ex = m.attempt(f"{what} {pair}", lambda: op(a, b))
    m.check(ex is not None, f"{what} of {pair} is refused", got=type(res).__name__)


@case(n=300)
def series(m, r):
    """differences, extremes, shifts and rounding along an array"""
    k = r.pick(["D", "N", "T", "S"])
    n = size(r)
    lv = values(r, k, n)
    a = lay(r, make(r, k, lv, "NYC"))
    m.note(kind=k, n=n, left=lv[:6])
    what = r.pick(["diff", "minmax", "nanminmax", "shift", "resample", "sortorder"])
    if what == "diff":
        p = r.pick([1, 1, 2, -1, 3])
        res = m.call("diff", lambda: a.diff(p))
        m.check(kind(res) == {"D": "S", "N": "T", "T": "T", "S": "S"}[k], "class of diff", got=type(res).__name__, of=k)
        got = back(res)
        for i in range(n):
            j = i - p
            e = None if not 0 <= j < n or lv[i] is None or lv[j] is None else lv[i] - lv[j]
            m.check(close(got[i], e, "T" if k in "NT" else "S"), f"diff of {CLS[k].__name__}", at=i, got=got[i], expected=e, periods=p)
    elif what in ("minmax", "nanminmax"):
        ok = [v for v in lv if v is not None]
        if what == "minmax" and len(ok) != n:
            return
        if not ok:
            return
        pre = "nan" if what == "nanminmax" else ""
        for f, e in (("min", min(ok)), ("max", max(ok))):
            res = m.call(pre + f, lambda: getattr(a, pre + f)())
            m.check(kind(res) == k, f"class of {pre}{f}", got=type(res).__name__, of=k)
            m.check(back(res) == [e], f"{pre}{f} of {CLS[k].__name__}", got=back(res), expected=[e])
    elif what == "shift":
        p = r.pick([1, -1, 2, 5])
        res = m.call("shift", lambda: a.shift(p))
        m.check(kind(res) == k, "class of shift", got=type(res).__name__)
        e = [lv[i - p] if 0 <= i - p < n else None for i in range(n)]
        m.check(back(res) == e, f"shift of {CLS[k].__name__}", got=back(res)[:6], expected=e[:6])
    elif what == "resample":
        if k != "N":
            return
        u, q = r.pick([("H", 3600 * 10**9), ("T", 60 * 10**9), ("min", 60 * 10**9), ("S", 10**9), ("ms", 10**6), ("L", 10**6)])
        c = r.pick([1, 2, 5, 7, 15])
        rule = f"{c}{u}" if c > 1 or r.chance(.5) else u
        step = c * q
        res = m.call("resample(dropna)", lambda: a.resample(rule, dropna=True))
        e = [None if v is None else v - v % step for v in lv]
        m.check(back(res) == e, "resample(dropna)", got=back(res)[:5], expected=e[:5], rule=rule)
        base = 5000 * DAY + int(r.g.integers(0, DAY))
        lv2 = [base + int(x) for x in r.g.integers(0, step * 40, max(1, n % 50))]
        b = make(r, "N", lv2, "NYC")
        res = m.call("resample", lambda: b.resample(rule))
        e = list(range(min(lv2) - min(lv2) % step, max(lv2) - max(lv2) % step + step, step))
        m.check(back(res) == e, "resample", got=[len(res)] + back(res)[:3], expected=[len(e)] + e[:3], rule=rule)
        m.check(res._timezone._to_tz == b._timezone._to_tz, "resample keeps the zone")
    else:
        res = m.call("sort", lambda: a.copy() if n == 0 else rt.sort(a))
        got = [v for v in plain(res).tolist() if v == v and v not in (I64, I32) and (v != 0 or k in "TS")]
        m.check(got == sorted(v for v in lv if v is not None), f"sorted {CLS[k].__name__}", got=got[:6])
