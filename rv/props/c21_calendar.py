"""C21: dates, times and time zones agree with the civil calendar."""
import datetime as D
import logging
import warnings
import zoneinfo
from functools import lru_cache
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
ALIAS = {"NYC": "America/New_York", "DUBLIN": "Europe/Dublin", "Sydney": "Australia/Sydney", "Hongkong": "Asia/Hong_Kong",
         "Tokyo": "Asia/Tokyo", "Seoul": "Asia/Seoul", "US/Eastern": "America/New_York"}
ZONES = ["NYC", "DUBLIN", "Sydney", "Hongkong", "Tokyo", "Seoul", "US/Eastern", "America/New_York", "Europe/Dublin", "UTC", "GMT",
         "Australia/Sydney", "Asia/Hong_Kong", "Asia/Tokyo", "Asia/Seoul", "Asia/Kolkata"]
UTC = D.timezone.utc
NS = 10**9
DAY = 86400 * NS
I64 = np.iinfo(np.int64).min
I32 = np.iinfo(np.int32).min
# a year away from the ends of the tables, which start at 1970 and end in 2040
LO, HI = 365 * 86400, int(D.datetime(2038, 6, 1, tzinfo=UTC).timestamp())


@lru_cache(None)
def zone(name):
    n = ALIAS.get(name, name)
    return UTC if n in ("UTC", "GMT") else zoneinfo.ZoneInfo(n)


def offset(name, sec):
    return int(D.datetime.fromtimestamp(sec, zone(name)).utcoffset().total_seconds())


@lru_cache(None)
def transitions(name):
    """UTC seconds at which the zone's offset changes"""
    out = []
    step = 20 * 86400
    a = LO
    while a < HI:
        b = a + step
        if offset(name, a) != offset(name, b):
            x, y = a, b
            while y - x > 1:
                mid = (x + y) // 2
                if offset(name, mid) == offset(name, x):
                    x = mid
                else:
                    y = mid
            out.append(y)
        a = b
    return out


def instants(r, n, z, inv=.1):
    """UTC nanoseconds, many of them next to the places where calendars go wrong"""
    tr = transitions(z)
    out = np.empty(n, np.int64)
    for i in range(n):
        k = r.pick(["any", "any", "trans", "year", "month", "day", "leap", "near"])
        s = int(r.g.integers(LO, HI))
        sub = int(r.g.integers(0, NS)) if r.chance(.6) else 0
        if k == "trans" and tr:
            s = tr[r.int(0, len(tr) - 1)] + r.pick([0, 0, -1, 1, -3600, 3599, 3600, -7200, 1800, 86400])
            sub = r.pick([0, 0, 1, NS - 1])
        elif k in ("year", "month", "day", "leap"):
            d = D.datetime.fromtimestamp(s, UTC)
            if k == "year":
                d = D.datetime(d.year, 1, 1)
            elif k == "month":
                d = D.datetime(d.year, d.month, 1)
            elif k == "leap":
                d = D.datetime(d.year - d.year % 4 + 4 if d.year < 2035 else 2032, 2, r.pick([28, 29])) + D.timedelta(days=r.int(0, 2))
            else:
                d = D.datetime(d.year, d.month, d.day)
            s = int(d.replace(tzinfo=UTC).timestamp())
            if r.chance(.7):                              # that civil moment in the zone instead
                s -= offset(z, s)
            s += r.pick([0, 0, -1, 1, 3600, -3600])
            sub = r.pick([0, 0, 1, NS - 1])
        s = min(max(s, LO), HI)
        out[i] = s * NS + sub
    if n and inv and r.chance(.6):
        bad = r.g.random(n) < inv
        out[bad] = np.where(r.g.random(int(bad.sum())) < .5, 0, I64)
    return out


def local(z, v):
    """(naive local datetime at whole seconds, nanoseconds in the second, utc offset seconds, is dst)"""
    s, sub = divmod(int(v), NS)
    d = D.datetime.fromtimestamp(s, zone(z))
    return d.replace(tzinfo=None), sub, int(d.utcoffset().total_seconds())


def size(r):
    return r.pick([0, 1, 2, r.int(3, 12), r.int(12, 60)], p=[.04, .16, .1, .4, .3])


def make(r, z, vals):
    """DateTimeNano holding these UTC instants, displayed in zone z, in some layout"""
    if len(vals) and r.chance(.2):
        return rt.DateTimeNano(np.repeat(vals, 2), from_tz="UTC", to_tz=z)[::2]
    if r.chance(.3) and not ((vals == 0) | (vals == I64)).any():
        # the same instants arriving as wall clock readings in another zone
        z0 = r.pick(ZONES)
        loc = np.array([wall(*local(z0, v)[:2]) for v in vals.tolist()], np.int64)
        a = rt.DateTimeNano(loc, from_tz=z0, to_tz=z)
        if len(vals) == 0 or (plain(a) == vals).all():            # not so for the second reading of an ambiguous hour
            return a
    return rt.DateTimeNano(vals.copy(), from_tz=r.pick(["UTC", "GMT"]), to_tz=z)


EPOCH = D.datetime(1970, 1, 1)


def wall(d, sub):
    """nanoseconds of the wall clock since 1970-01-01 00:00 on the wall clock"""
    return int((d - EPOCH).total_seconds()) * NS + sub


FIELDS = {
    "year": lambda a: a.year(), "month": lambda a: a.month(), "day_of_month": lambda a: a.day_of_month, "day_of_week": lambda a: a.day_of_week,
    "day_of_year": lambda a: a.day_of_year, "yyyymmdd": lambda a: a.yyyymmdd, "days_since_epoch": lambda a: a.days_since_epoch,
    "seconds_since_epoch": lambda a: a.seconds_since_epoch, "nanos_since_midnight": lambda a: a.nanos_since_midnight(),
    "millis_since_midnight": lambda a: a.millis_since_midnight(), "nanos_since_start_of_year": lambda a: a.nanos_since_start_of_year(),
    "time_since_start_of_year": lambda a: a.time_since_start_of_year(), "time_since_midnight": lambda a: a.time_since_midnight(),
    "day": lambda a: a.day, "hour": lambda a: a.hour, "minute": lambda a: a.minute, "second": lambda a: a.second, "millisecond": lambda a: a.millisecond,
    "microsecond": lambda a: a.microsecond, "nanosecond": lambda a: a.nanosecond, "hour_span": lambda a: a.hour_span, "minute_span": lambda a: a.minute_span,
    "second_span": lambda a: a.second_span, "millisecond_span": lambda a: a.millisecond_span, "microsecond_span": lambda a: a.microsecond_span,
    "nanosecond_span": lambda a: a.nanosecond_span, "is_weekday": lambda a: a.is_weekday, "is_weekend": lambda a: a.is_weekend,
    "start_of_week": lambda a: a.start_of_week, "tz_offset": lambda a: a.tz_offset, "monthyear": lambda a: a.monthyear(), "date": lambda a: a.date(), "is_dst": lambda a: a.is_dst,
}
# what a missing date-time gives: a field that has no missing value is not judged
NOMISS = {"is_weekday": False, "is_weekend": False, "tz_offset": "?", "monthyear": "?", "is_dst": "?"}
INTS = {"year", "month", "day_of_month", "day_of_week", "day_of_year", "yyyymmdd", "days_since_epoch", "seconds_since_epoch", "nanos_since_midnight",
        "nanos_since_start_of_year", "start_of_week", "date"}


def std(z):
    """the zone's normal offset (Ireland's winter time counts as the normal one)"""
    return {"America/New_York": -18000, "Europe/Dublin": 0, "Australia/Sydney": 36000, "Asia/Hong_Kong": 28800, "Asia/Tokyo": 32400,
            "Asia/Seoul": 32400, "Asia/Kolkata": 19800}.get(ALIAS.get(z, z), 0)


def expect(name, z, v):
    if v == 0 or v == I64:
        return NOMISS.get(name)
    d, sub, off = local(z, v)
    mid = (d.hour * 3600 + d.minute * 60 + d.second) * NS + sub
    yr = wall(d, sub) - wall(D.datetime(d.year, 1, 1), 0)
    inmin = d.second * NS + sub
    inhr = d.minute * 60 * NS + inmin
    days = (d.date() - D.date(1970, 1, 1)).days
    if name == "date":
        m = D.datetime(d.year, d.month, d.day)
        a, b = to_utc(z, m)
        return (a * NS, b * NS)
    return {
        "year": d.year, "month": d.month, "day_of_month": d.day, "day_of_week": d.weekday(), "day_of_year": d.timetuple().tm_yday,
        "yyyymmdd": d.year * 10000 + d.month * 100 + d.day, "days_since_epoch": days,
        "seconds_since_epoch": wall(d, 0) // NS, "nanos_since_midnight": mid, "millis_since_midnight": mid / 1e6,
        "nanos_since_start_of_year": yr, "time_since_start_of_year": yr, "time_since_midnight": mid,
        "day": mid / DAY, "hour": mid / 3.6e12, "minute": inhr / 6e10, "second": inmin / 1e9, "millisecond": sub / 1e6,
        "microsecond": sub % 10**6 / 1e3, "nanosecond": sub % 1000, "hour_span": mid, "minute_span": inhr, "second_span": inmin, "millisecond_span": sub,
        "microsecond_span": sub % 10**6, "nanosecond_span": sub % 1000, "is_weekday": d.weekday() < 5, "is_weekend": d.weekday() > 4,
        "start_of_week": days - d.weekday(), "tz_offset": off / 3600, "is_dst": off != std(z),
        "monthyear": ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][d.month - 1] + str(d.year),
    }[name]


def to_utc(z, d):
    """the UTC seconds a wall clock reading can mean (two when ambiguous, none that exist: both guesses)"""
    zz = zone(z)
    return tuple(int(d.replace(tzinfo=zz, fold=f).timestamp()) for f in (0, 1))


def exists(z, d):
    a, b = to_utc(z, d)
    return any(D.datetime.fromtimestamp(x, zone(z)).replace(tzinfo=None) == d for x in (a, b))


def item(name, got):
    if isinstance(got, (bytes, np.bytes_)):
        return got.decode()
    if isinstance(got, str):
        return str(got)
    if isinstance(got, (bool, np.bool_)):
        return bool(got)
    if isinstance(got, (np.integer, int)):
        g = int(got)
        mn = np.iinfo(got.dtype).min if isinstance(got, np.integer) else None
        if g == mn or (g == 0 and name in ("start_of_week", "date")):
            return None
        return g
    g = float(got)
    return None if g != g else g


def agree(g, e):
    if e == "?":
        return True
    if isinstance(e, tuple):
        return g in e
    if e is None or g is None or isinstance(e, (str, bool)):
        return g is e or g == e
    if isinstance(g, int) and isinstance(e, int):
        return g == e
    return abs(g - e) <= 1e-12 * max(1., abs(e)) + 1e-9


@case(n=260)
def fields(m, r):
    z = r.pick(ZONES)
    n = size(r)
    vals = instants(r, n, z)
    a = make(r, z, vals)
    s0 = gen.snap(a)
    m.note(zone=z, n=n, strided=not a.flags.c_contiguous)
    names = list(FIELDS)
    for f in r.perm(names)[:r.int(6, len(names))]:
        res = m.call(f, FIELDS[f], a)
        m.check(len(res) == n, f"{f}: number of rows", got=len(res), expected=n)
        p = plain(res)
        for i in range(n):
            e = expect(f, z, vals[i])
            g = item(f, p[i])
            if not agree(g, e):
                m.check(False, f"{f}", at=i, value=int(vals[i]), got=repr(g), expected=repr(e), zone=z)
            m.check(True, f)
    if n:
        i = r.int(0, n - 1)
        sc = a[i]
        for f in r.perm(names)[:8]:
            e = expect(f, z, vals[i])
            g = m.call("scalar " + f, FIELDS[f], sc)
            if isinstance(g, np.ndarray) and g.ndim == 1 and len(g) == 1:
                g = plain(g)[0]
            g = item(f, g)
            if f in ("time_since_midnight", "hour_span", "start_of_week", "date") and e is None:
                continue
            m.check(agree(g, e), f"scalar {f}", value=int(vals[i]), got=repr(g), expected=repr(e), zone=z)
    m.check(not gen.snap_diff(s0, gen.snap(a)), "reading fields leaves the array alone")


FMTS = ["%Y%m%d", "%Y-%m-%d %H:%M:%S", "%H:%M", "%d %b %Y", "%A %j", "%y/%m/%d %I %p", "%Y-%m-%dT%H:%M:%S.%f"]


@case(n=160)
def text(m, r):
    z = r.pick(ZONES)
    n = max(1, size(r))
    vals = instants(r, n, z, inv=0)
    a = make(r, z, vals)
    loc = [local(z, v) for v in vals]
    m.note(zone=z, n=n)
    iso = m.call("to_iso", lambda: a.to_iso())
    e = [f"{d:%Y-%m-%dT%H:%M:%S}.{s:09d}" for d, s, _ in loc]
    m.check([gen.txt(x) for x in plain(iso)] == e, "to_iso", got=[gen.txt(x) for x in plain(iso)][:5], expected=e[:5], zone=z)
    f = r.pick(FMTS)
    # the format works on a float number of seconds: stay away from the microsecond rounding
    if "%f" not in f:
        got = [str(x) for x in m.call("strftime", lambda: a.strftime(f))]
        near = [NS - 500 <= s for _, s, _ in loc]
        for i in range(n):
            ex = loc[i][0].strftime(f)
            if got[i] != ex and not near[i]:
                m.check(False, "strftime", got=got[i], expected=ex, zone=z, fmt=f, value=int(vals[i]))
        i = r.int(0, n - 1)
        if not near[i]:
            g = m.call("scalar strftime", lambda: a[i].strftime(f))
            m.check(str(g) == loc[i][0].strftime(f), "scalar strftime", got=str(g), expected=loc[i][0].strftime(f), zone=z, value=int(vals[i]))
    # what is displayed
    for i in range(min(n, 6)):
        d, s, _ = loc[i]
        g = m.call("display of a scalar", lambda: str(a[i]))
        m.check(g.startswith(d.strftime("%Y%m%d %H:%M:%S")) or g.startswith(d.strftime("%Y-%m-%d %H:%M:%S")), "displayed date-time", got=g, expected=str(d), zone=z)
        m.check(g.endswith(f"{s:09d}") or g.endswith(f"{s // 1000:06d}") or s == 0, "displayed fraction of a second", got=g, expected=s)


@case(n=160)
def convert(m, r):
    """the same instants in another zone"""
    z, z2 = r.pick(ZONES), r.pick(ZONES)
    n = size(r)
    vals = instants(r, n, z2)
    a = make(r, z, vals)
    m.note(zone=z, to=z2, n=n)
    b = m.call("astimezone", lambda: a.astimezone(z2))
    m.same(plain(b), vals, "astimezone keeps the instants")
    c = a.copy()
    m.call("set_timezone", lambda: c.set_timezone(z2))
    m.same(plain(c), vals, "set_timezone keeps the instants")
    for what, q, zz in (("astimezone", b, z2), ("set_timezone", c, z2), ("the original", a, z)):
        for f in ("yyyymmdd", "nanos_since_midnight"):
            p = plain(FIELDS[f](q))
            for i in range(n):
                e = expect(f, zz, vals[i])
                if e is not None and not agree(item(f, p[i]), e):
                    m.check(False, f"{f} after {what}", got=int(p[i]), expected=e, value=int(vals[i]), zone=z, to=z2)
    # every way of taking part of the array keeps the zone
    if n:
        idx = r.g.integers(0, n, r.int(1, 6))
        for what, q, pos in (("fancy", lambda: b[idx], idx), ("slice", lambda: b[::-1], np.arange(n)[::-1]), ("copy", lambda: b.copy(), np.arange(n)),
                             ("shift", lambda: b.shift(1), None), ("hstack", lambda: rt.hstack([b, b]), np.r_[np.arange(n), np.arange(n)]),
                             ("repeat", lambda: b.repeat(2), np.repeat(np.arange(n), 2)), ("where", lambda: b[np.ones(n, bool)], np.arange(n))):
            got = m.call(what, q)
            m.check(type(got) is rt.DateTimeNano and zone(got._timezone._to_tz) == zone(z2), f"{what}: class and zone", got=str(getattr(got, "_timezone", type(got))))
            if pos is not None:
                m.same(plain(got), vals[pos], f"{what}: instants")


def walls(r, n, z, whole=False):
    """wall clock readings in a zone which exist, as (naive datetime, ns in second, accepted UTC ns)"""
    out = []
    while len(out) < n:
        v = int(instants(r, 1, z, 0)[0])
        d, sub, _ = local(z, v)
        if r.chance(.3):
            d = d.replace(hour=r.pick([0, 1, 2, 3, 23]), minute=r.pick([0, 0, 30, 59]), second=r.pick([0, 0, 59]))
        if whole:
            sub = 0
        if exists(z, d):
            a, b = to_utc(z, d)
            out.append((d, sub, (a * NS + sub, b * NS + sub)))
    return out


def judge(m, got, exp, what, **kw):
    g = plain(got)
    m.check(len(g) == len(exp), what + ": rows", got=len(g), expected=len(exp))
    for i in range(len(exp)):
        ok = int(g[i]) in exp[i]
        if not ok:
            m.check(False, what, at=i, got=int(g[i]), expected=exp[i], off_by_s=(int(g[i]) - exp[i][0]) / NS, **kw)
        m.check(True, what)


@case(n=260)
def build(m, r):
    """date-times built from wall clock readings in a zone denote those instants"""
    z, z2 = r.pick(ZONES), r.pick(ZONES)
    n = max(1, size(r))
    how = r.pick(["iso", "spaces", "yyyymmdd", "ints", "dt64", "python", "pandas", "strptime", "start_date", "date+time", "time+date", "function", "categorical", "utc"])
    w = walls(r, n, z, whole=how in ("strptime", "python", "dates"))
    exp = [x[2] for x in w]
    ch = r.pick(["S", "U"])
    m.note(zone=z, to=z2, n=n, how=how, chars=ch)
    f9 = [f"{d:%Y-%m-%d %H:%M:%S}.{s:09d}" for d, s, _ in w]
    arr = None
    if how in ("iso", "spaces", "yyyymmdd", "function", "categorical"):
        t = f9
        if how == "iso":
            t = [x.replace(" ", "T") for x in f9]
        elif how == "spaces":
            cut = r.pick([29, 26, 23])
            w = [(d, s // 10 ** (29 - cut) * 10 ** (29 - cut), e) for d, s, e in w]
            exp = [(e[0] // NS * NS + s, e[1] // NS * NS + s) for d, s, e in w]
            t = [x[:cut] for x in f9]
        elif how == "yyyymmdd":
            t = [x.replace("-", "", 2) for x in f9]
        ta = np.array(t, dtype=ch)
        if how == "function":
            arr = m.call("datetimestring_to_nano", lambda: rt.rt_datetime.datetimestring_to_nano(ta, from_tz=z, to_tz=z2))
        elif how == "categorical":
            arr = m.call("DateTimeNano(Categorical)", lambda: rt.DateTimeNano(rt.Categorical(ta), from_tz=z, to_tz=z2))
        else:
            src = ta.tolist() if r.chance(.3) else rt.FastArray(ta)
            if r.chance(.2) and n > 1:
                src = rt.FastArray(np.repeat(ta, 2))[::2]
            arr = m.call(f"DateTimeNano({how} strings)", lambda: rt.DateTimeNano(src, from_tz=z, to_tz=z2))
    elif how == "ints":
        v = np.array([wall(d, s) for d, s, _ in w], np.int64)
        src = np.repeat(v, 2)[::2] if r.chance(.3) else v
        arr = m.call("DateTimeNano(ints)", lambda: rt.DateTimeNano(src, from_tz=z, to_tz=z2))
        m.same(np.asarray(src), v, "the source integers are not modified")
    elif how == "dt64":
        unit = r.pick(["ns", "us", "ms", "s"])
        q = {"ns": 1, "us": 1000, "ms": 10**6, "s": NS}[unit]
        v = np.array([wall(d, s) // q for d, s, _ in w], np.int64).view(f"M8[{unit}]")
        exp = [(e[0] // q * q, e[1] // q * q) for _, _, e in w]
        arr = m.call("DateTimeNano(datetime64)", lambda: rt.DateTimeNano(v, from_tz=z, to_tz=z2))
    elif how == "python":
        arr = m.call("DateTimeNano(datetimes)", lambda: rt.DateTimeNano([d for d, _, _ in w], from_tz=z, to_tz=z2))
    elif how == "pandas":
        import pandas as pd
        s = pd.Series([pd.Timestamp(f) for f in f9])
        arr = m.call("DateTimeNano(pandas)", lambda: rt.DateTimeNano(s.values, from_tz=z, to_tz=z2))
    elif how == "strptime":
        f = r.pick(["%Y-%m-%d %H:%M:%S", "%m/%d/%Y %H:%M:%S", "%d.%m.%Y %H:%M:%S", "%Y%m%d%H%M%S"])
        t = np.array([d.strftime(f) for d, _, _ in w], dtype=ch)
        if r.chance(.5):
            arr = m.call("DateTimeNano(format)", lambda: rt.DateTimeNano(t, format=f, from_tz=z, to_tz=z2))
        else:
            arr = m.call("strptime_to_nano", lambda: rt.rt_datetime.strptime_to_nano(rt.FastArray(t), f, from_tz=z, to_tz=z2))
    elif how == "start_date":
        day = rt.Date(np.array([f"{d:%Y%m%d}" for d, _, _ in w], dtype=ch))
        mid = np.array([(d.hour * 3600 + d.minute * 60 + d.second) * NS + s for d, s, _ in w], np.int64)
        k = r.pick(["ints", "span", "text"])
        src = {"ints": mid, "span": rt.TimeSpan(mid.astype(float)), "text": np.array([f[11:] for f in f9], dtype=ch)}[k]
        arr = m.call(f"DateTimeNano({k}, start_date)", lambda: rt.DateTimeNano(src, start_date=day, from_tz=z, to_tz=z2))
    elif how in ("date+time", "time+date"):
        ds = rt.FastArray(np.array([f.split()[0] for f in f9], dtype=ch))
        ts = rt.FastArray(np.array([f.split()[1] for f in f9], dtype=ch))
        if how == "date+time":
            arr = m.call("datestring_to_nano", lambda: rt.rt_datetime.datestring_to_nano(ds, time=ts, from_tz=z, to_tz=z2))
        else:
            arr = m.call("timestring_to_nano", lambda: rt.rt_datetime.timestring_to_nano(ts, date=ds, from_tz=z, to_tz=z2))
    elif how == "utc":
        v = np.array([e[2][0] for e in w], np.int64)
        exp = [(int(x),) for x in v]
        arr = m.call("DateTimeUTC", lambda: rt.rt_datetime.DateTimeUTC(v))
    m.check(type(arr) is rt.DateTimeNano, "class", got=type(arr).__name__)
    judge(m, arr, exp, f"instants built from {how}", zone=z)
    if how != "utc":
        m.check(zone(arr._timezone._to_tz) == zone(z2), "display zone", got=str(arr._timezone))


@case(n=60)
def roundtrip_missing(m, r):
    """missing readings stay missing whatever zone they came from"""
    z, z2 = r.pick(ZONES), r.pick(ZONES)
    n = r.int(1, 8)
    v = instants(r, n, "UTC", 0)
    bad = r.g.random(n) < .4
    v[bad] = np.where(r.g.random(int(bad.sum())) < .5, 0, I64)
    src = r.pick([v, v.astype("M8[ns]")])
    if src.dtype.kind == "M":
        src = src.copy()
        src[v == 0] = np.datetime64("NaT")
    a = m.call("DateTimeNano with missing", lambda: rt.DateTimeNano(src, from_tz=z, to_tz=z2))
    m.same(plain(a.isnan()), bad, "missing readings stay missing", zone=z)
    e, ms = m.call("parse_epoch", lambda: rt.rt_datetime.parse_epoch(a, to_tz=z2))
    for i in range(n):
        if not bad[i]:
            x = int(plain(a)[i])
            d, s, _ = local(z2, x)
            m.check(int(e[i]) == expect("days_since_epoch", z2, x), "parse_epoch day", got=int(e[i]))
            m.check(abs(float(ms[i]) - expect("millis_since_midnight", z2, x)) < 1e-3, "parse_epoch millis", got=float(ms[i]))


# ---------------------------------------------------------------- Date
DF = {
    "year": lambda a: a.year, "month": lambda a: a.month, "day_of_month": lambda a: a.day_of_month, "day_of_week": lambda a: a.day_of_week,
    "day_of_year": lambda a: a.day_of_year, "yyyymmdd": lambda a: a.yyyymmdd, "monthyear": lambda a: a.monthyear, "is_leapyear": lambda a: a.is_leapyear,
    "is_weekday": lambda a: a.is_weekday, "is_weekend": lambda a: a.is_weekend, "seconds_since_epoch": lambda a: a.seconds_since_epoch,
    "start_of_month": lambda a: a.start_of_month, "start_of_week": lambda a: a.start_of_week, "strftime": lambda a: a.strftime("%Y/%m/%d %a"),
}
DINV = {"is_leapyear": "?", "is_weekday": "?", "is_weekend": "?", "monthyear": "?", "strftime": "?"}
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def dexpect(name, v):
    if v == 0 or v == I32:
        return DINV.get(name)
    d = D.date(1970, 1, 1) + D.timedelta(days=int(v))
    leap = d.year % 4 == 0 and (d.year % 100 != 0 or d.year % 400 == 0)
    return {
        "year": d.year, "month": d.month, "day_of_month": d.day, "day_of_week": d.weekday(), "day_of_year": d.timetuple().tm_yday,
        "yyyymmdd": d.year * 10000 + d.month * 100 + d.day, "monthyear": MON[d.month - 1] + str(d.year), "is_leapyear": leap,
        "is_weekday": d.weekday() < 5, "is_weekend": d.weekday() > 4, "seconds_since_epoch": int(v) * 86400,
        "start_of_month": int(v) - d.day + 1, "start_of_week": int(v) - d.weekday(), "strftime": d.strftime("%Y/%m/%d %a"),
    }[name]


def days(r, n, inv=.1):
    out = r.g.integers(366, 47000, n).astype(np.int32)         # 1971 .. 2098
    for i in range(n):
        if r.chance(.5):
            d = D.date(1970, 1, 1) + D.timedelta(days=int(out[i]))
            d = r.pick([d.replace(day=1), d.replace(month=1, day=1), d.replace(month=3, day=1), d.replace(month=12, day=31)])
            out[i] = (d - D.date(1970, 1, 1)).days + r.pick([0, 0, -1, 1])
    if n and inv and r.chance(.6):
        bad = r.g.random(n) < inv
        out[bad] = np.where(r.g.random(int(bad.sum())) < .6, 0, I32)
    return out


@case(n=220)
def dates(m, r):
    n = size(r)
    v = days(r, n)
    a = rt.Date(np.repeat(v, 2))[::2] if n and r.chance(.2) else rt.Date(v.copy())
    m.note(n=n, strided=not a.flags.c_contiguous)
    names = list(DF)
    if 0 in v or I32 in v:
        names.remove("strftime")
    s0 = gen.snap(a)
    for f in r.perm(names)[:r.int(5, len(names))]:
        res = m.call("Date." + f, DF[f], a)
        m.check(len(res) == n, f"Date.{f}: number of rows", got=len(res), expected=n)
        for i in range(n):
            e = dexpect(f, v[i])
            g = np.asarray(plain(res) if isinstance(res, np.ndarray) else res)[i]
            g = None if f in ("start_of_month", "start_of_week") and int(g) in (0, I32) else item(f, g)
            if not agree(g, e):
                m.check(False, f"Date.{f}", at=i, value=int(v[i]), got=repr(g), expected=repr(e))
            m.check(True, f)
    m.check(not gen.snap_diff(s0, gen.snap(a)), "reading fields leaves the dates alone")
    txt = m.call("str(Date)", lambda: [str(a[i]) for i in range(min(n, 5))])
    for i, t in enumerate(txt):
        if v[i] not in (0, I32):
            e = str(D.date(1970, 1, 1) + D.timedelta(days=int(v[i])))
            m.check(t == e, "displayed date", got=t, expected=e)


@case(n=220)
def build_dates(m, r):
    n = max(1, size(r))
    how = r.pick(["dashes", "yyyymmdd", "format", "ints", "list", "cat", "catint", "dtn", "matlab", "floats", "range", "dt64", "scalar", "back"])
    v = days(r, n, inv=0)
    d = [D.date(1970, 1, 1) + D.timedelta(days=int(x)) for x in v]
    ch = r.pick(["S", "U"])
    m.note(n=n, how=how, chars=ch)
    cls = rt.Date
    if how in ("dashes", "yyyymmdd", "list", "cat", "scalar"):
        t = [f"{x:%Y-%m-%d}" if how in ("dashes", "cat", "list") else f"{x:%Y%m%d}" for x in d]
        src = np.array(t, dtype=ch)
        if how == "scalar":
            v, src = v[:1], src[0]
        elif how == "list":
            src = t
        elif how == "cat":
            src = rt.Categorical(src)
        elif r.chance(.3):
            src = rt.FastArray(np.repeat(src, 2))[::2]
        got = m.call(f"Date({how})", lambda: rt.Date(src))
    elif how == "format":
        f = r.pick(["%m/%d/%Y", "%d %B %Y", "%Y.%m.%d", "%d%b%Y", "%Y%m%d"])
        got = m.call("Date(format)", lambda: rt.Date(np.array([x.strftime(f) for x in d], dtype=ch), format=f))
    elif how == "ints":
        src = v.astype(r.pick(["i4", "i8", "u4", "u2"])) if int(v.max()) < 65000 else v
        got = m.call("Date(ints)", lambda: rt.Date(src))
    elif how == "floats":
        got = m.call("Date(floats)", lambda: rt.Date(v.astype("f8")))
    elif how == "catint":
        got = m.call("Date(Categorical of ints)", lambda: rt.Date(rt.Categorical(v)))
    elif how == "dtn":
        # the day the instants fall on in UTC, when shown in UTC
        ns = v.astype(np.int64) * DAY + r.g.integers(0, DAY, n)
        got = m.call("Date(DateTimeNano)", lambda: rt.Date(rt.DateTimeNano(ns, from_tz="UTC", to_tz="UTC")))
    elif how == "matlab":
        got = m.call("Date(matlab)", lambda: rt.Date(v.astype("f8") + 719529, from_matlab=True))
    elif how == "dt64":
        a = rt.DateTimeNano(np.array(d, dtype="M8[D]"), from_tz="UTC", to_tz="UTC")
        got = m.call("Date(DateTimeNano(dt64))", lambda: rt.Date(a))
    elif how == "back":
        z = r.pick(ZONES)
        # a date read as a date-time is midnight of that day in the zone given
        b = m.call("DateTimeNano(Date)", lambda: rt.DateTimeNano(rt.Date(v), from_tz=z, to_tz=z))
        for i in range(n):
            dd = D.datetime(d[i].year, d[i].month, d[i].day)
            if d[i].year < 2038 and exists(z, dd):
                e = tuple(x * NS for x in to_utc(z, dd))
                m.check(int(plain(b)[i]) in e, "midnight of a date in a zone", got=int(plain(b)[i]), expected=e, zone=z)
        return
    else:
        a, k = int(v[0]), r.int(0, 40)
        step = r.pick([1, 1, 2, 7])
        s0 = D.date(1970, 1, 1) + D.timedelta(days=a)
        s1 = s0 + D.timedelta(days=k)
        st = r.pick([int(f"{s0:%Y%m%d}"), f"{s0:%Y%m%d}"])
        if r.chance(.4):
            got = m.call("Date.range(days)", lambda: rt.Date.range(st, days=k, step=step))
            v = a + step * np.arange(k)
        else:
            en = r.pick([int(f"{s1:%Y%m%d}"), f"{s1:%Y%m%d}"])
            cl = r.pick([None, "left", "right"])
            got = m.call("Date.range(end)", lambda: rt.Date.range(st, en, step=step, closed=cl))
            if step > 1:                               # closed only speaks about step 1; the end is left out
                v = np.arange(a, a + k, step)
            else:
                v = np.arange(a + (cl == "right"), a + k + (cl != "left"))
    m.check(type(got) is cls, "class", got=type(got).__name__)
    m.same(plain(got).astype(np.int64), np.asarray(v).astype(np.int64), f"Date from {how}")
