"""C23: vectorised string functions equal Python's string methods elementwise."""
import re
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

ALPHA = ["a", "b", "c", "A", "B", "Z", "z", " ", "-", "_", "1", "9", ".", "@", "[", "`", "{"]
WIDE = ["é", "Ω", "ß", "日", "ñ"]


def text(r, lo=0, hi=9, wide=False, ab=False):
    if ab and r.chance(.4):
        return r.pick(["a", "ab", "aab"]) * r.int(lo, max(lo, hi // 2))           # overlapping matches
    al = ["a", "b"] if ab else ALPHA + (WIDE if wide else [])
    return "".join(r.pick(al) for _ in range(r.int(lo, hi)))


def source(m, r, allow_cat=True, big=.03):
    """(the object whose .str is used, list of Python strings or None for filtered rows, byte strings?, is Categorical)"""
    n = r.pick([0, 1, 2, r.int(3, 10), r.int(10, 60), r.int(2500, 6000)], p=[.04, .1, .1, .4, .36 - big, big])
    S = r.chance(.5)
    wide = not S and r.chance(.4)
    ab = r.chance(.4)
    hi = r.pick([1, 3, 9, 30], p=[.1, .3, .5, .1])
    pool = [text(r, 0, hi, wide, ab) for _ in range(r.pick([1, 3, 8, 40]))]
    if r.chance(.2):
        pool[0] += " " * r.int(1, 3)
    if r.chance(.15):
        pool[0] = "abcABC"
    v = [r.pick(pool) for _ in range(n)]
    a = np.array(v, dtype="S" if S else "U") if n else np.array([], dtype="S3" if S else "U3")
    if r.chance(.2):
        a = a.astype(f"{'S' if S else 'U'}{max(1, a.dtype.itemsize // (1 if S else 4)) + r.int(1, 9)}")
    if n > 1 and r.chance(.1):
        a = np.array(np.repeat(a, 2))[::2]
    form = r.pick(["fa", "cat", "codes"], p=[.6, .25, .15]) if allow_cat and n else "fa"
    if form == "fa":
        obj = rt.FastArray(a)
    elif form == "cat":
        filt = r.g.random(n) > .2 if r.chance(.5) else None
        if all(not x for x in v):
            v[0] = "q"
            a = np.array(v, dtype="S" if S else "U")
        obj = rt.Cat(a, filter=filt)
        lab = gen.cat_labels(obj)
        v = [None if x is None else x for x in lab]
    else:
        u = sorted(set(v) - {""}) or ["q"]
        r.g.shuffle(u)
        base = r.pick([0, 1, 1])
        codes = r.g.integers(0, len(u) + base, n).astype(r.pick(["i1", "i4"]))
        obj = rt.Cat(codes, np.array(u, dtype="S" if S else "U"), base_index=base)
        v = [u[c - base] if c >= base else None for c in codes.tolist()]
    S = S or (obj.category_array if form != "fa" else obj).dtype.kind == "S"       # ASCII text is kept as byte strings
    m.note(form=form, n=n, dtype=str(a.dtype), values=[x for x in v[:5]])
    return obj, v, S, form != "fa"


def strs(x):
    """Python strings of a string array or a Categorical; None for filtered rows"""
    if isinstance(x, rt.Categorical):
        return [None if s is None else str(s) for s in gen.cat_labels(x)]
    return [gen.txt(s) for s in plain(x).tolist()]


def judge(m, res, v, f, what, filler=None, **ctx):
    exp = [None if s is None else f(s) for s in v]
    if exp and isinstance(next((e for e in exp if e is not None), ""), str) and not isinstance(res, np.ndarray):
        m.check(False, what + " returns an array", got=type(res).__name__)
    if isinstance(res, rt.Categorical) or plain(res).dtype.kind in "SU":
        got = strs(res)
        got = [None if e is None and g in (None, "") else g for g, e in zip(got, exp)] + got[len(exp):]
    else:
        p = plain(res)
        got = p.tolist()
        inv = gen.is_inv(p).tolist() if p.dtype.kind != "b" else [not x for x in got]
        got = [None if e is None and b else g for g, e, b in zip(got, exp, inv)] + got[len(exp):]
    m.check(len(got) == len(exp), "rows of " + what, got=len(got), expected=len(exp))
    for i, (g, e) in enumerate(zip(got, exp)):
        m.check(type(g) is type(e) and g == e, what, at=i, got=g, expected=e, string=v[i], **ctx)


def arg(r, s, S):
    return s.encode() if S and r.chance(.3) else s


def up(s):
    return "".join(c.upper() if c.isascii() else c for c in s)


def low(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


@case(n=250)
def unary(m, r):
    obj, v, S, cat = source(m, r)
    s0 = gen.snap(obj)
    k = r.pick(["upper", "lower", "reverse", "strlen", "removetrailing"])
    if k == "removetrailing":
        ch = r.pick([" ", " ", "a", "b", "1"])
        res = m.call(k, lambda: obj.str.removetrailing() if ch == " " else obj.str.removetrailing(remove=ord(ch)))
        judge(m, res, v, lambda s: s.rstrip(ch), k, remove=ch)
    else:
        res = m.call(k, lambda: getattr(obj.str, k))
        judge(m, res, v, {"upper": up, "lower": low, "reverse": lambda s: s[::-1], "strlen": len}[k], k)
    m.check(not gen.snap_diff(s0, gen.snap(obj)), f"{k} leaves its input alone")
    if isinstance(obj, rt.FastArray) and not cat and len(v) and obj.flags.contiguous:
        f, g = r.pick([("upper_inplace", up), ("reverse_inplace", lambda s: s[::-1])])
        c = obj.copy()
        m.call(f, lambda: getattr(c.str, f))
        judge(m, c, v, g, f)


def needle(r, v, wide):
    pool = [s for s in v if s]
    k = r.pick(["part", "prefix", "suffix", "whole", "other", "longer"])
    if not pool or k == "other":
        return text(r, 1, 3, wide)
    s = r.pick(pool)
    i = r.int(0, len(s) - 1)
    j = r.int(i + 1, len(s))
    return {"part": s[i:j], "prefix": s[:j], "suffix": s[i:], "whole": s, "longer": s + text(r, 1, 2)}[k]


@case(n=350)
def search(m, r):
    obj, v, S, cat = source(m, r)
    q = needle(r, v, not S)
    if S and not q.isascii():
        q = "a"
    m.note(needle=q)
    k = r.pick(["contains", "startswith", "endswith", "index", "index_any_of"])
    a = arg(r, q, S)
    if k != "index_any_of" and r.chance(.05) and k != "index":
        a = q = ""
    res = m.call(k, lambda: getattr(obj.str, k)(a))
    f = {"contains": lambda s: q in s, "startswith": lambda s: s.startswith(q), "endswith": lambda s: s.endswith(q), "index": lambda s: s.find(q),
         "index_any_of": lambda s: min([s.find(c) for c in q if c in s], default=-1)}[k]
    judge(m, res, v, f, k, needle=q)


@case(n=250)
def replace(m, r):
    obj, v, S, cat = source(m, r)
    old = needle(r, v, not S)
    if S and not old.isascii():
        old = "a"
    new = r.pick(["", text(r, 1, 1), text(r, 1, 6, not S), old + old, old[:1]])
    m.note(old=old, new=new)
    res = m.call("replace", lambda: obj.str.replace(arg(r, old, S), arg(r, new, S)))
    judge(m, res, v, lambda s: s.replace(old, new), "replace", old=old, new=new)


@case(n=350)
def substr(m, r):
    obj, v, S, cat = source(m, r)
    n = len(v)
    if n == 0:
        return
    hi = max([len(s) for s in v if s is not None], default=1)
    k = r.pick(["call1", "call2", "slice", "open", "array", "char", "chararray", "stop"])
    b = lambda: r.int(-hi - 1, hi + 1)
    if k == "call1":
        j = b()
        judge(m, m.call("substr(stop)", lambda: obj.str.substr(j)), v, lambda s: s[:j] if j >= 0 or -j <= len(s) else "", "substr(stop)", stop=j)
    elif k in ("call2", "slice", "open"):
        i, j = b(), b()
        if k == "open":
            i, j = r.pick([(i, None), (None, j), (None, None)])
        if k == "call2":
            res = m.call("substr(start, stop)", lambda: obj.str.substr(i, j))
        else:
            res = m.call("substr[start:stop]", lambda: obj.str.substr[i:j])
        judge(m, res, v, lambda s: s[i:j], "substr", start=i, stop=j)
    elif k == "array":
        if cat:
            return
        i, j = r.g.integers(-hi - 1, hi + 2, n), r.g.integers(-hi - 1, hi + 2, n)
        one = r.pick(["start", "stop", "both"])
        I, J = (i if one != "stop" else [0] * n), (j if one != "start" else [hi] * n)
        res = m.call("substr with arrays", lambda: obj.str.substr[(i if one != "stop" else 0):(j if one != "start" else hi)])
        pos = iter(range(n))
        judge(m, res, v, lambda s: (lambda t: s[int(I[t]):int(J[t])])(next(pos)), "substr with arrays")
    elif k == "char":
        short = min(len(s) for s in v if s is not None) if any(s is not None for s in v) else 0
        if cat:
            short = min(len(gen.txt(x)) for x in plain(obj.category_array).tolist()) if len(obj.category_array) else 0
        p = r.int(-short, hi - 1) if hi else 0
        if hi == 0 or (p < 0 and short == 0):
            return
        f = r.pick([lambda: obj.str.char(p), lambda: obj.str.substr[p]])
        judge(m, m.call("char", f), v, lambda s: s[p:p + 1] if p >= 0 else s[len(s) + p:len(s) + p + 1], "char", position=p)
    elif k == "chararray":
        if cat or not all(v):
            return
        p = np.array([r.int(-len(s), len(s) - 1) for s in v], dtype=r.pick(["i8", "i4"]))
        pos = iter(p.tolist())
        judge(m, m.call("char(array)", lambda: obj.str.char(p if r.chance(.5) else p.tolist())), v, lambda s: s[next(pos)], "char(array)")
    else:
        if cat:
            return
        c = r.pick(["a", "b", " ", "1", "-", "."])
        inc = r.chance(.5)
        res = m.call("substr_char_stop", lambda: obj.str.substr_char_stop(c, inclusive=inc))
        judge(m, res, v, lambda s: s[:s.find(c) + inc] if c in s else s, "substr_char_stop", stop=c, inclusive=inc)


RX = ["a", "a+", "^a", "b$", "[A-Z]", "a.b", "(a)(b)", "[0-9]+", "^$", "^.{2}$", "a|b", r"\s", "(?i)ab", "."]


@case(n=250)
def regex(m, r):
    obj, v, S, cat = source(m, r, big=.01)
    if not v:
        return
    kw = {} if cat or r.chance(.5) else dict(apply_unique=r.chance(.5))
    k = r.pick(["match", "replace", "extract", "named", "none"])
    if k == "match":
        x = r.pick(RX)
        res = m.call("regex_match", lambda: obj.str.regex_match(arg(r, x, S), **kw))
        judge(m, res, v, lambda s: bool(re.search(x, s)), "regex_match", regex=x)
    elif k == "replace":
        x, rep = r.pick([("a", "XY"), ("[0-9]", ""), ("(a)(b)", r"\2\1"), ("a+", "<>"), ("^", ">"), ("[A-Z]", "q"), ("b", "")])
        res = m.call("regex_replace", lambda: obj.str.regex_replace(arg(r, x, S), arg(r, rep, S), **kw))
        judge(m, res, v, lambda s: re.sub(x, rep, s), "regex_replace", regex=x, repl=rep)
    else:
        if k == "named":
            x, names = r.pick([("(?P<l>[a-z])(?P<d>[^a])", ["l", "d"]), ("(a)(?P<k>b*)", ["group_0", "k"]), ("(a|b)(.)", ["group_0", "group_1"])])
        else:
            x = r.pick(["(a.)", "([A-Z])", "([0-9]+)", "(b*a)"]) if k == "extract" else r.pick(["a.", "[A-Z]", "b"])
            names = None
        fill = r.pick(["", "none"])
        res = m.call("extract", lambda: obj.str.extract(x, fillna=fill, **kw))
        if names:
            m.check(list(res.keys()) == names, "names of extracted groups", got=list(res.keys()), expected=names)
            cols = [res[c] for c in names]
        else:
            cols = [res]
        for g, col in enumerate(cols, 1 if k != "none" else 0):
            judge(m, col, v, lambda s: (lambda q: q.group(g) if q else fill)(re.search(x, s)), f"extract", regex=x, group=g)


@case(n=120)
def numpyside(m, r):
    """string functions of the FastArray module itself: comparison, concatenation, membership, conversion"""
    obj, v, S, cat = source(m, r, allow_cat=False)
    if not v:
        return
    n = len(v)
    k = r.pick(["eq", "eqarr", "bytes", "unicode", "order"])
    if k == "eq":
        q = r.pick(v)
        for a in ([q, q.encode()] if S and q.isascii() else [q]):
            judge(m, m.call("==", lambda: obj == a), v, lambda s: s == q, "== string")
            judge(m, m.call("!=", lambda: obj != a), v, lambda s: s != q, "!= string")
    elif k == "eqarr":
        w = [x if r.chance(.6) else r.pick(v) for x in v]
        b = rt.FastArray(np.array(w, dtype=r.pick(["S", "U"]) if all(x.isascii() for x in v) else "U"))
        if b.dtype.kind != obj.dtype.kind:                  # as in NumPy, text never equals bytes
            return
        m.same(plain(m.call("== array", lambda: obj == b)), np.array([x == y for x, y in zip(v, w)]), "== array")
        m.same(plain(m.call("!= array", lambda: obj != b)), np.array([x != y for x, y in zip(v, w)]), "!= array")
    elif k in ("bytes", "unicode"):
        if not all(x.isascii() for x in v):
            return
        f = r.pick([lambda: obj.astype("S")] if k == "bytes" else [lambda: obj.astype("U"), lambda: rt.FastArray(obj, unicode=True)])
        judge(m, m.call(k, f), v, lambda s: s, f"conversion to {k}")
    else:
        o = r.pick(["<", ">", "<=", ">="])
        import operator
        op = {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}[o]
        w = [r.pick(v) for _ in v]
        b = rt.FastArray(np.array(w, dtype="S" if S else "U"))
        if b.dtype.kind != obj.dtype.kind:
            return
        m.same(plain(m.call("order", lambda: op(obj, b))).astype(bool), np.array([op(x, y) for x, y in zip(v, w)]), f"strings {o}")
