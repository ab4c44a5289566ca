"""Keys for grouping workloads and a plain-Python partition oracle."""
import numpy as np
import riptable as rt
from . import gen
from .core import plain

KEYKINDS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "bool", "S", "S", "U", "date", "dtn", "span"]


def key(r, n, kind=None, card=None, inv=0.0):
    """(riptable array, list of hashable Python values equal exactly when the keys are equal, list of sort keys)"""
    kind = kind or r.pick(KEYKINDS)
    card = card or r.pick([1, 2, 3, 5, 9, r.int(1, max(2, min(n, 200)))])
    if kind == "bool":
        a = rt.FastArray(gen.bools(r, n))
    elif kind in ("S", "U"):
        a = rt.FastArray(gen.words(r, n, kind, card=min(card, 40), empty=inv), unicode=kind == "U")
    elif kind == "date":
        a = rt.Date(gen.dates(r, n, inv, card=card))
    elif kind == "dtn":
        a = rt.DateTimeNano(gen.nanos(r, n, inv, card=card), from_tz="GMT", to_tz="NYC")
    elif kind == "span":
        pool = np.round(r.g.normal(0, 5e13, card), 0) + 0.0
        a = rt.TimeSpan(pool[r.g.integers(0, card, n)])
    elif kind == "cat":
        a = gen.cat(r, n, inv, r.pick(["str", "int", "codes"]))
    else:
        a = rt.FastArray(gen.num(r, n, kind, inv=inv, card=card))
    return a, vals(a)


def vals(a):
    d = gen.decode(a)
    return [("nan",) if isinstance(v, float) and v != v else gen.txt(v) for v in d.tolist()]


def okey(v):
    """Total order used for 'sorted order': NaN last, tuples elementwise; strings by code point."""
    if isinstance(v, tuple) and v != ("nan",):
        return tuple(okey(x) for x in v)
    if v == ("nan",):
        return (1, 0)
    if isinstance(v, str):
        return (0, tuple(map(ord, v)))
    return (0, v)


def tuples(cols):
    return list(zip(*cols)) if len(cols) > 1 else list(cols[0])


class Part:
    """The partition of rows by key equality: groups in first-occurrence order."""

    def __init__(self, kv, filt=None, order=None):
        self.n = len(kv)
        rows = {}
        for i, k in enumerate(kv):
            if filt is None or filt[i]:
                rows.setdefault(k, []).append(i)
        keys = list(rows)
        if order == "sorted":
            keys.sort(key=okey)
        elif isinstance(order, list):
            keys = order
        self.keys = keys
        self.rows = [rows.get(k, []) for k in keys]
        self.count = len(keys)
        self.ikey = np.zeros(self.n, dtype=np.int64)
        for g, rr in enumerate(self.rows):
            self.ikey[rr] = g + 1

    def reorder(self, keys):
        p = Part.__new__(Part)
        d = dict(zip(self.keys, self.rows))
        p.n, p.keys, p.rows, p.count = self.n, list(keys), [d.get(k, []) for k in keys], len(keys)
        p.ikey = np.zeros(self.n, dtype=np.int64)
        for g, rr in enumerate(p.rows):
            p.ikey[rr] = g + 1
        return p


def check_partition(m, g, p, what, empties=False):
    """Every index structure of Grouping g describes partition p (same group numbering)."""
    m.check(int(g.unique_count) == p.count, f"{what}: unique_count {g.unique_count} != {p.count}")
    m.same(plain(g.ikey), p.ikey, f"{what}: ikey")
    full = all(len(x) for x in p.rows)
    nc = plain(g.ncountgroup)
    m.same(nc, np.array([int((p.ikey == 0).sum())] + [len(x) for x in p.rows]), f"{what}: ncountgroup")
    m.same(plain(g.ncountkey), nc[1:], f"{what}: ncountkey")
    ig, ifg = plain(g.igroup), plain(g.ifirstgroup)
    nc = plain(g.ncountgroup)
    m.check(len(ifg) == p.count + 1, f"{what}: ifirstgroup length {len(ifg)}")
    lists = [np.flatnonzero(p.ikey == 0).tolist()] + p.rows
    if len(ig) < p.n:                     # a lexicographic grouping lists the unfiltered rows only
        m.check(sorted(ig.tolist()) == np.flatnonzero(p.ikey).tolist(), f"{what}: igroup is not the list of unfiltered rows")
        lists[0] = []
    else:
        m.check(sorted(ig.tolist()) == list(range(p.n)), f"{what}: igroup is not a permutation")
    for j, rows in enumerate(lists):
        if rows:
            s = ig[ifg[j]:ifg[j] + nc[j]]
            m.same(s, np.array(rows), f"{what}: rows of group {j}")
    if p.n and len(ig) == p.n:
        rev = plain(g.igroupreverse)
        m.same(ig[rev], np.arange(p.n), f"{what}: igroupreverse")
    if full and p.count:
        m.same(plain(g.ifirstkey), np.array([x[0] for x in p.rows]), f"{what}: ifirstkey")
        m.same(plain(g.ilastkey), np.array([x[-1] for x in p.rows]), f"{what}: ilastkey")
    elif p.count:
        fk, lk = plain(g.ifirstkey), plain(g.ilastkey)
        for j, rows in enumerate(p.rows):
            if rows:
                m.check(fk[j] == rows[0] and lk[j] == rows[-1], f"{what}: first/last of group {j}: {fk[j]},{lk[j]} != {rows[0]},{rows[-1]}")
    if p.n and p.count:
        nx, pv = plain(g.inextkey), plain(g.iprevkey)
        en, ep = np.full(p.n, -1), np.full(p.n, -1)
        for rows in p.rows:
            en[rows[:-1]] = rows[1:]
            ep[rows[1:]] = rows[:-1]
        used = p.ikey > 0
        for got, exp, nm in ((nx, en, "inextkey"), (pv, ep, "iprevkey")):
            m.check(len(got) == p.n, f"{what}: {nm} length {len(got)}")
            bad = used & np.where(exp >= 0, got != exp, (got >= 0) & (got < p.n))
            m.check(not bad.any(), f"{what}: {nm} differs at {np.flatnonzero(bad)[:1]}: {got[bad][:1]} expected {exp[bad][:1]}")


def label_list(cols):
    return tuples([vals(c) for c in cols])


class Grouped:
    """A randomly chosen grouping object over n rows with a uniform way to run an operation on value columns."""

    KINDS = ["gb", "gbu", "gblex", "ds.cat", "Cat", "catlist", "catdict", "Cat0", "CatEnum", "CatCodes"]

    def __init__(self, m, r, n, cols, kinds=None, pre=None, maxcard=None):
        self.m, self.n, self.cols = m, n, cols
        self.kind = kind = r.pick(kinds or self.KINDS)
        self.pre = None
        fkw = {}
        if kind in ("Cat0", "CatEnum", "CatCodes"):
            c = gen.cat(r, n, 0.2 if kind == "CatCodes" else 0, {"Cat0": "ordered0", "CatEnum": "enum", "CatCodes": "codes"}[kind])
            self.g, self.kv = c, gen.decode(c).tolist()
            self.names = None
        else:
            nk = r.pick([1, 1, 2])
            ks = [key(r, n, r.pick(["i1", "i4", "i8", "u2", "S", "U", "date", "bool", "f8"]), card=r.pick([1, 2, 4, 8, 30])) for _ in range(nk)]
            self.kv = tuples([v for _, v in ks])
            self.names = ["k%d" % i for i in range(nk)]
            if pre if pre is not None else r.chance(0.2):
                self.pre = gen.bools(r, n, 0.7)
                fkw = {"filter": self.pre}
            self.ds = ds = rt.Dataset(dict(r.perm(list(zip(self.names, [a for a, _ in ks])) + list(cols.items()))))
            by = self.names if nk > 1 else self.names[0]
            if kind == "gb":
                self.g = m.call("gb", ds.gb, by, **fkw)
            elif kind == "gbu":
                self.g = m.call("gbu", ds.gbu, by, **fkw)
            elif kind == "gblex":
                self.g = m.call("gb(lex)", ds.gb, by, lex=True, **fkw)
            elif kind == "ds.cat":
                self.g = m.call("ds.cat", ds.cat, by, **fkw)
            else:
                self.g = m.call("Cat", rt.Cat, [a for a, _ in ks] if nk > 1 else ks[0][0], **fkw)
        ok = np.array([v is not None for v in self.kv], dtype=bool) if n else np.zeros(0, bool)
        self.inb = ok if self.pre is None else ok & self.pre         # rows that are in some group
        self.part = Part(self.kv, self.inb)
        if kind in ("Cat0", "CatEnum", "CatCodes"):
            self.order = None
        elif kind in ("gb", "gblex") or (kind != "gbu" and (self.g.ordered or self.g.sort_gb)):
            self.order = sorted(self.part.keys, key=okey)
        else:
            self.order = self.part.keys

    @property
    def is_gb(self):
        return self.kind in ("gb", "gbu", "gblex")

    def run(self, op, cols=None, **kw):
        """-> {column name: riptable array} for the value columns."""
        cols = self.cols if cols is None else cols
        g = self.g
        if self.is_gb:
            if list(cols) != list(self.cols):
                g = g[list(cols)]
            res = self.m.call(op, getattr(g, op), **kw)
        elif self.kind in ("catlist",):
            res = self.m.call(op, getattr(g, op), list(cols.values()), **kw)
        elif self.kind == "catdict":
            res = self.m.call(op, getattr(g, op), dict(cols), **kw)
        elif self.kind == "ds.cat":
            res = self.m.call(op, getattr(g, op), self.ds[list(cols)], **kw)
        else:
            res, labs = {}, None
            for c, v in cols.items():
                x = self.m.call(op, getattr(g, op), v, **kw)
                labs = set(x.label_get_names()) if isinstance(x, rt.Dataset) else ()
                dat = [k for k in x.keys() if k not in labs and not isinstance(x[k], rt.Categorical)] if isinstance(x, rt.Dataset) else None
                self.m.check(dat is None or len(dat) == 1 or isinstance(v, rt.Categorical), f"{op}: result columns {dat}")
                res[c] = x if dat is None else x[dat[0]] if dat else x[[k for k in x.keys() if k not in labs][-1]]
            return res
        labs = set(res.label_get_names())
        dat = [k for k in res.keys() if k not in labs and not (self.names and k in self.names)]
        if self.kind == "catlist":
            dat = [k for k in dat if k.startswith("col_")] or dat
            self.m.check(len(dat) == len(cols), f"{op}: result columns {dat} for {list(cols)}")
            return {c: res[d] for c, d in zip(cols, dat)}
        for c in cols:
            self.m.check(c in dat, f"{op}: column {c} missing from {dat}")
        return {c: res[c] for c in cols}
