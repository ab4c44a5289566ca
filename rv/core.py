"""Monitor core: recording of API events, oracle evaluation, verdicts.

A *case* is one execution of the real code: a workload function `f(m, r)` that builds inputs from the
seeded generator `r`, drives riptable's public API (recording every call as an event on `m`) and lets
oracles judge what was observed (`m.check`, `m.same`, `m.close`, ...).  The first refuted oracle ends the
case with a Violation carrying the witness.
"""
import hashlib, json, os, sys, time, traceback, warnings
from collections import Counter
import numpy as np

CASES = {}          # name -> Case (filled by @case in the property module being run)


class Case:
    __slots__ = ("name", "fn", "n", "thorough", "group")

    def __init__(self, name, fn, n, thorough):
        self.name, self.fn, self.n, self.thorough = name, fn, n, thorough


def case(n=40, thorough=10):
    """Register a workload; n executions in the quick tier, n*thorough in the thorough tier."""
    def deco(fn):
        CASES[fn.__name__] = Case(fn.__name__, fn, n, thorough if thorough < 100 else thorough / n)      # from 100 on: the number of executions
        return fn
    return deco


class Violation(Exception):
    def __init__(self, what, detail=None, mech=None):
        super().__init__(what)
        self.what, self.detail, self.mech = what, detail or {}, mech


class Inconclusive(Exception):
    pass


def short(x, lim=400):
    try:
        if isinstance(x, np.ndarray):
            x = np.asarray(x.view(np.ndarray)) if type(x) is not np.ndarray else x
            s = f"{x.dtype}{list(x.shape)}:" + np.array2string(x, threshold=24, edgeitems=10, max_line_width=100000)
        else:
            s = repr(x)
    except Exception as e:                          # the witness printer must never decide a verdict
        s = f"<unprintable {type(x).__name__}: {e}>"
    return s if len(s) <= lim else s[:lim] + "..."


class Mon:
    """Observes one case."""

    def __init__(self, prop, case, idx):
        self.prop, self.case, self.idx = prop, case, idx
        self.events = Counter()
        self.oracles = 0
        self.ctx = {}
        self.sig = []
        self.trivial = False

    # --- recording -------------------------------------------------------------------------
    def note(self, **kw):
        """Attach inputs to the witness of a later violation and to the case's signature."""
        for k, v in kw.items():
            self.ctx[k] = v
            self.sig.append((k, short(v, 300)))

    def call(self, op, fn, *a, **kw):
        """Record the call event, then its return; an exception is a refutation (the call is legal)."""
        self.events[op] += 1
        try:
            return fn(*a, **kw)
        except (MemoryError, Inconclusive, Violation):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "riptable" in f.filename][-3:]
            raise Violation(f"{op}: unexpected {type(e).__name__}: {str(e)[:200]}", {"where": where, "args": [short(x) for x in a[:6]], "kw": short(kw)})

    def raises(self, op, fn, *a, exc=Exception, **kw):
        """The call must be rejected."""
        self.events[op + "!"] += 1
        self.oracles += 1
        try:
            res = fn(*a, **kw)
        except exc as e:
            if isinstance(e, (MemoryError, Inconclusive, Violation)):
                raise
            return e
        except (MemoryError, Inconclusive, Violation):
            raise
        except Exception as e:
            raise Violation(f"{op}: raised {type(e).__name__} ({str(e)[:120]}) instead of {exc}", {})
        raise Violation(f"{op}: accepted an input that must be rejected", {"result": short(res)})

    def attempt(self, op, fn, *a, **kw):
        """A call that may legally be rejected: (result, None) or (None, exception)."""
        self.events[op] += 1
        try:
            return fn(*a, **kw), None
        except (MemoryError, Inconclusive, Violation):
            raise
        except Exception as e:
            self.events[op + "!"] += 1
            return None, e

    # --- oracles ---------------------------------------------------------------------------
    def check(self, cond, what, mech=None, **detail):
        self.oracles += 1
        if not cond:
            raise Violation(what, {k: short(v) for k, v in detail.items()}, mech)

    def same(self, got, exp, what, mech=None, **detail):
        """Equal as plain arrays: same shape, same values, NaN equals NaN. dtype is not compared."""
        self.oracles += 1
        bad = differs(got, exp)
        if bad is not None:
            raise Violation(f"{what}: {bad}", dict({k: short(v) for k, v in detail.items()}, got=short(got), expected=short(exp)), mech)

    def close(self, got, exp, what, rtol=1e-6, atol=1e-9, mech=None, **detail):
        self.oracles += 1
        bad = differs(got, exp, rtol, atol)
        if bad is not None:
            raise Violation(f"{what}: {bad}", dict({k: short(v) for k, v in detail.items()}, got=short(got), expected=short(exp)), mech)


def plain(x):
    """A plain ndarray over the raw memory/values: no riptable code is involved."""
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray) if type(x) is not np.ndarray else x
    if isinstance(x, (list, tuple)):
        return np.array(x)
    return np.asarray(x)


def as_text(a):
    """bytes arrays -> unicode (utf8) so that S and U results compare by value."""
    if a.dtype.kind == "S":
        return np.array([v.decode("utf-8", "replace") for v in a.ravel().tolist()], dtype="U").reshape(a.shape)
    if a.dtype.kind == "O":
        out = np.empty(a.size, dtype=object)
        for i, v in enumerate(a.ravel().tolist()):
            out[i] = v.decode("utf-8", "replace") if isinstance(v, bytes) else v
        return out.reshape(a.shape)
    return a


def differs(got, exp, rtol=None, atol=None):
    g, e = plain(got), plain(exp)
    if g.shape != e.shape:
        return f"shape {g.shape} != {e.shape}"
    if g.size == 0:
        return None
    if g.dtype.kind in "SUO" or e.dtype.kind in "SUO":
        gl, el = as_text(g).ravel().tolist(), as_text(e).ravel().tolist()
        for i, (x, y) in enumerate(zip(gl, el)):
            if x is y:
                continue
            if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
                continue
            if isinstance(x, str) != isinstance(y, str):
                return f"element {i}: {x!r} != {y!r}"
            if not (x == y):
                return f"element {i}: {x!r} != {y!r}"
        return None
    if g.dtype.kind in "Mm" or e.dtype.kind in "Mm":
        neq = ~((g == e) | (np.isnat(g) & np.isnat(e)))
    elif rtol is not None and (g.dtype.kind in "fc" or e.dtype.kind in "fc"):
        gf, ef = g.astype(np.float64), e.astype(np.float64)
        with np.errstate(all="ignore"):
            ok = np.abs(gf - ef) <= atol + rtol * np.maximum(np.abs(gf), np.abs(ef))
            ok |= gf == ef
            ok |= np.isnan(gf) & np.isnan(ef)
        neq = ~ok
    elif g.dtype.kind in "fc" or e.dtype.kind in "fc":
        with np.errstate(all="ignore"):
            neq = ~((g == e) | ((g != g) & (e != e)))
    elif g.dtype != e.dtype and "u" in (g.dtype.kind, e.dtype.kind) and g.dtype.kind != e.dtype.kind and max(g.dtype.itemsize, e.dtype.itemsize) == 8:
        neq = np.array([x != y for x, y in zip(g.ravel().tolist(), e.ravel().tolist())]).reshape(g.shape)
    else:
        neq = g != e
    if neq.any():
        i = int(np.flatnonzero(neq.ravel())[0])
        return f"element {i}: {g.ravel()[i]!r} != {e.ravel()[i]!r} ({int(neq.sum())} of {g.size} differ)"
    return None


class R:
    """Seeded generator with the few draws the workloads need."""

    def __init__(self, seed_tuple):
        h = hashlib.sha256(repr(seed_tuple).encode()).digest()
        self.g = np.random.default_rng(np.frombuffer(h, dtype=np.uint32))

    def chance(self, p=0.5):
        return bool(self.g.random() < p)

    def int(self, lo, hi):
        """inclusive"""
        return int(self.g.integers(lo, hi + 1))

    def pick(self, seq, p=None):
        seq = list(seq)
        return seq[int(self.g.choice(len(seq), p=p))] if p is not None else seq[int(self.g.integers(len(seq)))]

    def subset(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        lo = min(lo, hi)
        k = self.int(lo, hi)
        idx = self.g.permutation(len(seq))[:k]
        return [seq[i] for i in idx]

    def perm(self, seq):
        seq = list(seq)
        return [seq[i] for i in self.g.permutation(len(seq))]

    def size(self, big=0.04):
        """Lengths: boundary-heavy, some beyond the vector / multi-thread thresholds."""
        u = self.g.random()
        if u < 0.06:
            return 0
        if u < 0.14:
            return 1
        if u < 0.22:
            return 2
        if u < 0.75:
            return self.int(3, 40)
        if u < 1 - big - 0.04:
            return self.int(41, 300)
        if u < 1 - big:
            return self.int(300, 5000)
        return self.int(17000, 140000)


# ------------------------------------------------------------------------------------------------
# worker: runs a static shard of (case, idx) tasks and reports JSON lines
# ------------------------------------------------------------------------------------------------

def build_tasks(tier, only=None, scale=1.0):
    per = []
    for c in CASES.values():
        if only and c.name not in only:
            continue
        n = c.n if tier == "quick" else int(c.n * c.thorough)
        n = max(1, int(n * scale))
        per.append((c.name, n))
    tasks = []
    for name, n in per:
        for i in range(n):
            tasks.append(((i + 0.5) / n, name, i))
    tasks.sort()
    return [(name, i) for _, name, i in tasks]


def run_case(prop, cname, idx, seed):
    """-> (record dict)"""
    c = CASES[cname]
    m = Mon(prop, cname, idx)
    r = R((seed, prop, cname, idx))
    np.random.seed(int(r.g.integers(2**31)))
    rec = {"case": cname, "idx": idx}
    t = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                c.fn(m, r)
    except Violation as v:
        rec.update(status="violation", what=v.what, detail=v.detail, mech=v.mech, ctx={k: short(x, 2000) for k, x in m.ctx.items()})
    except (MemoryError, Inconclusive, TimeoutCase) as e:
        rec.update(status="inconclusive", what=f"{type(e).__name__}: {e}")
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN):
            rec.update(status="inconclusive", what=f"{type(e).__name__}: {e}")
        else:
            rec.update(status="violation", what=f"unexpected {type(e).__name__}: {e}", detail={"tb": traceback.format_exc()[-1500:]}, mech=None, ctx={k: short(x, 2000) for k, x in m.ctx.items()})
    except Exception as e:
        rec.update(status="violation", what=f"observation not interpretable: {type(e).__name__}: {str(e)[:300]}", detail={"tb": traceback.format_exc()[-2500:]}, mech=None,
                   ctx={k: short(x, 2000) for k, x in m.ctx.items()})
    else:
        rec["status"] = "ok"
    rec["t"] = time.time() - t
    rec["oracles"] = m.oracles
    rec["events"] = dict(m.events)
    rec["sig"] = hashlib.sha1(repr((cname, m.sig)).encode()).hexdigest()[:16]
    rec["trivial"] = bool(m.trivial or m.oracles == 0)
    if idx < 2:
        rec["sample"] = {"case": cname, "idx": idx, "inputs": {k: s for k, s in m.sig[:8]}, "events": dict(m.events), "oracles": m.oracles}
    return rec


class TimeoutCase(BaseException):
    pass


def _alarm(signum, frame):
    raise TimeoutCase("case watchdog")
