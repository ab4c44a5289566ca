"""python -m rv.run PROP [--case NAME] [--idx N] [--seed S] [--tier T] [--all] [--scale F]

Drives the workers for one property, collects what the monitors observed, writes the evidence file and
decides the verdict: exit 0 held, 1 violation, 2 inconclusive (error of the check)."""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time
from collections import Counter, defaultdict

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    for e in json.load(open(p))["findings"]:
        if e["property"] == prop and e.get("status", "known") == "known":
            out[e["mechanism"]] = e
    return out


# how often each case of a property runs in the quick tier, as a multiple of its own n (about 10 to 50 s per property on 8 cores)
QUICK = {"C01": 4, "C05": 3, "C07": 3, "C08": 3, "C11": 2, "C12": 4, "C13": 1.5, "C15": 4, "C16": 5, "C17": 4, "C18": 5, "C23": 2.5, "C27": 2, "C28": 1}
HANG = 110  # seconds; the slowest workload takes a few seconds per case, numba compilation included


class Shard:
    def __init__(self, args, k, n, tmp, deadline, env):
        self.args, self.k, self.n, self.env, self.deadline = args, k, n, env, deadline
        self.out = os.path.join(tmp, f"shard{k}.jsonl")
        open(self.out, "w").close()
        self.pos = 0
        self.buf = ""
        self.cur = None
        self.done = False
        self.start = 0
        self.crashes = 0
        self.spawn()

    def spawn(self):
        a = self.args
        cmd = [sys.executable, "-m", "rv.worker", a.prop, a.tier, str(a.seed), str(self.k), str(self.n), self.out, str(self.start), str(self.deadline),
               json.dumps(a.case) if a.case else "null", str(a.scale)]
        self.err = open(self.out + ".err", "w")
        self.p = subprocess.Popen(cmd, cwd=HERE, env=self.env, stdout=None if os.environ.get("RV_SHOW") == "1" else subprocess.DEVNULL, stderr=self.err, start_new_session=True)

    def read(self):
        with open(self.out) as f:
            f.seek(self.pos)
            data = f.read()
            self.pos = f.tell()
        self.buf += data
        lines = self.buf.split("\n")
        self.buf = lines.pop()
        return [json.loads(l) for l in lines if l]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--case", action="append")
    ap.add_argument("--idx", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("RV_WORKERS", "8")))
    ap.add_argument("--show", type=int, default=12)
    ap.add_argument("--times", action="store_true")
    a = ap.parse_args()
    if a.scale is None:
        a.scale = QUICK.get(a.prop, 8) if a.tier == "quick" and a.idx is None else 1.0
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.idx is not None:                     # replay of one case, in this process
        os.environ.setdefault("NUMBA_CACHE_DIR", tempfile.mkdtemp(prefix="rvnb"))
        from rv import core, registry
        registry.load(a.prop)
        rec = core.run_case(a.prop, a.case[0], a.idx, a.seed)
        print(json.dumps(rec, indent=1, default=str))
        sys.stdout.flush()
        os._exit(1 if rec["status"] == "violation" else 0 if rec["status"] == "ok" else 2)

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"rv-{a.prop}-")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MALLOC_PERTURB_="181", PYTHONFAULTHANDLER="1", HOME=os.path.join(tmp, "home"), TMPDIR=tmp,
               NUMBA_CACHE_DIR=os.path.join(tmp, "numba"), NUMBA_NUM_THREADS="2", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TZ="UTC",
               PYTHONPATH=os.pathsep.join([HERE] + [x for x in [os.environ.get("RV_EXTRA_PATH")] if x]), RV_SCRATCH=os.path.join(tmp, "scratch"))
    os.makedirs(env["HOME"]); os.makedirs(env["RV_SCRATCH"])
    budget = 520 if a.tier == "quick" else 5400
    deadline = t0 + budget
    known = known_findings(a.prop)
    shards = [Shard(a, k, a.workers, tmp, deadline, env) for k in range(a.workers)]
    st = defaultdict(Counter)
    percase = Counter(); pertime = Counter(); caseorc = Counter()
    events = Counter(); sigs = set(); samples = []
    viol = []; kn = defaultdict(list); inconc = []; left = 0; crash = []; evals = 0; oracles = 0
    stop = False
    try:
        while not stop and not all(s.done for s in shards):
            time.sleep(0.05)
            for s in shards:
                if s.done:
                    continue
                dead = s.p.poll() is not None
                for rec in s.read():
                    k = rec["status"]
                    if k == "begin":
                        s.cur = rec
                        s.since = time.time()
                    elif k == "done":
                        s.done = True
                    elif k == "deadline":
                        left += rec["left"]
                    elif k == "import":
                        print(rec["tb"])
                        inconc.append(rec); stop = True; s.done = True
                    else:
                        s.cur = None
                        s.start = rec["k"] + 1
                        evals += 1
                        oracles += rec["oracles"]
                        percase[rec["case"]] += 1
                        caseorc[rec["case"]] += rec["oracles"]
                        pertime[rec["case"]] += rec["t"]
                        events.update(rec["events"])
                        if not rec["trivial"]:
                            sigs.add(rec["sig"])
                        if rec.get("sample") and rec["idx"] == 0:
                            samples.append(rec["sample"])
                        if k == "violation":
                            if rec.get("mech") in known:
                                kn[rec["mech"]].append(rec)
                            else:
                                viol.append(rec)
                                if not a.all:
                                    stop = True
                        elif k == "inconclusive":
                            inconc.append(rec)
                hung = not dead and not s.done and s.cur is not None and time.time() - s.since > HANG
                if hung:
                    s.kill()
                    dead = True
                if dead and not s.done:
                    if s.cur is not None:           # the process died inside a case
                        c = s.cur
                        s.cur = None
                        s.crashes += 1
                        # confirm in a fresh process before believing it
                        try:
                            rc = subprocess.run([sys.executable, "-m", "rv.run", a.prop, "--case", c["case"], "--idx", str(c["idx"]), "--seed", str(a.seed)],
                                                cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=HANG if hung else 300).returncode
                        except subprocess.TimeoutExpired:
                            rc = "none"
                        if hung:
                            rec = {"case": c["case"], "idx": c["idx"], "what": f"the case does not finish within {HANG} s, rerun exit {rc}", "detail": {}, "ctx": {}, "mech": "hang:" + c["case"]}
                            bad = rc == "none" or rc < 0 or rc == 1
                        else:
                            rec = {"case": c["case"], "idx": c["idx"], "what": f"interpreter killed (exit {s.p.returncode}) inside the case; rerun exit {rc}", "detail": {"stderr": open(s.out + ".err").read()[-1500:]}, "ctx": {}, "mech": "crash:" + c["case"]}
                            bad = rc != "none" and (rc < 0 or rc == 1)
                        if bad:
                            if rec["mech"] in known:
                                kn[rec["mech"]].append(rec)
                            else:
                                viol.append(rec)
                                if not a.all:
                                    stop = True
                        else:
                            inconc.append(rec)
                        s.start = c["k"] + 1
                        if s.crashes < 4:
                            s.spawn()
                        else:
                            s.done = True
                    else:
                        inconc.append({"what": f"worker {s.k} died (exit {s.p.returncode}) outside a case: " + open(s.out + ".err").read()[-800:]})
                        s.done = True
    finally:
        for s in shards:
            s.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(ev, "replays")):
        if f.startswith(a.prop + "-"):
            os.remove(os.path.join(ev, "replays", f))
    rule = ("each evaluation is one seeded execution of a named workload against /repo's riptable; distinct_nontrivial counts executions whose generated "
            "inputs (digest of the noted inputs) are distinct and in which at least one oracle was evaluated on a non-empty observation")
    doc = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
           "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": rule, "samples": samples[:8],
                        "oracle_evaluations": oracles, "api_events": sum(events.values()), "events_by_operation": dict(events.most_common(400)),
                        "executions_by_workload": dict(percase), "not_run_before_deadline": left, "inconclusive": len(inconc),
                        "known_findings_observed": {k: len(v) for k, v in kn.items()}},
           "assumptions": ["riptide_cpp 1.19.0 (prebuilt, not in the repository) is the engine under riptable; oracles are NumPy and plain Python"],
           "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(doc, open(os.path.join(ev, a.prop + ".json"), "w"), indent=1, default=str)

    for mech in known:
        n = len(kn.get(mech, []))
        if n:
            print(f"KNOWN-FINDING: property={a.prop} {mech}: {known[mech]['what']} (seen {n}x)")
    print(f"{a.prop} {a.tier} seed={a.seed}: {evals} executions, {len(sigs)} distinct, {oracles} oracle evaluations, {sum(events.values())} API events, {len(viol)} violations, {len(inconc)} inconclusive, {left} left, {time.time()-t0:.1f}s")
    if a.times:
        for c, t in pertime.most_common():
            print(f"   {c:40s} n={percase[c]:5d} {t:8.1f}s  {1000*t/percase[c]:7.1f} ms  oracles={caseorc[c]}")
    seen = Counter()
    for v in viol:
        key = (v["case"], v["what"][:60])
        seen[key] += 1
        rp = os.path.join(ev, "replays", f"{a.prop}-{v['case']}-{v['idx']}-s{a.seed}.json")
        v["replay"] = f"cd /verif && ./check {a.prop} --case {v['case']} --idx {v['idx']} --seed {a.seed}"
        json.dump(v, open(rp, "w"), indent=1, default=str)
        if seen[key] <= 2 and sum(1 for k in seen) <= a.show:
            print(f"VIOLATION property={a.prop} replay={rp}")
            print(f"   {v['case']}[{v['idx']}] {v['what']}\n      ctx={json.dumps(v.get('ctx'), default=str)[:1500]}\n      detail={json.dumps(v.get('detail'), default=str)[:1800]}")
    if viol:
        if a.all:
            for k, n in seen.most_common():
                print("  ", n, k)
        return 1
    if inconc:
        for i in inconc[:5]:
            print("INCONCLUSIVE", {k: i.get(k) for k in ("case", "idx", "what")})
    silent = [c for c in percase if caseorc[c] == 0]
    # a few watchdog hits are reported, not decisive; a run that observed too little decides nothing
    if silent or evals == 0 or len(inconc) > max(3, evals // 50):
        print("INCONCLUSIVE: workloads without an evaluated oracle:", silent, "inconclusive cases:", len(inconc))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
