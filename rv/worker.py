"""python -m rv.worker PROP TIER SEED SHARD NSHARDS OUT START [only] [scale] -- runs one shard, appends JSON lines to OUT."""
import importlib, json, os, signal, sys, time

def main():
    prop, tier, seed, shard, n, out, start, deadline = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], int(sys.argv[7]), float(sys.argv[8])
    only = json.loads(sys.argv[9]) if len(sys.argv) > 9 else None
    scale = float(sys.argv[10]) if len(sys.argv) > 10 else 1.0
    from rv import core, registry
    f = open(out, "a", buffering=1)
    try:
        registry.load(prop)
    except BaseException as e:
        import traceback
        f.write(json.dumps({"status": "import", "what": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]}) + "\n")
        return 3
    tasks = core.build_tasks(tier, only, scale)[shard::n]
    devnull = os.open(os.devnull, os.O_WRONLY)
    if os.environ.get("RV_SHOW") != "1":
        os.dup2(devnull, 1)
    for k in range(start, len(tasks)):
        if time.time() > deadline:
            f.write(json.dumps({"status": "deadline", "left": len(tasks) - k}) + "\n")
            break
        cname, idx = tasks[k]
        f.write(json.dumps({"status": "begin", "k": k, "case": cname, "idx": idx}) + "\n")
        rec = core.run_case(prop, cname, idx, seed)
        rec["k"] = k
        f.write(json.dumps(rec, default=str) + "\n")
    f.write(json.dumps({"status": "done"}) + "\n")
    return 0

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
