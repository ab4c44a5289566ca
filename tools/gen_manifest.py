"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {re.match(r"(c\d+)_", os.path.basename(p)).group(1).upper() for p in glob.glob(H + "/rv/props/c*_*.py")}
checks, na = [], []
for line in open(H + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "runtime monitoring: seeded hostile workloads on the real library, recorded API events judged by independent NumPy/Python oracles, crash and mutation monitors",
                       "level": "exploration",
                       "level_note": "Holds on every execution observed (counts, distinct inputs and oracle evaluations in the evidence file); inputs outside the generated families are not covered. Trusts NumPy/pandas and the oracle code in rv/; riptide_cpp 1.19.0 is observed through riptable, not rebuilt."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
