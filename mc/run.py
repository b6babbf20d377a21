"""Check driver: explores, reports, writes the evidence file and the replay file.

    python -m mc.run <property> [quick|thorough]
    python -m mc.run --replay <file>
"""
import importlib
import json
import os
import sys
import time

from . import engine

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
MAXV = 8            # violations kept per job
SAMPLES = 6


class Result:
    """what one exploration job did"""

    def __init__(self, name):
        self.name = name
        self.states = 0
        self.transitions = 0
        self.validated = 0       # states whose model outcome was replayed on the implementation
        self.undefined = 0       # states in which the model makes no claim
        self.refused = 0         # states in which the model demands a refusal
        self.viols = []
        self.nviol = 0
        self.samples = []
        self.extra = {}

    def violation(self, sig, state, detail):
        self.nviol += 1
        if len(self.viols) < MAXV:
            self.viols.append({"sig": sig, "case": self.name, "state": engine.jsonable(state), "detail": str(detail)[:600]})

    def full(self):
        return self.nviol >= 400

    def bump(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def known_findings():
    """lines 'known: property=<id> sig=<signature> <what>'; 'fixed: ...' lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: "):
                parts = line[7:].split(None, 2)
                pid = parts[0].split("=", 1)[1]
                sig = parts[1].split("=", 1)[1]
                out[(pid, sig)] = parts[2] if len(parts) > 2 else sig
    return out


def find(pid):
    from .checks import REGISTRY
    return REGISTRY[pid]


def run(pid, tier):
    t0 = time.time()
    spec = find(pid)
    stale = os.path.join(EVID, "replay_%s.json" % pid)
    if os.path.exists(stale):
        os.remove(stale)
    jobs = spec.jobs(tier)
    raw = engine.run_jobs(jobs)
    results, crashes = [], []
    for r in raw:
        if isinstance(r, dict):
            crashes.append(r.get("crash", "?"))
        else:
            results.append(r)
    known = known_findings()
    viols, knownhit = [], {}
    nviol = 0
    for r in results:
        nviol += r.nviol
        for v in r.viols:
            if (pid, v["sig"]) in known:
                knownhit[v["sig"]] = known[(pid, v["sig"])]
                nviol -= 1
            else:
                viols.append(v)
    per = {}
    for r in results:
        p = per.setdefault(r.name, {"states": 0, "transitions": 0, "validated": 0, "no_claim": 0, "refusals": 0})
        p["states"] += r.states
        p["transitions"] += r.transitions
        p["validated"] += r.validated
        p["no_claim"] += r.undefined
        p["refusals"] += r.refused
        for k, v in r.extra.items():
            p[k] = p.get(k, 0) + v
    samples = []
    step = max(1, len(results) // SAMPLES)
    for r in results[::step]:
        if r.samples and len(samples) < SAMPLES:
            samples.append({"case": r.name, "explored": r.samples[0]})
    cov = {
        "states": sum(r.states for r in results),
        "transitions": sum(r.transitions for r in results),
        "traces_validated_against_impl": sum(r.validated for r in results),
        "no_claim_states": sum(r.undefined for r in results),
        "refusal_states": sum(r.refused for r in results),
        "exhaustive": not any(r.full() for r in results),
        "bounds": spec.bounds(tier),
        "per_case": per,
        "samples": samples,
        "checker_errors": len(crashes),
    }
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "assumptions": spec.assumptions, "violations": max(nviol, len(viols)), "wall_s": round(time.time() - t0, 2)}
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(engine.jsonable(ev), f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    for c in sorted(set(crashes))[:3]:
        sys.stderr.write("checker error (%d in all):\n%s\n" % (len(crashes), c))
    for sig, what in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s %s: %d states, %d transitions, %d replayed on the implementation, %d no-claim, %d refusals, %.1f s"
          % (pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["no_claim_states"],
             cov["refusal_states"], ev["wall_s"]))
    if viols:
        path = os.path.join(EVID, "replay_%s.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "violations": viols[:200]}, f, indent=1)
        for v in viols[:5]:
            print("  %s: %s" % (v["case"], v["detail"]))
            print("     state: %s" % json.dumps(v["state"])[:500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if crashes:
        return 3
    return 0


def replay(path):
    d = json.load(open(path))
    spec = find(d["property"])
    bad = 0
    for v in d["violations"]:
        engine._worker_init()
        print(v["case"], v["state"])
        print("   recorded:", v["detail"])
        if hasattr(spec, "replay"):
            r = spec.replay(v)
            print("   now:     ", r)
            bad += bool(r)
    return 1 if bad else 0


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(pid, tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
