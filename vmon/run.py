"""python -m vmon.run <property> [--replay FILE] [--cases N] [--only IDX]

exit 0: held on everything observed; exit 1: VIOLATION line; exit 2: inconclusive."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np

from vmon import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VMON_REPO", "/repo"))
LEVEL = "exploration"


class Hang(BaseException):
    pass


def _hang(signum, frame):
    raise Hang()


def case_rng(seed, prop, idx):
    return np.random.default_rng([seed & 0xFFFFFFFF, int(prop[1:]), idx])


def run_one(mod, ctx, idx):
    """Runs one case. Returns None, or a dict that describes a violation."""
    rng = case_rng(ctx.seed, ctx.prop, idx)
    ctx.note = {}
    ctx.cases += 1
    # CPU time of this process, not wall-clock: a busy machine cannot trigger it
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CASE_CPU_S", 150))
    try:
        mod.case(ctx, rng, idx)
        return None
    except core.Violation as v:
        return {"what": v.what, "detail": v.detail, "note": ctx.note}
    except Hang as h:
        return {"what": "no answer within the step budget (CPU time) of a case", "detail": {"frames": traceback.format_tb(h.__traceback__)[-6:]}, "note": ctx.note}
    except (MemoryError, core.Inconclusive, KeyboardInterrupt):
        raise
    except Exception as e:  # inputs are well formed and oracles total: the code under test raised, or answered nonsense
        d = core.describe_exception(e, REPO)
        what = ("raised %s: %s" if d["in_repo"] else "answer could not be interpreted (%s: %s)") % (d["type"], d["message"][:200])
        return {"what": what, "detail": d, "note": ctx.note}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def worker(mod, ctx, indices, stop, out):
    signal.signal(signal.SIGVTALRM, _hang)
    viol = []
    err = None
    try:
        for idx in indices:
            if stop.is_set():
                break
            v = run_one(mod, ctx, idx)
            if v is not None:
                v["idx"] = idx
                viol.append(v)
                stop.set()
                break
    except BaseException as e:
        err = "".join(traceback.format_exception(e))[-3000:]
        stop.set()
    out.send({"events": ctx.events, "kinds": ctx.kinds, "samples": ctx.samples, "known": ctx.known,
              "known_n": ctx.known_n, "cases": ctx.cases, "viol": viol, "err": err})
    out.close()


def load_findings(prop):
    keys = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(t.split("=", 1) for t in line.split()[1:3])
                if f.get("property") == prop:
                    keys[f["key"]] = line.split(None, 3)[3]
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a.replay:
        r = json.load(open(a.replay))
        seed, tier = r["seed"], r["tier"]
        a.only = r["idx"]
    t0 = time.time()
    scratch = os.environ.get("VMON_SCRATCH") or "/tmp"

    try:
        import pybbn
        where = os.path.realpath(pybbn.__file__)
        if not where.startswith(REPO + "/"):
            raise ImportError("pybbn imported from %s" % where)
        mod = importlib.import_module("vmon.checks." + prop.lower())
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s cannot import the code under test" % prop)
        return 2

    n = a.cases or mod.CASES[tier]
    jobs = a.jobs or getattr(mod, "JOBS", 0) or max(1, min(8, os.cpu_count() or 1))
    indices = [a.only] if a.only is not None else sorted(range(n), key=lambda i: (i * 2654435761) % (1 << 32))   # spread periodic heavy cases
    jobs = min(jobs, len(indices))
    ctxs = [core.Ctx(prop, tier, seed, scratch) for _ in range(jobs)]
    if hasattr(mod, "setup"):
        mod.setup(tier, seed)
    mpc = mp.get_context("fork")
    stop = mpc.Event()
    procs, pipes = [], []
    for w in range(jobs):
        r, s = mpc.Pipe(duplex=False)
        p = mpc.Process(target=worker, args=(mod, ctxs[w], indices[w::jobs], stop, s), daemon=False)
        p.start()
        s.close()
        procs.append(p)
        pipes.append(r)
    deadline = t0 + (800 if tier == "quick" else 6 * 3600)
    results, errors = [], []
    for p, r in zip(procs, pipes):
        try:
            if r.poll(max(0.0, deadline - time.time())):
                results.append(r.recv())
            else:
                errors.append("watchdog: worker gave no result in time")
        except EOFError:
            errors.append("worker died (exit code %s)" % p.exitcode)
    for p in procs:
        p.join(1 if errors else 20)
        if p.is_alive():
            p.kill()

    ctx = core.Ctx(prop, tier, seed, scratch)
    viol = []
    for res in results:
        ctx.events.update(res["events"])
        ctx.kinds |= res["kinds"]
        ctx.samples += res["samples"]
        ctx.cases += res["cases"]
        ctx.known_n.update(res["known_n"])
        for k, v in res["known"].items():
            ctx.known.setdefault(k, v)
        viol += res["viol"]
        if res["err"]:
            errors.append(res["err"])
    viol.sort(key=lambda v: v["idx"])

    listed = load_findings(prop)
    for k in ctx.known:
        if k not in listed:
            viol.append({"what": "finding not listed in known_findings.txt: %s (%s)" % (k, ctx.known[k]), "detail": {}, "idx": -1, "note": {}})

    floors = getattr(mod, "FLOORS", {})
    low = []
    if a.only is None and not a.cases:
        for k, v in floors.items():
            if ctx.events[k] < v:
                low.append("%s: %d < %d" % (k, ctx.events[k], v))
        if ctx.events["assertions"] == 0 or len(ctx.kinds) < getattr(mod, "MIN_DISTINCT", 10):
            low.append("assertions %d, distinct cases %d" % (ctx.events["assertions"], len(ctx.kinds)))

    cov = {"evaluations": max(ctx.cases, ctx.events["evaluations"]), "distinct_nontrivial": len(ctx.kinds), "rule": mod.RULE,
           "samples": ctx.samples[:3], "events": dict(sorted(ctx.events.items())),
           "known_findings_seen": dict(ctx.known_n)}
    if a.only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        core.dump(os.path.join(HERE, "evidence", prop + ".json"),
                  {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
                   "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
                   "violations": len(viol), "verdict": "violated" if viol else ("inconclusive" if errors or low else "held on what was observed")})
    print("property=%s tier=%s seed=%d cases=%d distinct=%d assertions=%d wall=%.1fs" % (
        prop, tier, seed, ctx.cases, len(ctx.kinds), ctx.events["assertions"], time.time() - t0))
    print("events: " + ", ".join("%s=%d" % kv for kv in sorted(ctx.events.items())))

    if viol:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for v in viol[:3]:
            path = os.path.join(d, "%s-s%d-%s-%d.json" % (prop, seed, tier, v["idx"]))
            core.dump(path, dict(v, property=prop, seed=seed, tier=tier))
            print("what: %s" % v["what"])
            print("detail: %s" % json.dumps(core.jsonable(v["detail"]))[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or low:
        for e in errors:
            print("INCONCLUSIVE property=%s %s" % (prop, e))
        for e in low:
            print("INCONCLUSIVE property=%s too little observed: %s" % (prop, e))
        return 2
    for k in sorted(listed):
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, listed[k], ctx.known_n[k]))
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
