"""Command line: decide one property."""
import argparse
import json
import os
import sys
import time
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _init():
    pass


def _work(args):
    from .explore import explore
    try:
        return explore(*args)
    except BaseException as e:
        import traceback
        return {"harness": args[1], "cfg": args[2], "crash": traceback.format_exc()[-1500:] + repr(e)}


def worker(inq, outq):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    while True:
        job = inq.get()
        if job is None:
            return
        i, args = job
        outq.put(("start", i, os.getpid(), None))
        outq.put(("done", i, os.getpid(), _work(args)))


def load_known(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid and not k.get("fixed"):
                    out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--cfg", default=None)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--inline", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    total = {"quick": 300, "thorough": 820}[tier]
    deadline = t0 + total
    sys.path.insert(0, HERE)
    from . import loader, h
    loader.install()
    sys.setrecursionlimit(5000)
    import lie_nn  # noqa: the rewritten modules
    for m in ("lie_nn._src.jax_utils",):
        try:
            __import__(m)
        except ImportError:
            pass
    check = pid.lower()
    hs = h.load(check)
    known = load_known(pid)
    tasks = []
    for name, H in hs.items():
        if a.only and a.only not in name:
            continue
        for cfg in H.cfgs(tier):
            if a.cfg and a.cfg not in json.dumps(cfg):
                continue
            tasks.append((H.opts.get("prio", 0), name, cfg))
    tasks.sort(key=lambda t: -t[0])
    results = []
    if a.inline:
        for _, name, cfg in tasks:
            r = _work((check, name, cfg, tier, seed, deadline, known))
            results.append(r)
            show(r, a.v)
    else:
        results = pool(tasks, check, tier, seed, deadline, known, a)
    return report(pid, tier, seed, t0, hs, tasks, results, known, a)


def show(r, v):
    if not v:
        return
    if "crash" in r:
        print("CRASH", r["harness"], r["cfg"], r["crash"])
        return
    s = r["stats"]
    print(f"{r['harness']} {json.dumps(r['cfg'])} paths={s['paths']} obl={s['obligations']} q={s['queries']} solver={s['solver_s']:.1f}s wall={r['wall']:.1f}s ok={r['validated']} skip={r['skipped']} inconc={r['n_inconclusive']}" + (" VIOL" if r["violation"] else ""), flush=True)
    for m in sorted(set(s["inconclusive"]))[:6]:
        print("    ?", m)
    for u in r.get("unreproduced", [])[:3]:
        print("    unreproduced", json.dumps(u)[:600])
    if r["violation"]:
        print("    ", json.dumps(r["violation"])[:1500])


def pool(tasks, check, tier, seed, deadline, known, a):
    ctx = mp.get_context("fork")
    n = min(a.j, max(1, len(tasks)))
    outq = ctx.Queue()
    jobs = list(enumerate(tasks))
    jobs.reverse()
    workers = {}

    def spawn():
        q = ctx.Queue()
        p = ctx.Process(target=worker, args=(q, outq), daemon=False)
        p.start()
        workers[p.pid] = [p, q, None, None]
        feed(p.pid)

    def feed(pid):
        w = workers[pid]
        if jobs and time.time() < deadline:
            i, (_, name, cfg) = jobs.pop()
            w[2], w[3] = i, time.time()
            w[1].put((i, (check, name, cfg, tier, seed, deadline, known)))
        else:
            w[2] = None
            w[1].put(None)

    for _ in range(n):
        spawn()
    results = {}
    import queue
    stop = False
    while any(w[2] is not None for w in workers.values()) and not stop:
        try:
            kind, i, pid, r = outq.get(timeout=1)
        except queue.Empty:
            now = time.time()
            for pid, w in list(workers.items()):
                if w[2] is None:
                    continue
                dead = not w[0].is_alive()
                over = now - w[3] > {"quick": 150, "thorough": 330}[tier] or now > deadline + 20
                if dead or over:
                    if not dead:
                        w[0].kill()
                    _, name, cfg = tasks[w[2]]
                    results[w[2]] = {"harness": name, "cfg": cfg, "crash": "killed: time limit" if not dead else "worker ended (memory?)", "killed": True}
                    del workers[pid]
                    if jobs and now < deadline:
                        spawn()
            continue
        if kind == "start":
            continue
        results[i] = r
        show(r, a.v)
        if r.get("violation"):
            stop = True
        if pid in workers and not stop:
            feed(pid)
    for w in workers.values():
        if stop:
            w[0].kill()
        else:
            w[0].join(timeout=5)
            if w[0].is_alive():
                w[0].kill()
    for i, (_, name, cfg) in jobs:
        if not stop:
            results[i] = {"harness": name, "cfg": cfg, "crash": "not started: time limit", "killed": True}
    return [results[i] for i in sorted(results)]


def report(pid, tier, seed, t0, hs, tasks, results, known, a):
    from . import loader
    ok = [r for r in results if "crash" not in r]
    crashes = [r for r in results if "crash" in r]
    tot = lambda k: sum(r["stats"][k] for r in ok)
    viol = [r["violation"] for r in ok if r["violation"]]
    inconc = {}
    for r in ok:
        for m in r["stats"]["inconclusive"]:
            key = f"{r['harness']}: {m}"[:200]
            inconc[key] = inconc.get(key, 0) + 1
    for r in crashes:
        key = f"{r['harness']} {json.dumps(r['cfg'])}: {r['crash'][-160:]}"
        inconc[key] = inconc.get(key, 0) + 1
    funcs = sorted(set().union(*[set(r["funcs"]) for r in ok]) if ok else set())
    funcs = [f for f in funcs if "<lambda>" not in f and "<genexpr>" not in f and "<module>" not in f]
    per = {}
    for r in ok:
        s = r["stats"]
        d = per.setdefault(r["harness"], {"tasks": 0, "paths": 0, "obligations": 0, "queries": 0, "solver_s": 0.0, "inconclusive": 0, "replayed_ok": 0, "bounds": hs[r["harness"]].bounds})
        d["tasks"] += 1
        d["paths"] += s["paths"]
        d["obligations"] += s["obligations"]
        d["queries"] += s["queries"]
        d["solver_s"] = round(d["solver_s"] + s["solver_s"], 2)
        d["inconclusive"] += r["n_inconclusive"]
        d["replayed_ok"] += r["validated"]
    samples = [x for r in ok[:: max(1, len(ok) // 6)] for x in r["samples"][:1]][:8]
    assumed = sorted({k for r in ok for k in r["stats"]["assumed"]})
    obligations = tot("obligations") if ok else 0
    validated = sum(r["validated"] for r in ok)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("branches") if ok else 0,
            "transitions": tot("branches") if ok else 0,
            "traces_validated_against_impl": validated,
            "samples": samples,
            "explanation": "symbolic execution of the current source of /repo: states = explored paths plus branch points decided by the solver, transitions = branch decisions, "
                           "traces_validated = paths whose solver witness was run on the unmodified library with the same assertions",
            "paths": tot("paths") if ok else 0, "assertions": obligations, "queries": tot("queries") if ok else 0,
            "queries_unsat": tot("unsat") if ok else 0, "queries_sat": tot("sat") if ok else 0, "queries_unknown": tot("unknown") if ok else 0,
            "solver_s": round(tot("solver_s"), 2) if ok else 0, "encoded_terms": tot("terms") if ok else 0,
            "inconclusive": sum(inconc.values()), "inconclusive_reasons": dict(sorted(inconc.items(), key=lambda x: -x[1])[:25]),
            "functions_encoded": funcs, "harnesses": per, "tasks": len(tasks), "tasks_finished": len(ok),
            "sources": loader.SOURCES,
        },
        "assumptions": ["real arithmetic stands for IEEE doubles; tolerances up to 1e-3 are read as exact comparisons (the real run of every witness covers rounding)"] + assumed,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only and not a.cfg:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in sorted({k for r in ok for k in r["known"]}):
        print(f"KNOWN-FINDING: property={pid} {k}")
    print(f"{pid} {tier}: {len(ok)}/{len(tasks)} tasks, {ev['coverage']['paths']} paths, {obligations} assertions, {ev['coverage']['queries']} queries, "
          f"solver {ev['coverage']['solver_s']}s, {validated} witnesses run on the real code, {sum(inconc.values())} inconclusive, {ev['wall_s']}s")
    if inconc and a.v:
        for k, n in sorted(inconc.items(), key=lambda x: -x[1])[:25]:
            print("  inconclusive", n, k)
    if viol:
        v = viol[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}-{v['harness']}.json")
        with open(path, "w") as f:
            json.dump(dict(v, check=pid.lower(), property=pid), f, indent=1)
        print(f"  {v['harness']} {json.dumps(v['cfg'])}: {v['found']}; real run: {json.dumps(v['failures'])[:400]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if not ok or obligations == 0:
        print("no assertion was reached")
        for r in crashes[:3]:
            print(r["crash"])
        return 2
    bad = [r for r in crashes if not r.get("killed")]
    if bad:
        print("internal error", bad[0]["harness"], bad[0]["crash"])
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
