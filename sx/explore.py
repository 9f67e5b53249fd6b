"""Explores one task (harness x configuration) in a worker process."""
import functools
import json
import os
import subprocess
import sys
import time
import traceback
from . import engine as E
from . import num as N
from . import h

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_real = [None]
FUNCS = set()
LRU = type(functools.lru_cache(lambda: 0))


def real_server(fresh=False):
    if fresh or _real[0] is None or _real[0].poll() is not None:
        env = dict(os.environ, PYTHONPATH=HERE)
        p = subprocess.Popen([sys.executable, "-m", "sx.real"], cwd=HERE, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True, env=env)
        line = p.stdout.readline()
        if line.strip() != "ready":
            raise RuntimeError("the real library cannot be loaded")
        if fresh:
            return p
        _real[0] = p
    return _real[0]


def close_server(p):
    try:
        p.stdin.close()
        p.wait(timeout=5)
    except Exception:
        p.kill()


def replay_real(check, name, cfg, values, fresh=False, limit=60, seeds=(0,)):
    for attempt in range(2):
        p = real_server(fresh)
        try:
            p.stdin.write(json.dumps({"check": check, "harness": name, "cfg": cfg, "values": values, "limit": limit, "seeds": list(seeds)}) + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
            if not line:
                raise OSError("real server died")
            return json.loads(line)
        except OSError:
            if not fresh:
                _real[0] = None
            if attempt:
                return {"status": "error", "failures": [["server", "died"]], "checks": 0}
        finally:
            if fresh:
                close_server(p)


def monitor():
    m = sys.monitoring
    if m.get_tool(4) is None:
        m.use_tool_id(4, "sx")
        repo = os.path.join(os.environ.get("SX_REPO", "/repo"), "lie_nn") + os.sep

        def cb(code, off):
            if code.co_filename.startswith(repo):
                FUNCS.add(code.co_filename[len(repo):] + ":" + code.co_qualname)
            return m.DISABLE
        m.register_callback(4, m.events.PY_START, cb)
        m.set_events(4, m.events.PY_START)


_mods = {}


def snapshot_modules():
    for n, mod in list(sys.modules.items()):
        if n == "lie_nn" or n.startswith("lie_nn."):
            for k, v in vars(mod).items():
                if isinstance(v, (dict, list, set)) and not k.startswith("__"):
                    _mods[(n, k)] = (v, v.copy())


def restore_modules():
    for (n, k), (v, c) in _mods.items():
        if type(v) is list:
            v[:] = c
        elif isinstance(v, (dict, set)):
            v.clear()
            v.update(c)
    for n, mod in list(sys.modules.items()):
        if n == "lie_nn" or n.startswith("lie_nn."):
            for v in list(vars(mod).values()):
                if isinstance(v, LRU):
                    v.cache_clear()
                elif isinstance(v, type) and v.__module__ == n:
                    for u in list(vars(v).values()):
                        u = getattr(u, "__func__", u)
                        if isinstance(u, LRU):
                            u.cache_clear()


def explore(check, name, cfg, tier, seed, deadline, known, opts=None):
    """returns a result dict"""
    from .ctx import SymCtx
    hs = h.load(check)
    H = hs[name]
    o = dict(H.opts)
    t0 = time.time()
    if not _mods:
        snapshot_modules()
    monitor()
    FUNCS.clear()
    sys.monitoring.restart_events()
    limit = o.get("limit", {"quick": 150, "thorough": 700}[tier])
    eng = E.Engine(seed=seed, deadline=min(deadline, t0 + limit), branch_ms=o.get("branch_ms", 4000), oblig_ms=o.get("oblig_ms", 20000))
    st = eng.st
    out = {"harness": name, "cfg": cfg, "violation": None, "known": [], "witness_fail": None, "samples": [], "validated": 0, "skipped": 0}
    seen_replays = 0
    maxrep = o.get("max_replays", {"quick": 40, "thorough": 200}[tier])
    done = 0
    while eng.stack:
        if time.time() > eng.deadline:
            st.inconclusive.append(f"time limit: {len(eng.stack)} paths not explored")
            break
        prefix = eng.stack.pop()
        restore_modules()
        eng.start_path(prefix)
        cand = None
        ended = True
        try:
            H.fn(SymCtx(eng), **cfg)
        except E.PathEnd:
            ended = False
        except E.Budget:
            st.inconclusive.append("time limit inside a path")
            eng.stack.append(prefix)
            break
        except E.Found as f:
            cand = f.info
        except N.Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "lie_nn" in f.filename][-2:]
            st.inconclusive.append(f"not encodable: {e} {' '.join(where)}")
            cand = {"label": "unsupported", "model": eng.settled_values(), "why": str(e), "soft": True}
        except MemoryError:
            st.inconclusive.append("memory limit")
            break
        except RecursionError:
            if os.environ.get("SX_TB"):
                traceback.print_exc(limit=-14)
            st.inconclusive.append("recursion limit")
            cand = {"label": "unsupported", "model": eng.settled_values(), "why": "recursion", "soft": True}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
            if h.internal_missing(e, tb):
                st.inconclusive.append(f"internal helper not found: {e}")
                continue
            cand = {"label": "exception", "model": safe_values(eng), "why": f"{type(e).__name__}: {str(e)[:160]} at {' '.join(where)}"}
        st.inconclusive.extend(eng.inconc)
        if not ended:
            continue
        st.paths += 1
        vals = cand["model"] if cand else safe_values(eng)
        if cand is None and seen_replays >= maxrep and done % 10:
            done += 1
            continue
        done += 1
        seen_replays += 1
        st.replays += 1
        ismark = cand is not None and not cand.get("soft")
        r = replay_real(check, name, cfg, vals, fresh=ismark, seeds=(0, 1, 2), limit=o.get("real_limit", 60))
        if len(out["samples"]) < 2:
            out["samples"].append({"harness": name, "cfg": cfg, "inputs": dict(list(vals.items())[:12]), "real": r["status"]})
        if r["status"] == "fail":
            labels = sorted({f[0] for f in r["failures"]})
            v = {"harness": name, "cfg": cfg, "values": vals, "failures": r["failures"], "found": cand["why"] if cand else "solver witness of the path, assertion fails on the real code",
                 "label": cand["label"] if cand else labels[0]}
            kf = match_known(known, name, cfg, vals, r["failures"])
            if kf is not None:
                if kf not in out["known"]:
                    out["known"].append(kf)
                continue
            if not (cand and not cand.get("soft")):
                # confirm a witness failure in a fresh process
                r2 = replay_real(check, name, cfg, vals, fresh=True, seeds=(0, 1, 2))
                if r2["status"] != "fail":
                    # depends on what ran before in the same process: keep it as a history-dependent finding only if repeatable
                    st.inconclusive.append("a failure on the real code was not repeatable")
                    continue
            out["violation"] = v
            break
        if r["status"] == "ok":
            out["validated"] += 1
        elif r["status"] == "skip":
            out["skipped"] += 1
        elif r["status"] in ("timeout", "error"):
            st.inconclusive.append("real run: " + r["status"])
        if ismark:
            st.inconclusive.append(f"counterexample not reproduced ({r['status']}): {cand['label']}: {cand['why']}")
            out.setdefault("unreproduced", []).append({"cfg": cfg, "cand": {k: cand[k] for k in ("label", "why")}, "values": dict(list(vals.items())[:20])})
        if st.paths >= o.get("max_paths", 20000):
            st.inconclusive.append("path limit")
            break
    out["stats"] = st.asdict()
    out["stats"]["inconclusive"] = st.inconclusive[:50]
    out["n_inconclusive"] = len(st.inconclusive)
    out["funcs"] = sorted(FUNCS)
    out["fallbacks"] = dict(E.FALLBACKS)
    out["wall"] = time.time() - t0
    return out


def safe_values(eng):
    try:
        if eng.dirty:
            eng.settle()
        return eng.input_values()
    except BaseException:
        return {}


def match_known(known, name, cfg, vals, failures):
    for k in known:
        m = k.get("match", {})
        if m.get("harness") not in (None, name):
            continue
        if any(cfg.get(a) != b for a, b in m.get("cfg", {}).items()):
            continue
        if any(vals.get(a) != str(b) for a, b in m.get("values", {}).items()):
            continue
        if "failure" in m and not any(m["failure"] in " ".join(f) for f in failures):
            continue
        return k["what"]
    return None
