"""Runs the contracts of one property: ``worker.py sym|conc PROPERTY OUT.json`` (forks one child per contract)."""
from __future__ import annotations
import importlib
import io
import json
import os
import resource
import select
import signal
import sys
import time
import traceback
import warnings


def jsonable(v):
    import numpy as np
    if isinstance(v, (bool, int, str, type(None))):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, complex):
        return [v.real, v.imag]
    if isinstance(v, np.generic):
        return jsonable(v.item())
    if isinstance(v, np.ndarray):
        if np.iscomplexobj(v):
            return {"re": v.real.ravel().tolist(), "im": v.imag.ravel().tolist()}
        return v.ravel().tolist()
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    return repr(v)[:200]


def pool(jobs, run, parallel, limit_of):
    """Forks one process per job; returns {job: result}.  A child that dies or overruns yields an 'aborted' result."""
    results, running, queue = {}, {}, list(jobs)
    while queue or running:
        while queue and len(running) < parallel:
            j = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    try:
                        out = run(j)
                    except BaseException as ex:  # noqa: BLE001
                        out = {"status": "aborted", "why": f"{type(ex).__name__}: {ex}"[:500],
                               "trace": traceback.format_exc()[-1500:]}
                    data = json.dumps(out).encode()
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                except BaseException:  # noqa: BLE001
                    code = 1
                os._exit(code)
            os.close(w)
            running[pid] = [j, r, b"", time.time() + limit_of(j)]
        fds = {v[1]: p for p, v in running.items()}
        ready, _, _ = select.select(list(fds), [], [], 0.25)
        now = time.time()
        for fd in ready:
            p = fds[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                running[p][2] += chunk
            else:
                j, _, data, _ = running.pop(p)
                os.close(fd)
                os.waitpid(p, 0)
                try:
                    results[j] = json.loads(data)
                except ValueError:
                    results[j] = {"status": "aborted", "why": "worker ended without a result"}
        for p in list(running):
            if now > running[p][3]:
                j, fd, _, _ = running.pop(p)
                for kill in (lambda: os.killpg(p, signal.SIGKILL), lambda: os.kill(p, signal.SIGKILL)):
                    try:
                        kill()
                    except OSError:
                        pass
                os.close(fd)
                os.waitpid(p, 0)
                results[j] = {"status": "aborted", "why": "time limit"}
    return results


def run_symbolic(h, tier):
    from . import api, terms as T, loader
    from .engine import Engine, Budget, Refuted
    SymVC = api.make_symvc()
    o = h.opts
    limit = o.get("limit", 40) * (4 if tier == "thorough" else 1)
    e = Engine(time_limit=limit, prove_ms=o.get("prove_ms", 6000) * (3 if tier == "thorough" else 1),
               must_ms=o.get("must_ms", 400), max_paths=o.get("max_paths", 4000), stop_on_refuted=True)
    e.summarise_from = o.get("summarise_from")
    res = {"status": "ok", "why": ""}
    funcs = set()

    def body():
        vc = SymVC(e, tier)
        try:
            h.fn(vc)
        except (T.Unsupported, Budget, Refuted, RecursionError, MemoryError):
            raise
        except T.PathEnd:
            raise
        except T.z3.Z3Exception as ex:
            raise T.Unsupported(f"solver interface: {ex}")
        except Exception as ex:  # noqa: BLE001
            tb = traceback.extract_tb(ex.__traceback__)
            if "RecursionError" in str(ex) or any("/z3/" in f.filename for f in tb[-1:]):
                raise T.Unsupported(f"engine: {type(ex).__name__}: {str(ex)[:80]}")
            if any("/pyvc/" in f.filename for f in tb[-1:]) and not isinstance(
                    ex, (ValueError, IndexError, TypeError, ZeroDivisionError, KeyError)):
                raise T.Unsupported(f"engine: {type(ex).__name__}: {ex} "
                                    + " <- ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-5:])))
            where = " <- ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-5:]))
            e.prove("terminates normally", T.z3.BoolVal(False), f"{type(ex).__name__}: {ex} at {where}")
    prof = Tracker(loader.REPO, funcs)
    prof.start()
    t = time.time()
    try:
        e.explore(body)
    except Refuted as ex:
        res["status"], res["why"] = "refuted", str(ex)
    except Budget as ex:
        res["status"], res["why"] = "undecided", str(ex)
    except T.Unsupported as ex:
        res["status"] = "undecided"
        tb = traceback.extract_tb(ex.__traceback__)
        res["why"] = f"outside the covered fragment: {ex} [" + " <- ".join(
            f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-6:])) + "]"
    except (RecursionError, MemoryError) as ex:
        res["status"], res["why"] = "undecided", type(ex).__name__
    finally:
        prof.stop()
    obls = {}
    for n, ob in e.obls.items():
        st = "refuted" if ob.refuted else "unknown" if ob.unknown else "proved"
        obls[n] = {"status": st, "instances": ob.proved + len(ob.refuted) + len(ob.unknown), "proved": ob.proved,
                   "backends": ob.backend, "time": round(ob.time, 3), "refuted": jsonable(ob.refuted[:2]),
                   "unknown": ob.unknown[:2]}
    if res["status"] == "ok":
        if any(x["status"] == "unknown" for x in obls.values()):
            res["status"], res["why"] = "undecided", "solver answered unknown"
        elif not obls:
            res["status"], res["why"] = "undecided", "no obligation was generated"
        elif not e.covered:
            res["status"], res["why"] = "undecided", "no path shown reachable (vacuity guard)"
        else:
            res["status"] = "proved"
    res.update(obls=obls, paths=e.paths, completed=e.completed, covered=e.covered, queries=e.queries,
               solver_time=round(e.solver_time, 2), wall=round(time.time() - t, 2), assumed=sorted(e.assumed),
               functions=sorted(funcs), loops=e.loop_count)
    return res


class Tracker:
    """Records which repository functions an obligation executed (sys.monitoring, each code object once)."""

    def __init__(self, repo, out):
        self.root = os.path.join(repo, "hermespy") + "/"
        self.out = out

    def start(self):
        m = sys.monitoring
        m.use_tool_id(m.PROFILER_ID, "pyvc")
        m.register_callback(m.PROFILER_ID, m.events.PY_START, self.hit)
        m.set_events(m.PROFILER_ID, m.events.PY_START)

    def hit(self, c, off):
        if c.co_filename.startswith(self.root) and not c.co_name.startswith(("_pyvc_", "<")):
            self.out.add(c.co_filename[len(self.root):] + ":" + c.co_qualname.replace(".<locals>", ""))
        return sys.monitoring.DISABLE

    def stop(self):
        m = sys.monitoring
        m.set_events(m.PROFILER_ID, 0)
        m.free_tool_id(m.PROFILER_ID)


def run_bounded(h, tier, seed, budget):
    from . import api
    o = h.opts
    n = o.get("n", 150) * (10 if tier == "thorough" else 1)
    t0 = time.time()
    done = disc = checks = 0
    distinct = set()
    samples = []
    fails = []
    known = []
    for i in range(n):
        if time.time() - t0 > budget:
            break
        st, vc, f = api.run_concrete(h, seed, i, n, tier=tier)
        if st == "discard":
            disc += 1
            continue
        done += 1
        checks += vc.checked
        key = json.dumps(jsonable(vc.drawn), sort_keys=True)
        if key not in distinct:
            distinct.add(key)
            if len(samples) < 2 and len(key) < 600:
                samples.append({"contract": h.name, "inputs": jsonable(vc.drawn)})
        known += [k for k in vc.known if k not in known]
        if st == "failed":
            fails.append({"iteration": i, "obligation": f[0], "detail": f[1], "inputs": jsonable(vc.drawn)})
            if len(fails) >= 3:
                break
    return {"status": "failed" if fails else "ok", "evaluations": done, "discarded": disc, "checks": checks,
            "distinct": len(distinct) if True else 0, "samples": samples, "fails": fails, "wall": round(time.time() - t0, 2),
            "planned": n, "known": known}


def run_values(h, values, tier):
    from . import api
    st, vc, f = api.run_concrete(h, 0, 0, 1, values=values, tier=tier)
    return {"status": st, "obligation": f[0] if f else None, "detail": f[1] if f else None,
            "inputs": jsonable(vc.drawn)}


def main():
    mode, prop, outfile = sys.argv[1:4]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    req = json.load(open(sys.argv[4])) if len(sys.argv) > 4 else {}
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(here, "pyvc")]
    warnings.simplefilter("ignore")
    os.environ["MPLBACKEND"] = "Agg"
    from pyvc import loader, worker as W
    loader.install(mode == "sym")
    t0 = time.time()
    out = {"import_error": None}
    err = sys.stderr
    try:
        sys.stderr = io.StringIO()
        importlib.import_module(f"contracts.{prop.lower()}")
    except BaseException as ex:  # noqa: BLE001
        out["import_error"] = f"{type(ex).__name__}: {ex}"
        out["trace"] = traceback.format_exc()[-3000:]
    finally:
        sys.stderr = err
    out["import_s"] = round(time.time() - t0, 2)
    if out["import_error"] is None:
        from pyvc.api import REGISTRY
        hs = {h.name: h for h in REGISTRY.get(prop, [])}
        only = req.get("only")
        if only:
            hs = {k: h for k, h in hs.items() if k in only}
        par = int(os.environ.get("PYVC_JOBS", "4"))
        if mode == "sym":
            jobs = [k for k, h in hs.items() if h.mode == "proof"]
            jobs.sort(key=lambda k: -hs[k].opts.get("limit", 40))
            out["results"] = W.pool(jobs, lambda k: W.run_symbolic(hs[k], tier), par,
                                    lambda k: (hs[k].opts.get("limit", 40) * (4 if tier == "thorough" else 1)) * 1.5 + 30)
        elif "replay" in req:
            jobs = list(range(len(req["replay"])))
            out["results"] = {str(k): v for k, v in W.pool(
                jobs, lambda j: W.run_values(hs[req["replay"][j]["contract"]], req["replay"][j]["values"], tier)
                if "values" in req["replay"][j] else W.run_iter(hs[req["replay"][j]["contract"]],
                                                               req["replay"][j], tier), par, lambda j: 100).items()}
        else:
            jobs = [k for k, h in hs.items() if not h.opts.get("proof_only")]
            bud = {k: hs[k].opts.get("budget", 25) * (8 if tier == "thorough" else 1) for k in jobs}
            out["results"] = W.pool(jobs, lambda k: W.run_bounded(hs[k], tier, seed, bud[k]), par,
                                    lambda k: bud[k] * 1.5 + 60)
        out["modes"] = {k: h.mode for k, h in hs.items()}
        out["proof_only"] = [k for k, h in hs.items() if h.opts.get("proof_only")]
        out["doc"] = {k: (h.fn.__doc__ or "").strip() for k, h in hs.items()}
        out["bound"] = {k: h.opts.get("bound", "") for k, h in hs.items()}
        out["note"] = {k: h.opts.get("note", "") for k, h in hs.items()}
    out["wall"] = round(time.time() - t0, 2)
    with open(outfile, "w") as f:
        json.dump(out, f)


def run_iter(h, r, tier):
    from . import api
    st, vc, f = api.run_concrete(h, r["seed"], r["iteration"], r["planned"], tier=r.get("tier", tier))
    return {"status": st, "obligation": f[0] if f else None, "detail": f[1] if f else None,
            "inputs": jsonable(vc.drawn)}


if __name__ == "__main__":
    main()
