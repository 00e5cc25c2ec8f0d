#!/opt/venv/bin/python
"""Decides one property: ``check.py C02 [--replay FILE]``.

Proof obligations are generated from /repo's current source and discharged (pyvc); the same contracts are evaluated at
run time on the real, uninstrumented code as the bounded stand-in and to replay counter-models.
"""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
TRUSTED = [
    "pyvc (verification condition generator in /verif/pyvc: symbolic execution by CPython, loop summaries proved inductive)",
    "CPython 3.12 semantics of the executed constructs; mechanical instrumentation described in pyvc/loader.py",
    "z3 5.3 and cvc5 1.1 (unsat answers), polynomial normal form of pyvc/terms.py",
    "numpy function table of pyvc/symnp.py as the contract of numpy",
]
ASSUME = [
    "machine integers are treated as mathematical integers",
    "floating point is treated as exact real arithmetic (rounding, overflow, NaN and infinities are not modelled)",
    "numpy, scipy and numba behave as the contracts in pyvc/symnp.py state (numba JIT disabled while proving)",
]


def run_worker(mode, prop, req=None, jobs=4, tier="quick"):
    fd, out = tempfile.mkstemp(suffix=".json", prefix="pyvc")
    os.close(fd)
    args = [PY, os.path.join(HERE, "pyvc", "worker.py"), mode, prop, out]
    reqf = None
    if req is not None:
        fd, reqf = tempfile.mkstemp(suffix=".json", prefix="pyvcreq")
        with os.fdopen(fd, "w") as f:
            json.dump(req, f)
        args.append(reqf)
    env = dict(os.environ, PYVC_JOBS=str(jobs), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=os.path.join(tempfile.gettempdir(),
                                                                                           "pyvc_numba"))
    p = subprocess.Popen(args, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, out, reqf


def finish(h):
    p, out, reqf = h
    txt, _ = p.communicate()
    try:
        with open(out) as f:
            d = json.load(f)
    except (OSError, ValueError):
        d = {"import_error": f"worker failed (exit {p.returncode})", "trace": txt[-3000:]}
    for f in (out, reqf):
        if f and os.path.exists(f):
            os.unlink(f)
    return d


def tree_id():
    repo = os.environ.get("PYVC_REPO", "/repo")
    try:
        r = subprocess.run(["git", "-C", repo, "diff", "HEAD"], capture_output=True, timeout=30)
        return hashlib.sha1(r.stdout).hexdigest()[:12]
    except Exception:  # noqa: BLE001
        return "unknown"


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
        os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ.setdefault("VERIF_SEED", "1")
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    t0 = time.time()
    hs = run_worker("sym", prop, jobs=int(os.environ.get("PYVC_SYM_JOBS", "5")), tier=tier)
    hc = run_worker("conc", prop, jobs=int(os.environ.get("PYVC_CONC_JOBS", "3")), tier=tier)
    sym, conc = finish(hs), finish(hc)
    if conc.get("import_error"):
        print("ERROR: contracts could not be loaded:", conc["import_error"])
        print(conc.get("trace", ""))
        return 2
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    repdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    violations, notes, kfound = [], [], []

    def report(contract, obligation, detail, rep, found):
        for k in known:
            if k["contract"] == contract and k["obligation"] == obligation:
                if k["what"] not in kfound:
                    kfound.append(k["what"])
                return
        n = len(violations)
        path = os.path.join(repdir, f"{prop}_{n}.json")
        rep = dict(rep, property=prop, contract=contract, obligation=obligation, detail=detail, tree=tree_id(),
                   how=f"cd /verif && ./check.py {prop} --replay {path}")
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        violations.append((path, found, f"{contract}: {obligation}: {detail}"))

    # run-time contracts
    res_c = conc.get("results", {})
    for name, r in res_c.items():
        for f in r.get("fails", []):
            report(name, f["obligation"], f["detail"], {"kind": "run-time contract", "seed": seed,
                                                        "iteration": f["iteration"], "planned": r["planned"],
                                                        "tier": tier, "inputs": f["inputs"]}, True)
        if r["status"] == "aborted":
            notes.append(f"bounded check of '{name}' aborted: {r.get('why')}")
    # proofs
    res_s = sym.get("results", {})
    if sym.get("import_error"):
        notes.append("proof obligations could not be generated: " + str(sym["import_error"]))
    refuted = [(n, o, v) for n, r in res_s.items() for o, v in r.get("obls", {}).items() if v["status"] == "refuted"]
    if refuted:
        reqs, where = [], []
        for n, o, v in refuted:
            for m in v["refuted"]:
                if isinstance(m.get("inputs"), dict) and not any(
                        isinstance(x, str) and x.startswith("?") for x in m["inputs"].values()):
                    reqs.append({"contract": n, "values": m["inputs"]})
                    where.append((n, o, m))
        rr = finish(run_worker("conc", prop, {"replay": reqs}, tier=tier)).get("results", {}) if reqs else {}
        confirmed = set()
        for j, (n, o, m) in enumerate(where):
            r = rr.get(str(j), {})
            if r.get("status") == "failed":
                confirmed.add((n, o))
                report(n, r["obligation"], r["detail"], {"kind": "counter-model replayed on the real code",
                                                         "values": m["inputs"], "refuted_obligation": o},
                       n not in conc.get("proof_only", []))
        proved_before = {}
        pf = os.path.join(HERE, "proved.json")
        if os.path.exists(pf):
            proved_before = json.load(open(pf)).get(prop, {})
        conc_failed = {n for n, r in res_c.items() if r.get("fails")}
        for n, o, v in refuted:
            if (n, o) in confirmed or n in conc_failed or any(c == n for c, _ in confirmed):
                continue
            m = v["refuted"][0]
            if m.get("exact") and proved_before.get(n) == "proved":
                report(n, o, f"obligation refuted by the solver: {m}", {"kind": "failed obligation",
                                                                        "verifier_output": v}, False)
            else:
                notes.append(f"'{n}': obligation '{o}' not discharged; counter-model did not reproduce (undecided)")
    for n, r in res_s.items():
        if r["status"] not in ("proved", "refuted"):
            notes.append(f"'{n}' undecided: {r.get('why')}")
    # evidence
    obl = sum(len(r.get("obls", {})) for r in res_s.values()) + sum(
        1 for r in res_s.values() if r["status"] in ("undecided", "aborted"))
    dis = sum(1 for r in res_s.values() for v in r.get("obls", {}).values() if v["status"] == "proved")
    inst = sum(v["proved"] for r in res_s.values() for v in r.get("obls", {}).values())
    back = {}
    for r in res_s.values():
        for v in r.get("obls", {}).values():
            for b, c in v["backends"].items():
                back[b] = back.get(b, 0) + c
    funcs = sorted({f for r in res_s.values() if r["status"] == "proved" for f in r.get("functions", [])})
    modes = conc.get("modes", {})
    level = "proof" if any(m == "proof" for m in modes.values()) else "exploration"
    ev = sum(r.get("evaluations", 0) for r in res_c.values())
    cov = {
        "obligations": obl, "discharged": dis, "obligation_instances_discharged": inst,
        "checker_cmd": f"./check.py {prop}", "trusted_base": TRUSTED, "back_ends": back,
        "solver_time_s": round(sum(r.get("solver_time", 0) for r in res_s.values()), 2),
        "paths": sum(r.get("paths", 0) for r in res_s.values()),
        "reachable_contracts": sum(1 for r in res_s.values() if r.get("covered")),
        "functions_under_contract": funcs,
        "contracts": {n: {"mode": modes.get(n), "status": res_s.get(n, {}).get("status", "bounded only"),
                          "obligations": {o: v["status"] for o, v in res_s.get(n, {}).get("obls", {}).items()},
                          "wall_s": res_s.get(n, {}).get("wall"),
                          "bound": conc.get("bound", {}).get(n, ""), "note": conc.get("note", {}).get(n, ""),
                          "bounded_evaluations": res_c.get(n, {}).get("evaluations", 0)} for n in modes},
        "evaluations": ev,
        "distinct_nontrivial": sum(r.get("distinct", 0) for r in res_c.values()),
        "rule": "bounded stand-in (never counted as proved): inputs drawn per contract from VERIF_SEED within the caps in "
                "/verif/contracts; a case is non-trivial when its preconditions hold and its inputs were not drawn before",
        "samples": [s for r in res_c.values() for s in r.get("samples", [])][:6],
        "undecided": notes,
    }
    assumed = sorted({a for r in res_s.values() for a in r.get("assumed", [])})
    evid = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": ASSUME + assumed + [f"bounded: {n}: {conc.get('bound', {}).get(n) or 'sampled inputs'}"
                                               for n, m in modes.items() if m == "bounded"],
            "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evid, f, indent=1)
    for n in notes:
        print("NOTE:", n[:600])
    for k in kfound:
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop}: {dis}/{obl} obligations discharged ({inst} instances), {ev} bounded evaluations, "
          f"{round(time.time() - t0, 1)} s")
    if "--record" in sys.argv:
        pf = os.path.join(HERE, "proved.json")
        d = json.load(open(pf)) if os.path.exists(pf) else {}
        d[prop] = {n: r["status"] for n, r in sorted(res_s.items())}
        with open(pf, "w") as f:
            json.dump(dict(sorted(d.items())), f, indent=1, sort_keys=True)
            f.write("\n")
    if violations:
        for path, found, msg in violations[1:]:
            print("also:", msg[:500])
        path, found, msg = sorted(violations, key=lambda v: not v[1])[0]
        print(msg[:1500])
        print(f"VIOLATION property={prop} replay={path}" + ("" if found else " no-failing-input-found"))
        return 1
    if not ev and not dis:
        print("ERROR: nothing was checked")
        return 2
    return 0


def replay(prop, path):
    rep = json.load(open(path))
    if rep["kind"] == "failed obligation":
        d = finish(run_worker("sym", prop, {"only": [rep["contract"]]}))
        print(json.dumps(d.get("results", d), indent=1)[:4000])
        return 1
    req = {"contract": rep["contract"]}
    if "values" in rep:
        req["values"] = rep["values"]
    else:
        req.update({k: rep[k] for k in ("seed", "iteration", "planned", "tier")})
    d = finish(run_worker("conc", prop, {"replay": [req]}))
    r = d.get("results", {}).get("0", d)
    print(json.dumps(r, indent=1)[:4000])
    return 1 if r.get("status") == "failed" else 0


if __name__ == "__main__":
    sys.exit(main())
