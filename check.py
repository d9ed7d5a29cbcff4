#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--only CONTRACT]
Decides one property: every contract of props/<PROPERTY>.py against /repo's current source.
exit 0 held / exit 1 VIOLATION.  See DESIGN.md."""
import os, sys, json, time, argparse, tempfile, shutil, signal, traceback, importlib, pickle

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
HERE = os.path.dirname(os.path.abspath(__file__))
if sys.executable != "/opt/venv/bin/python" and os.path.exists("/opt/venv/bin/python"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", *sys.argv])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(12000)


def worker(item, seed, symbolic, thorough, conn):
    import warnings

    warnings.simplefilter("ignore")
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VT_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    import numpy as np

    np.seterr(all="ignore")
    from vt import contract as C, shim, norm, real as R

    try:
        wf = item["world"] or (lambda: shim.World())
        mult = 4 if thorough else 1
        r = C.decide(item["name"], item["fn"], wf, R.real, nsamp=item["nsamp"] * mult, nstand=item["nstand"] * mult, seed=seed,
                     functions=item["functions"], symbolic=symbolic, thorough=thorough, strict=not item["symbolic"])
        d = dict(vars(r))
        d["z3_time"] = norm.Stats.z3_time if hasattr(norm.Stats, "z3_time") else 0.0
        d["by"] = dict(norm.Stats.by)
        conn.send(d)
    except BaseException as ex:
        conn.send({"name": item["name"], "status": "error", "detail": f"{type(ex).__name__}: {ex}\n{traceback.format_exc()[-1500:]}",
                   "obls": [], "samples": 0, "assumed": [], "functions": item["functions"], "wall": 0.0, "replay": None, "paths": 0, "z3_time": 0, "by": {}})
    conn.close()
    os._exit(0)


def run_all(items, seed, thorough, T_sym, T_conc, jobs):
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    todo = [(it, it["symbolic"]) for it in items]
    # longest first is unknown; keep order
    running, results = [], {}
    while todo or running:
        while todo and len(running) < jobs:
            it, symb = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(it, seed, symb, thorough, b))
            p.start()
            b.close()
            lim = (it["timeout"] or T_sym) if symb else (it["timeout"] or T_conc)
            running.append((it, symb, p, a, time.time(), lim))
        nxt = []
        for it, symb, p, a, t0, lim in running:
            got = None
            if a.poll(0):
                try:
                    got = a.recv()
                except EOFError:
                    got = "died"
            elif not p.is_alive():
                got = "died"
            elif time.time() - t0 > lim:
                got = "timeout"
            if got is None:
                nxt.append((it, symb, p, a, t0, lim))
                continue
            if p.is_alive() and isinstance(got, str):
                p.kill()
            p.join(5)
            if isinstance(got, str):
                if symb:
                    it["sym_note"] = f"symbolic stage: {got} after {time.time() - t0:.0f}s"
                    todo.insert(0, (it, False))
                else:
                    results[it["name"]] = {"name": it["name"], "status": "hang" if got == "timeout" else "error",
                                           "detail": f"concrete execution {got} ({lim}s)", "obls": [], "samples": 0, "assumed": [],
                                           "functions": it["functions"], "wall": time.time() - t0, "replay": {"inputs": "see detail"}, "paths": 0, "z3_time": 0, "by": {}}
            else:
                if it.get("sym_note"):
                    got["detail"] = it["sym_note"] + "; " + str(got["detail"])
                results[it["name"]] = got
        running = nxt
        time.sleep(0.02)
    return [results[it["name"]] for it in items]


def load_known(pid):
    p = HERE + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    thorough = a.tier == "thorough"
    mod = importlib.import_module("props." + a.pid)
    reg = mod.R
    items = [it for it in reg.items if (thorough or not it["thorough_only"]) and (not a.only or it["name"] == a.only)]
    from vt import real as R, contract as C, shim, libcheck

    scratch = tempfile.mkdtemp(prefix="vt_")
    viol, known_hit = [], []
    compiled = []
    try:
        if reg.exts:
            try:
                R.compile_exts(reg.exts, scratch)
                compiled = list(reg.exts)
            except R.CompileError as ex:
                print(f"C++ sources do not compile: {ex}", file=sys.stderr)
                sys.exit(2)
        R.setup(scratch, reg.exts)
        jobs = int(os.environ.get("VT_JOBS", min(8, os.cpu_count() or 4)))
        res = run_all(items, seed, thorough, 400 if thorough else 150, 400 if thorough else 200, jobs)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = load_known(a.pid)
    evdir = HERE + "/evidence"
    os.makedirs(evdir + "/replay", exist_ok=True)
    rc = 0
    errs = []
    for it, r in zip(items, res):
        if a.v or os.environ.get("VT_VERBOSE"):
            print(f"{r['status']:9s} {r['name']:45s} obl={sum(1 for o in r['obls'] if o[1])}/{len(r['obls'])} paths={r['paths']} samples={r['samples']} {r['wall']:.1f}s {str(r['detail'])[:300]}")
        if r["status"] == "hang":
            r["status"] = "violated"
            r["detail"] = "the call does not return: " + r["detail"]
        if r["status"] in ("violated", "undischarged"):
            k = next((k for k in known if k["contract"] == r["name"] and k["match"] in r["detail"]), None)
            if k:
                known_hit.append(k)
                continue
            rp = f"{evdir}/replay/{a.pid}-{''.join(c if c.isalnum() else '_' for c in r['name'])}.json"
            json.dump({"property": a.pid, "contract": r["name"], "functions": r["functions"], "failed": r["detail"], "replay": r["replay"],
                       "obligations": [o for o in r["obls"] if not o[1]], "seed": seed,
                       "how": f"VERIF_SEED={seed} python check.py {a.pid} --only {r['name']!r}"}, open(rp, "w"), indent=1, default=str)
            viol.append((r, rp))
        elif r["status"] == "error":
            errs.append(r)
    nob = sum(len(r["obls"]) for r in res)
    ndis = sum(1 for r in res for o in r["obls"] if o[1])
    backends = {}
    for r in res:
        for o in r["obls"]:
            if o[1]:
                backends[o[2]] = backends.get(o[2], 0) + 1
    assumed = sorted({x for r in res for x in r["assumed"]})
    lib = libcheck.check(assumed)
    if lib["bad"]:
        errs.append({"name": "library contracts", "detail": str(lib["bad"])})
    proved = [r for r in res if r["status"] == "proved"]
    bounded = [r for r in res if r["status"] == "bounded"]
    cov = {
        "obligations": nob,
        "discharged": ndis,
        "checker_cmd": f"/opt/venv/bin/python /verif/check.py {a.pid} --tier {a.tier} -v",
        "trusted_base": ["/verif/vt (symbolic evaluator of the real Python source, ring/exp-log normaliser, z3 4/5 via z3-solver)", "CPython semantics for control flow"] + ["assumed contract: " + x for x in assumed],
        "contracts": len(items),
        "contracts_proved": len(proved),
        "contracts_bounded": len(bounded),
        "functions_under_contract": sorted({f for it in items for f in it["functions"]}),
        "backends": backends,
        "solver_s": round(sum(r.get("z3_time", 0) for r in res), 2),
        "paths": sum(r["paths"] for r in res),
        "evaluations": sum(r["samples"] for r in res),
        "samples": [{"contract": r["name"], "status": r["status"], "obligations": [[o[0], bool(o[1]), o[2]] for o in r["obls"]][:12], "note": str(r["detail"])[:300], "concrete_runs": r["samples"]} for r in res],
        "extensions_compiled": compiled,
        "library_contract_crosschecks": lib["n"],
        "bounded": [{"contract": it["name"], "why": it.get("why_bounded") or str(r["detail"])[:200], "bound": it.get("cbound") or f"{r['samples']} sampled inputs, dimensions <= 8"} for it, r in zip(items, res) if r["status"] == "bounded"],
        "explanation": "Contracts on the real functions of /repo, executed symbolically from the current source; obligations marked discharged hold for all input values over the reals satisfying the contract, and for all array sizes where the contract introduces a symbolic dimension (otherwise at the small fixed sizes the contract names). Contracts listed under 'bounded' are concrete stand-ins and are not counted as proved.",
    }
    level = "proof" if proved else "exploration"
    if level == "exploration":
        cov["distinct_nontrivial"] = sum(r["samples"] for r in res)
        cov["rule"] = "each concrete run draws a fresh input from a seeded generator; runs that do not meet the precondition are not counted"
    ev = {"property": a.pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["floating point is treated as real arithmetic in symbolic obligations (concrete runs of the real code cross-check)",
                          "arrays are finite-valued; sizes are arbitrary positive integers where symbolic"] + ["library contract assumed: " + x for x in assumed],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if not a.only:
        json.dump(ev, open(f"{evdir}/{a.pid}.json", "w"), indent=1, default=str)
    for k in known_hit:
        print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    for r, rp in viol:
        print(f"  failed contract {r['name']}: {r['detail'][:600]}")
        print(f"VIOLATION property={a.pid} replay={rp}" + (" no-failing-input-found" if r["status"] == "undischarged" else ""))
        rc = 1
    print(f"{a.pid}: {len(items)} contracts, {len(proved)} proved, {len(bounded)} bounded, obligations {ndis}/{nob}, {time.time() - t0:.1f}s")
    if rc == 0 and (errs or not items):
        for e in errs:
            print(f"ERROR {e['name']}: {e['detail']}", file=sys.stderr)
        rc = 2
    sys.exit(rc)


main()
