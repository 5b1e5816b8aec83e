"""Decides one property: every contract registered for it is proved symbolically and
cross-checked concretely; writes the evidence file and prints the verdict."""
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "real arithmetic: IEEE-754 doubles are treated as mathematical reals plus nan/+inf/-inf; int64 as mathematical integers (the constants INT64_MIN/MAX are exact)",
    "array sizes are below 2**40",
    "numpy, astropy.units, astropy.table, astropy.coordinates, scipy and tqdm behave as the contracts in engine/npshim.py, units.py, tables.py, shims.py say (cross-checked against the genuine libraries on every run by the concrete cases)",
    "the engine (engine/*.py: term normaliser, aggregate axioms, loop rule, path enumeration) and CPython's own execution of the functions' statements are trusted",
]


class HardLimit(BaseException):
    pass


def _alarm(sig, fr):
    raise HardLimit()


def load_contracts():
    sys.path.insert(0, ROOT) if ROOT not in sys.path else None
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module(f"contracts.{m}")
    from engine import harness
    return harness


def job(args):
    """one contract; everything the verdict needs as plain data"""
    name, tier, seed = args
    t0 = time.time()
    out = {"contract": name, "status": None, "obligations": [], "failures": [], "notes": [], "assumptions": []}
    try:
        H = load_contracts()
        from engine import logic as L
        cls = next(c for c in H.REGISTRY if c.__name__ == name)
        out["target"] = cls.target
        out["covers"] = list(cls.covers)
        out["assumptions"] = list(cls.assumes)
        try:
            H.real(cls.target)
        except (AttributeError, ModuleNotFoundError) as e:
            out["status"] = "absent"
            out["notes"].append(f"target does not exist: {e!r}")
            return out
        rep = None
        if not cls.bounded:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(int(cls.limit * (1.5 if tier == "quick" else 3)) + 10)
            try:
                rep = H.run_symbolic(cls)
            except HardLimit:
                rep = H.SymReport()
                rep.unsupported = "wall-clock limit of the symbolic run"
            finally:
                signal.alarm(0)
            st = L.STATS
            out["solver"] = {"z3_queries": st.queries, "z3_s": round(st.z3_time, 3), "portfolio_s": round(st.cvc5_time, 3), "cvc5_proved": st.cvc5_proved}
            out["obligations"] = [o.row() for o in rep.obs]
            out["paths"] = rep.paths
            out["normal_paths"] = rep.normal
            out["raising_paths"] = rep.raised
            out["symbolic_s"] = round(rep.secs, 2)
            out["assumptions"] += sorted(rep.assumptions)
            if rep.error:
                out["notes"].append(rep.error)
        n = cls.samples[0 if tier == "quick" else 1]
        failed = rep.failed if rep else []
        weak = bool(cls.bounded) or rep is None or rep.unsupported or rep.error
        # standing concrete check of the genuine function
        found = None
        for o in failed:
            found = H.replay_model(cls, o)
            if found:
                break
        if found is None:
            con = H.run_concrete(cls, n * (3 if weak else 1) if tier == "quick" else n, seed, 40 if tier == "quick" else 200)
            out["concrete"] = {"ran": con.ran, "rejected": con.rejected, "secs": round(con.secs, 2)}
            found = con.failure
            if found is None and failed:
                # contract-directed search for an input behind the failed obligation
                con = H.run_concrete(cls, n * 12, seed + 7919, 60)
                out["concrete"]["search_ran"] = con.ran
                found = con.failure
        if found is not None:
            out["failures"].append({"condition": found.name, "detail": found.detail, "inputs": _plain(found.log), "how": found.how, "replayed": True})
        elif failed and all(o.doubt for o in failed):
            # only the library model raises, the genuine library does not: no verdict
            rep.unsupported = "the library model raises where the genuine library was not seen to: " + failed[0].doubt
        elif failed:
            o = next(o for o in failed if not o.doubt)
            m = ""
            if o.res is not None and o.res.model is not None:
                m = str(o.res.model)[:3000]
            out["failures"].append({"condition": o.name, "path": o.path, "detail": f"solver: {o.status}; goal {repr(o.goal)[:3000]}", "model": m, "replayed": False})
        if out["failures"]:
            out["status"] = "violated"
        elif cls.bounded:
            out["status"] = "bounded"
            out["notes"].append(f"bounded by design: {cls.bounded}")
        elif rep.unsupported or rep.error:
            out["status"] = "bounded"
            out["notes"].append(f"outside the engine: {rep.unsupported or rep.error}")
        elif not rep.obs:
            out["status"] = "bounded"
            out["notes"].append("no obligation was generated")
        else:
            out["status"] = "proved"
        if out["status"] != "violated" and out.get("concrete", {}).get("ran", 0) == 0:
            out["status"] = "error"
            out["notes"].append("no concrete case satisfied the precondition (vacuous contract)")
    except HardLimit:
        out["status"] = "error"
        out["notes"].append("hard limit")
    except Exception as e:
        out["status"] = "error"
        out["notes"].append("".join(traceback.format_exception(e))[-3000:])
    out["secs"] = round(time.time() - t0, 2)
    return out


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (int, float, str, bool, type(None))):
        return x if x == x and x not in (float("inf"), float("-inf")) else repr(x)
    return repr(x)


def known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop and e["status"] == "open"]


def main(prop, tier, seed):
    t0 = time.time()
    H = load_contracts()
    names = [c.__name__ for c in H.REGISTRY if c.prop == prop or prop in getattr(c, "also", ())]
    if not names:
        print(f"no contract is registered for {prop}", file=sys.stderr)
        return 2
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, len(names)), maxtasksperchild=1) as pool:
        res = list(pool.imap_unordered(job, [(n, tier, seed) for n in names], chunksize=1))
    res.sort(key=lambda r: names.index(r["contract"]))
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    obs = [o for r in res for o in r["obligations"]]
    ok = [o for o in obs if o["status"] == "proved"]
    kn = known(prop)
    viol, errors = [], []
    for r in res:
        if r["status"] == "error":
            errors.append(r)
        for f in r["failures"]:
            e = next((e for e in kn if e["contract"] == r["contract"] and e["condition"] == f["condition"]), None)
            if e is not None:
                continue
            viol.append((r, f))
    backends = {}
    for o in ok:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    by = lambda s: [f"{r['contract']} -> {r.get('target')}" for r in res if r["status"] == s]
    level = LEVEL(res)
    ran = sum(r.get("concrete", {}).get("ran", 0) for r in res)
    cov = {
        "obligations": len(obs), "discharged": len(ok),
        "checker_cmd": f"/opt/venv/bin/python /verif/check.py {prop} --tier {tier}",
        "trusted_base": ["z3 (python z3-solver of /opt/veriftools)", "cvc5 1.1.2 (fallback)", "engine/*.py of /verif", "assumed contracts on numpy/astropy/scipy (engine/npshim.py, units.py, tables.py, shims.py)", "CPython 3.12"],
        "backends": backends,
        "functions_under_contract": sorted({r.get("target") for r in res if r.get("target")} | {x for r in res for x in r.get("covers", [])}),
        "contracts_proved": by("proved"), "contracts_bounded": by("bounded"), "contracts_absent": by("absent"),
        "bounded_reasons": {r["contract"]: r["notes"] for r in res if r["status"] == "bounded"},
        "paths": sum(r.get("paths", 0) for r in res), "normal_paths": sum(r.get("normal_paths", 0) for r in res),
        "solver": {k: round(sum(r.get("solver", {}).get(k, 0) for r in res), 3) for k in ("z3_queries", "z3_s", "cvc5_s", "cvc5_proved")},
        "evaluations": ran,
        "distinct_nontrivial": ran,
        "rule": "seeded random and boundary-directed inputs satisfying the contract's precondition, run through the genuine function and judged by the same postconditions (cross-check of the engine; bounded stand-in where the engine does not apply)",
        "contracts": [{k: r.get(k) for k in ("contract", "target", "status", "paths", "normal_paths", "raising_paths", "symbolic_s", "concrete", "notes", "secs")} | {"obligations": len(r["obligations"])} for r in res],
        "undischarged": [o for o in obs if o["status"] != "proved"],
        "samples": [o for o in obs[:5]],
        "explanation": "contracts on the real functions of /repo, executed symbolically from their current source; see DESIGN.md",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUMPTIONS + sorted({a for r in res for a in r["assumptions"]}), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for e in kn:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    for r in res:
        print(f"  {r['contract']:34s} {r['status']:9s} obligations {len(r['obligations']):4d}  concrete {r.get('concrete', {}).get('ran', 0):5d}  {r.get('secs', 0):6.1f}s  {'; '.join(r['notes'])[:200]}")
    print(f"{prop}: {len(ok)}/{len(obs)} obligations discharged, {ran} concrete cases, {ev['wall_s']} s")
    for r, f in viol:
        path = os.path.join(ROOT, "evidence", "replay", f"{prop}-{r['contract']}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "contract": r["contract"], "target": r.get("target"), **f,
                       "reproduce": f"/opt/venv/bin/python /verif/check.py {prop} --only {r['contract']}"}, fh, indent=1, default=str)
        print(f"  violated: {r['contract']} ({r.get('target')}): {f['condition']}: {str(f['detail'])[:300]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if f["replayed"] else " no-failing-input-found"))
    if viol:
        return 1
    if errors:
        for r in errors:
            print("error:", r["contract"], *r["notes"], file=sys.stderr)
        return 2
    return 0


def LEVEL(res):
    return "proof" if any(r["status"] == "proved" for r in res) else "exploration"
