#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--unit SUBSTR]: decide one property on /repo's current tree."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from symex.sched import Sched   # noqa: E402


def worker(job):
    prop, unit, deadline, paths, seed = job
    from symex.explore import explore
    mod = importlib.import_module("props." + prop.lower())
    fn = mod.unit_fn(unit)
    try:
        return explore(unit, fn, deadline, paths, seed)
    except BaseException as e:      # engine failure: an error of the check, never a verdict
        import traceback
        return (unit, traceback.format_exc())


def replay(prop, unit, inputs, n):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{n}.json")
    json.dump({"property": prop, "unit": unit, "inputs": inputs}, open(path, "w"), indent=1)
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "symex.replay", path], cwd=HERE, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return path, {"failures": [{"label": "does not terminate (60 s)", "key": "hang", "info": {}}]}
    try:
        r = json.loads(p.stdout)
    except ValueError:
        if "RecursionError" in p.stderr or p.returncode < 0:
            return path, {"failures": [{"label": p.stderr[-300:], "key": "crash", "info": {}}]}
        return path, {"failures": [], "error": p.stderr[-1000:]}
    json.dump({"property": prop, "unit": unit, "inputs": inputs, "report": r}, open(path, "w"), indent=1)
    return path, r


def known(prop):
    keys = {}
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for f in json.load(open(p))["findings"]:
            if f["property"] == prop:
                keys[f["key"]] = f["what"]
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit", default="")
    ap.add_argument("--jobs", type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = a.budget or (float(os.environ.get("SYMEX_BUDGET", 0)) or (300 if a.tier == "quick" else 3000))
    deadline = t0 + budget
    mod = importlib.import_module("props." + prop.lower())
    units = [(n, u) for n, u in mod.U.units.items() if a.tier in u[1] and a.unit in n]
    jobs = [(prop, n, deadline, u[2], seed) for n, u in units]
    results, errors = [], []
    confirmed, inconclusive, knownhits = [], [], {}
    keys = known(prop)
    nrep = 0
    seen_labels = {}
    sched = Sched(worker, jobs, a.jobs, deadline)
    try:
        for job, r in sched.results():
            if r is None:
                r = (job[1], "the worker process was lost or did not answer in time")
            if isinstance(r, tuple):
                errors.append(r)
                continue
            results.append(r)
            if a.v:
                print(f"  {r.unit}: paths={r.paths} pruned={r.pruned} checks={r.checks} q={r.queries} "
                      f"({r.sat}/{r.unsat}/{r.unknown}) solver={r.solver_s:.1f}s wall={r.wall:.1f}s "
                      f"complete={r.complete} cand={len(r.candidates)} mism={len(r.mismatch)} div={r.divergences} "
                      f"aborts={r.aborts} pin={r.concretized}", flush=True)
                for m in r.mismatch[:2]:
                    print("     MISMATCH", m)
            for label, inputs, info in r.candidates:
                k = (r.unit, label)
                if seen_labels.get(k, 0) >= 3 or nrep > 60:
                    continue
                seen_labels[k] = seen_labels.get(k, 0) + 1
                nrep += 1
                path, rep = replay(prop, r.unit, inputs, nrep)
                new = [f for f in rep["failures"] if f["key"] not in keys]
                if new:
                    confirmed.append((path, new, r.unit, inputs))
                elif rep["failures"]:
                    for f in rep["failures"]:
                        knownhits[f["key"]] = keys[f["key"]]
                else:
                    inconclusive.append((r.unit, label, inputs, rep.get("error")))
            if confirmed:
                break
    finally:
        sched.stop()
    ndone = sum(r.checks for r in results)
    for u, e in errors:
        print(f"ERROR unit {u}: {e}", file=sys.stderr)
    for m in (m for r in results for m in r.mismatch[:1]):
        print("NOTE symbolic run and plain run differ:", json.dumps(m)[:400], file=sys.stderr)
    for u, label, inputs, e in inconclusive[:10]:
        print(f"INCONCLUSIVE {u}: solver candidate '{label}' does not reproduce on the real code: "
              f"{json.dumps(inputs)[:300]} {e or ''}", file=sys.stderr)
    wall = time.time() - t0
    funcs = sorted(set().union(*[r.functions for r in results])) if results else []
    cov = {
        "states": sum(r.paths for r in results),
        "transitions": sum(r.branches for r in results),
        "traces_validated_against_impl": sum(r.validated for r in results) - sum(len(r.mismatch) for r in results),
        "second_models_validated": sum(r.second for r in results),
        "samples": [dict(unit=r.unit, **s) for r in results[:12] for s in r.samples[:1]],
        "units": len(results),
        "units_fully_explored": sum(r.complete for r in results),
        "exhaustive": bool(results) and all(r.complete for r in results) and not inconclusive and not errors,
        "truncated_units": [r.unit for r in results if not r.complete],
        "paths_pruned_by_assumptions": sum(r.pruned for r in results),
        "paths_reaching_an_obligation": sum(r.paths_with_checks for r in results),
        "obligations": ndone,
        "solver_queries": sum(r.queries for r in results),
        "solver_sat": sum(r.sat for r in results),
        "solver_unsat": sum(r.unsat for r in results),
        "solver_unknown": sum(r.unknown for r in results),
        "solver_seconds": round(sum(r.solver_s for r in results), 2),
        "values_pinned": sum(r.concretized for r in results),
        "divergences": sum(r.divergences for r in results),
        "path_aborts": {k: sum(r.aborts.get(k, 0) for r in results) for k in set().union(*[set(r.aborts) for r in results])} if results else {},
        "inconclusive_candidates": len(inconclusive),
        "symbolic_plain_mismatches": sum(len(r.mismatch) for r in results),
        "functions_encoded": funcs,
        "bounds": getattr(mod, "BOUNDS", ""),
    }
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON,
          "wall_s": round(wall, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for k, what in sorted(knownhits.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop} [{a.tier}] units={len(results)}/{len(jobs)} complete={cov['units_fully_explored']} paths={cov['states']} "
          f"obligations={ndone} queries={cov['solver_queries']} solver={cov['solver_seconds']}s wall={wall:.1f}s "
          f"inconclusive={len(inconclusive)} mismatches={cov['symbolic_plain_mismatches']}")
    if confirmed:
        path, fails, unit, inputs = confirmed[0]
        for f in fails[:3]:
            print(f"  {unit}: {f['label']} {json.dumps(f['info'])[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors and len(errors) == len(jobs):
        return 2
    if ndone == 0:
        print("ERROR: no obligation was reached (vacuous run)", file=sys.stderr)
        return 2
    if errors or inconclusive or cov["symbolic_plain_mismatches"]:
        # part of the exploration gave no answer; it is excluded from what the run claims
        print(f"NOTE: {len(errors)} unit errors, {len(inconclusive)} inconclusive candidates (see stderr); "
              "those paths are not part of the claim")
        if os.environ.get("SYMEX_STRICT"):
            return 2
    return 0


COMMON = [
    "CPython, the TatSu parser runtime and the standard library behave as documented; ipaddress and datetime are executed "
    "symbolically from their own source (constant hashes, no netmask cache), fnmatch through a symbolic regex matcher, the XML "
    "parser copies symbolic text through unchanged",
    "address and number texts inside configuration lines are their canonical renderings and a grammar pattern treats all "
    "renderings of a kind alike (the lexical property checks this)",
]

if __name__ == "__main__":
    sys.exit(main())
