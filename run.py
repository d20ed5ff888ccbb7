#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--unit NAME] [-v]: decide one property on /repo's current tree."""
import argparse, concurrent.futures as cf, json, os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from vf import core
from vf.units import UNITS, ASSUMPTIONS

def scan_trusted(units):
    """Mechanical scan: what the harnesses assume or stub."""
    out = []
    seen = set()
    for u in units:
        todo = [u.file]
        while todo:
            f = todo.pop()
            if f in seen: continue
            seen.add(f)
            path = os.path.join(core.HARN, f)
            try: t = open(path).read()
            except OSError: continue
            todo += [m for m in re.findall(r'#include "([^"]+)"', t) if os.path.exists(os.path.join(core.HARN, m))]
            n = len(re.findall(r"\bASSUME\(|__CPROVER_assume\(|\bnd_range\(", t))
            if n: out.append(f"harness/{f}: {n} assume/range clauses (input domain = the preconditions)")
            for m in re.findall(r"STUB: *(.*?)(?:\*/|$)", t, re.M): out.append(f"harness/{f}: stub {m.strip()}")
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit"); ap.add_argument("-v", action="store_true"); ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    units = [u for u in UNITS.get(a.prop, []) if a.tier == "thorough" or u.tier == "quick"]
    if a.unit: units = [u for u in units if re.search(a.unit, u.name)]
    if not units:
        print("no units for", a.prop); sys.exit(0)
    work = tempfile.mkdtemp(prefix=f"vf-{a.prop}-")
    outdir = os.path.join(core.VERIF, "evidence", "replays", a.prop) if not os.environ.get("VF_NOEV") else tempfile.mkdtemp(prefix="vfr-")
    shutil.rmtree(outdir, ignore_errors=True)
    try:
        with cf.ThreadPoolExecutor(a.j) as ex:
            res = list(ex.map(lambda u: u.run(work, outdir) if hasattr(u, "run") else core.run_unit(u, work, outdir), units))
    finally:
        if a.keep: print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
    known = []
    kf = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"finding: property=(\S+) unit=(\S+) obligation=/(.*)/ (.*)", l)
            if m and m.group(1) == a.prop: known.append(m.groups()[1:])
    viol = 0
    for r in res:
        u = r.unit
        if a.v or r.status not in ("proved", "bounded"):
            print(f"[{r.status:9}] {u.name}: {r.discharged}/{r.obligations} obligations, {r.wall:.1f}s solver {r.solver_s:.1f}s {r.note}")
        if a.v and r.status != "proved" and r.log: print("\n".join(l[:240] for l in r.log.split("\n") if not l.startswith("goto-cc"))[-2500:])
        if r.status == "undecided": print(f"UNDECIDED property={a.prop} unit={u.name} {r.note}")
        if r.vacuous: print(f"NOTE property={a.prop} unit={u.name} {r.note}")
        if r.status == "violated":
            for s in r.failed[:12]: print("  failed obligation:", s)
            k = [kk for kk in known if kk[0] == u.name and r.failed and all(re.search(kk[1], s) for s in r.failed)]
            if k:
                print(f"KNOWN-FINDING: property={a.prop} {k[0][2]}")
                r.status = "known-finding"
                continue
            viol += 1
            print(f"VIOLATION property={a.prop} replay={os.path.relpath(r.replay, core.VERIF)}" + ("" if r.replayed else " no-failing-input-found"))
    proved = [r for r in res if r.status == "proved"]; bnd = [r for r in res if r.status == "bounded"]
    level = "proof" if proved else "other"
    cov = {"obligations": sum(r.obligations for r in res), "discharged": sum(r.discharged for r in res),
           "checker_cmd": f"python3 run.py {a.prop} --tier {a.tier}",
           "trusted_base": ["cbmc 6.11.0 / goto-cc / goto-instrument --dfcc (C semantics, SAT back end)"] + sorted(set(b for u in units for b in getattr(u, "trusted", []))) + scan_trusted([u for u in units if hasattr(u, "file")]),
           "units": [{"unit": r.unit.name, "status": r.status, "functions": r.unit.functions, "kind": r.unit.kind,
                      "bound": getattr(r.unit, "bound", ""), "obligations": r.obligations, "discharged": r.discharged,
                      "reachability_covers": r.covers, "backend": getattr(r.unit, "backend", "cbmc SAT"), "solver_s": round(r.solver_s, 2), "wall_s": round(r.wall, 1),
                      "note": r.note, "failed": r.failed[:20], "cmd": r.cmd} for r in res],
           "functions_under_contract_proved": sorted({f for r in proved for f in r.unit.functions}),
           "functions_bounded_only": sorted({f for r in bnd for f in r.unit.functions} - {f for r in proved for f in r.unit.functions}),
           "explanation": "proved = every obligation discharged with no bound on inputs or iterations; bounded = discharged up to the stated bound, not counted as proved",
           "undecided": [r.unit.name + ": " + r.note for r in res if r.status == "undecided"]}
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": level, "coverage": cov, "assumptions": ASSUMPTIONS.get("*", []) + ASSUMPTIONS.get(a.prop, []),
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    if not a.unit and not os.environ.get("VF_NOEV"):
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{a.prop}: {len(proved)} units proved, {len(bnd)} bounded, {sum(1 for r in res if r.status=='undecided')} undecided, {viol} violated; "
          f"{cov['discharged']}/{cov['obligations']} obligations; {time.time()-t0:.0f}s")
    sys.exit(1 if viol else 0)

main()
