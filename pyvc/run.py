"""Decide one property on /repo's current source: `python -m pyvc.run C07 [--tier quick]`.

Two processes run side by side:
  proof    the verification-condition generator on the source text of /repo
  concrete the same contracts evaluated on the real package for seeded inputs; it supplies the
           failing input of a violation, and is the labelled bounded stand-in for obligations
           the verifier leaves undecided
"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import time
import traceback

from .props import FALSIFIERS, LIMITS, TRUSTED

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known-findings.txt")


# ---------------------------------------------------------------------------- proof process

def proof_module(prop):
    try:
        return importlib.import_module(f"pyvc.checks.{prop.lower()}")
    except ModuleNotFoundError as e:
        if e.name == f"pyvc.checks.{prop.lower()}":
            return None
        raise


def run_proof(prop, tier, path):
    from .core import Report, Engine
    rep = Report()
    t0 = time.time()
    crash = None
    mod = proof_module(prop)

    def save():
        d = {
            "obligations": [
                {"name": o.name, "status": o.status, "queries": o.queries,
                 "secs": round(o.secs, 3), "backends": sorted(o.backends),
                 "detail": (o.detail or "")[:3000] if o.status != "proved" else None,
                 "model": o.model if o.status != "proved" else None}
                for o in rep.obls.values()],
            "reach": rep.reach, "functions": sorted(rep.functions),
            "contracts": sorted(rep.contracts), "assumed": sorted(rep.assumed),
            "bounded": rep.bounded, "solver_s": round(rep.solver_s, 2),
            "paths": rep.paths, "wall_s": round(time.time() - t0, 2), "crash": crash,
            "exists": mod is not None, "done": done,
        }
        with open(path + ".tmp", "w") as f:
            json.dump(d, f)
        os.replace(path + ".tmp", path)

    done = False
    if mod is not None:
        import threading

        def saver():
            while not done:
                time.sleep(5)
                try:
                    save()
                except RuntimeError:
                    pass
        threading.Thread(target=saver, daemon=True).start()
        try:
            mod.prove(rep, tier)
        except (Exception, Engine) as e:
            crash = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2000:]
    done = True
    for _ in range(5):
        try:
            save()
            break
        except RuntimeError:
            time.sleep(0.1)


# ---------------------------------------------------------------------------- concrete process

def cases_of(prop):
    return getattr(importlib.import_module(f"pyvc.falsify.{FALSIFIERS[prop]}"), prop)


def run_concrete(prop, tier, seed, seconds, path):
    from .falsify import base
    t0 = time.time()
    d = {"fails": [], "inputs": 0, "known": [], "crash": None, "cases": []}
    try:
        cases = cases_of(prop)
        d["cases"] = [c.name for c in cases if c.known is None]
        d["fails"], d["inputs"] = base.search(cases, seed, tier, seconds)
        for c in cases:
            if c.known is not None:
                r = None
                for k in range(getattr(c, "quick")):
                    r = base.run_case(c, seed, k)
                    if r is not None:
                        break
                d["known"].append({"id": c.known, "case": c.name, "fail": r})
    except BaseException as e:
        d["crash"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2000:]
    d["wall_s"] = round(time.time() - t0, 2)
    with open(path + ".tmp", "w") as f:
        json.dump(d, f)
    os.replace(path + ".tmp", path)


# ---------------------------------------------------------------------------- driver

def spawn(kind, prop, tier, seed, seconds, path):
    if os.path.exists(path):
        os.remove(path)
    log = open(path + ".log", "w")
    return subprocess.Popen(
        [sys.executable, "-m", "pyvc.run", prop, "--role", kind, "--tier", tier,
         "--seed", str(seed), "--seconds", str(seconds), "--out", path],
        cwd=ROOT, stdout=log, stderr=log)


def collect(p, path, limit):
    killed = False
    try:
        p.wait(timeout=max(1, limit))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        killed = True
    try:
        with open(path) as f:
            d = json.load(f)
    except (OSError, ValueError):
        tail = ""
        try:
            with open(path + ".log") as f:
                tail = f.read()[-1500:]
        except OSError:
            pass
        return None, (f"stopped after {limit:.0f} s" if killed else
                      f"ended with code {p.returncode}: {tail}")
    return d, (f"stopped after {limit:.0f} s" if killed else None)


def known_findings():
    out = {}
    try:
        with open(FINDINGS) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith("finding: "):
                    kv, _, rest = ln[len("finding: "):].partition(" -- ")
                    d = dict(x.split("=", 1) for x in kv.split())
                    out[d["id"]] = (d["property"], rest)
    except OSError:
        pass
    return out


def write_replay(prop, name, data):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    if "case" not in d:
        print("replay file holds the verifier's output, no input to run:")
        print(json.dumps(d, indent=1))
        return 1
    from .falsify import base
    case = {c.name: c for c in cases_of(prop)}[d["case"]]
    r = base.run_case(case, d["seed"], d["k"])
    if r is None:
        print("the input passes on the current tree")
        return 0
    print(json.dumps(r, indent=1))
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", choices=sorted(FALSIFIERS))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--role")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--out")
    a = ap.parse_args()
    tier = a.tier if a.tier in LIMITS else "quick"
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED") or "1")
        except ValueError:
            seed = 1
    if a.role == "proof":
        return run_proof(a.prop, tier, a.out) or 0
    if a.role == "concrete":
        return run_concrete(a.prop, tier, seed, a.seconds, a.out) or 0
    if a.replay:
        return replay(a.prop, a.replay)
    return decide(a.prop, tier, seed)


def decide(prop, tier, seed):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    plim, clim, xlim = LIMITS[tier]
    pp, cp = os.path.join(OUT, f"{prop}.proof"), os.path.join(OUT, f"{prop}.concrete")
    hp = spawn("proof", prop, tier, seed, 0, pp)
    hc = spawn("concrete", prop, tier, seed, clim, cp)
    conc, conc_why = collect(hc, cp, 2 * clim + 60)
    proof, proof_why = collect(hp, pp, plim - (time.time() - t0))
    proof = proof or {"obligations": [], "reach": {}, "functions": [], "contracts": [],
                      "assumed": [], "bounded": {}, "solver_s": 0, "paths": 0,
                      "exists": True, "done": False, "crash": proof_why, "wall_s": 0}
    conc = conc or {"fails": [], "inputs": 0, "known": [], "crash": conc_why, "cases": [],
                    "wall_s": 0}
    obls = proof["obligations"]
    refuted = [o for o in obls if o["status"] == "refuted"]
    undecided = [o for o in obls if o["status"] == "unknown"]
    proved = [o for o in obls if o["status"] == "proved"]
    unreached = [k for k, v in proof["reach"].items() if v is False]
    complete = bool(obls) and not refuted and not undecided and proof["done"] \
        and not proof["crash"] and not proof_why and not unreached

    # a refutation deserves a longer search for a failing input
    if refuted and not conc["fails"]:
        xp = os.path.join(OUT, f"{prop}.extra")
        for s in (seed + 1000, seed + 2000):
            ex, _ = collect(spawn("concrete", prop, "thorough", s, xlim / 2, xp), xp, xlim + 30)
            if ex:
                conc["inputs"] += ex["inputs"]
                conc["fails"] += ex["fails"]
            if conc["fails"]:
                break

    failed_names = [o["name"] for o in refuted]
    lines, code = [], 0
    findings = known_findings()
    for kf in conc["known"]:
        if kf["id"] in findings and kf["fail"] is not None:
            lines.append(f"KNOWN-FINDING: property={prop} {kf['id']} {findings[kf['id']][1]}")
        elif kf["fail"] is not None:       # not listed: an ordinary violation
            conc["fails"].append(kf["fail"])
    seen = set()
    for f in conc["fails"]:
        if f["case"] in seen:
            continue
        seen.add(f["case"])
        f = dict(f, property=prop, refuted_obligations=failed_names,
                 undecided_obligations=[o["name"] for o in undecided],
                 rerun=f"/verif/check {prop} --replay <this file>")
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{f['case']}-{f['seed']}-{f['k']}")
        path = write_replay(prop, name, f)
        lines.append(f"# {f['case']}: {f['message'][:300]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        code = 1
    if not code and refuted:
        for o in refuted[:5]:
            path = write_replay(prop, "obligation-" + "".join(
                ch if ch.isalnum() or ch in "-_." else "_" for ch in o["name"])[:80],
                dict(property=prop, failed_obligation=o["name"], verifier_output=o["detail"],
                     counterexample=o["model"]))
            lines.append(f"# obligation {o['name']} fails: {(o['detail'] or '')[:200]}")
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code = 1
    # nothing decided anything: neither a proof nor a single concrete evaluation
    if not code and conc["inputs"] == 0 and not complete:
        path = write_replay(prop, "nothing-decided", dict(
            property=prop, proof_crash=proof["crash"] or proof_why,
            concrete_crash=conc["crash"] or conc_why))
        lines.append("# neither the verifier nor the concrete contracts could run")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code = 1

    wall = round(time.time() - t0, 2)
    write_evidence(prop, tier, seed, proof, proof_why, conc, conc_why, wall, code,
                   len(proved), len(refuted), undecided, unreached, complete)
    if proof["exists"]:
        print(f"{prop}: {len(proved)}/{len(obls)} obligations discharged, "
              f"{proof['paths']} paths, solver {proof['solver_s']} s, "
              f"{conc['inputs']} concrete evaluations, {wall} s")
        for o in undecided[:10]:
            print(f"# undecided (bounded stand-in decides): {o['name']}: {(o['detail'] or '')[:160]}")
        for k in unreached[:5]:
            print(f"# precondition not reachable: {k}")
        if proof["crash"] or proof_why:
            print(f"# proof: {(proof['crash'] or proof_why)[:300]}")
    else:
        print(f"{prop}: bounded contract evaluation only: {conc['inputs']} inputs, {wall} s")
    if conc["crash"] or conc_why:
        print(f"# concrete: {(conc['crash'] or conc_why)[:300]}")
    for ln in lines:
        print(ln)
    return code


def write_evidence(prop, tier, seed, proof, proof_why, conc, conc_why, wall, code, nproved,
                   nrefuted, undecided, unreached, complete):
    obls = proof["obligations"]
    concrete = {
        "label": "bounded: concrete evaluation of the same contracts on the real package",
        "evaluations": conc["inputs"], "cases": conc["cases"], "wall_s": conc["wall_s"],
        "seed": seed, "failures": len(conc["fails"]),
        "crash": conc["crash"] or conc_why,
    }
    assumptions = list(TRUSTED) + [f"assumed: {x}" for x in proof["assumed"]]
    if proof["exists"] and obls:
        per_backend = {}
        for o in obls:
            for b in o["backends"]:
                per_backend[b] = per_backend.get(b, 0) + 1
        cov = {
            "obligations": len(obls), "discharged": nproved,
            "checker_cmd": f"/verif/check {prop} --tier {tier}",
            "trusted_base": assumptions,
            "queries": sum(o["queries"] for o in obls),
            "obligations_by_backend": per_backend,
            "paths": proof["paths"], "solver_s": proof["solver_s"],
            "proof_wall_s": proof["wall_s"],
            "functions_under_contract": proof["functions"],
            "contracts_used_at_call_sites": proof["contracts"],
            "undecided": [{"name": o["name"], "why": (o["detail"] or "")[:300]}
                          for o in undecided],
            "refuted": nrefuted,
            "reachability_covers": {
                "reached": sum(v is True for v in proof["reach"].values()),
                "unreached": unreached,
                "undecided": [k for k, v in proof["reach"].items() if v is None]},
            "bounded_obligations": proof["bounded"],
            "complete": complete,
            "bounded_stand_in": concrete,
            "slowest": sorted(((o["secs"], o["name"]) for o in obls), reverse=True)[:5],
        }
        level = "proof"
        if proof["crash"] or proof_why:
            cov["proof_stopped"] = (proof["crash"] or proof_why)[:1000]
    else:
        level = "other"
        cov = {
            "explanation": "bounded stand-in: the property's contract evaluated on the real "
                           "package for seeded inputs; nothing is proved in this run"
                           + (f" ({(proof['crash'] or proof_why)[:500]})"
                              if proof["crash"] or proof_why else ""),
            "obligations": 0, "discharged": 0,
            "bounded_stand_in": concrete,
        }
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
         "assumptions": assumptions, "wall_s": wall, "violations": int(code != 0)}
    path = os.path.join(EVID, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
