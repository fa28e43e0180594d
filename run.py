"""One check: prove the contracts of a property on /repo's current source, replay on the real code.

usage: run.py <property> [quick|thorough]
Exit 0: held; exit 1 with a VIOLATION line: broken.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYTHONPATH=HERE + ":" + os.environ.get("VP_SRC", "/repo/src"))
QUICK = {"prove": 480, "replay": 60, "deeper": 100, "cases": 6000}
THOROUGH = {"prove": 1500, "replay": 420, "deeper": 300, "cases": 10 ** 9}


def prover(pid, tier, out, budget):
    return subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "prove.py"), pid, tier, str(budget), out],
                            cwd=HERE, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                            start_new_session=True)


def end(p):
    """End a prover together with the processes of its units."""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        p.kill()
    try:
        p.communicate(timeout=10)
    except subprocess.TimeoutExpired:
        pass


def replayers(pid, seed, procs, seconds, d, limit, offset=0):
    ps = []
    for w in range(procs):
        out = os.path.join(d, "r%d_%d.json" % (offset, w))
        ps.append((subprocess.Popen([PY, "-W", "ignore", "-m", "vp.cases", pid, str(seed), str(offset + w), str(procs), str(seconds), str(offset + limit), out],
                                    cwd=HERE, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), out))
    return ps


def collect(ps, timeout):
    tot = {"ok": 0, "skip": 0, "harness": 0, "fail": [], "skips": {}, "samples": [], "errors": [], "distinct": 0}
    end = time.time() + timeout
    for p, out in ps:
        try:
            _, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            tot["errors"].append("a replay worker did not finish")
            continue
        if not os.path.exists(out):
            tot["errors"].append("replay worker: " + (err or "")[-400:])
            continue
        r = json.load(open(out))
        for k in ("ok", "skip", "harness", "distinct"):
            tot[k] += r[k]
        tot["fail"] += r["fail"]
        tot["errors"] += r["errors"]
        tot["samples"] += r["samples"]
        for k, v in r["skips"].items():
            tot["skips"][k] = tot["skips"].get(k, 0) + v
    tot["fail"].sort(key=lambda f: len(json.dumps(f["case"])))
    return tot


def importable():
    p = subprocess.run([PY, "-W", "ignore", "-c",
                        "import compas_cem.diagrams, compas_cem.equilibrium, compas_cem.optimization, compas_cem.plotters"],
                       cwd=HERE, env=ENV, capture_output=True, text=True)
    return p.returncode == 0, p.stderr[-1500:]


def confirm(path):
    """The case fails again in a process of its own."""
    try:
        p = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "replay.py"), path], cwd=HERE, env=ENV,
                           capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1 and p.stdout.startswith("fail")


def write_replay(pid, name, content):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, name))
    with open(path, "w") as f:
        json.dump(content, f, indent=1)
    return path


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = QUICK if tier == "quick" else THOROUGH
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    level = json.load(open(os.path.join(HERE, "levels.json")))[pid]
    ok, err = importable()
    if not ok:
        path = write_replay(pid, "import", {"property": pid, "case": None, "obligations": [{"unit": "import", "name": "the modules can be imported", "goal": err}]})
        evidence(pid, tier, seed, level, None, None, t0, [path])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1
    d = tempfile.mkdtemp(prefix="vp_")
    try:
        out = os.path.join(d, "proof.json")
        p = prover(pid, tier, out, budget["prove"])
        tot = collect(replayers(pid, seed, 6, budget["replay"], d, budget["cases"]), budget["replay"] + 120)
        viol = []
        for f in tot["fail"][:4]:
            if any(k["property"] == pid and k.get("case") == f["case"] for k in known["findings"]):
                continue
            path = write_replay(pid, "case%d" % f["index"], {
                "property": pid, "case": f["case"], "message": f["message"], "seed": seed,
                "how": "%s -W ignore %s/replay.py <this file>" % (PY, HERE)})
            if confirm(path):
                viol.append((path, f["message"]))
                break
        proof = None
        perr = None
        try:
            _, perr = p.communicate(timeout=90 if viol else budget["prove"] + 60)
        except subprocess.TimeoutExpired:
            end(p)
        if os.path.exists(out):
            proof = json.load(open(out))
        failed = undischarged(proof)
        deeper = None
        # what the verifier did not accept is searched for longer on the real code
        if not viol and os.path.exists(os.path.join(HERE, "contracts", pid + ".py")) and (failed or not_reached(proof)):
            deeper = collect(replayers(pid, seed, 8, budget["deeper"], d, 10 ** 9, offset=10000019), budget["deeper"] + 120)
            for f in deeper["fail"][:4]:
                path = write_replay(pid, "case%d" % f["index"], {
                    "property": pid, "case": f["case"], "message": f["message"], "seed": seed, "obligations": failed[:20],
                    "how": "%s -W ignore %s/replay.py <this file>" % (PY, HERE)})
                if confirm(path):
                    viol.append((path, f["message"]))
                    break
        lines = []
        if viol:
            for path, msg in viol:
                lines.append("VIOLATION property=%s replay=%s" % (pid, path))
                print("# %s" % msg)
            for o in failed[:10]:
                print("# failed obligation: %s: %s" % (o["unit"], o["name"]))
        elif failed:
            path = write_replay(pid, "obligation", {"property": pid, "case": None, "obligations": failed[:40]})
            for o in failed[:10]:
                print("# failed obligation: %s: %s" % (o["unit"], o["name"]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        for k in known["findings"]:
            if k["property"] == pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if deeper:
            for k in ("ok", "skip", "harness", "distinct"):
                tot[k] += deeper[k]
        evidence(pid, tier, seed, level, proof, tot, t0, [v[0] for v in viol] or ([] if not failed else ["obligation"]), perr)
        summary(pid, proof, tot)
        for ln in lines:
            print(ln)
        return 1 if lines else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def undischarged(proof):
    """The obligations the verifier generated and did not accept.

    Obligations of a unit the verifier could not carry through (a construct it has no rules
    for, no time left) are not judged unless they were refuted by a model: the bounded replay
    stands in for such a unit, and the evidence says so.
    """
    out = []
    for u in (proof or {}).get("units", []):
        for o in u["obligations"]:
            if o["status"] == "refuted" or (u["status"] == "ok" and o["status"] != "proved"):
                out.append(dict(o, unit=u["name"]))
    return out


def not_reached(proof):
    return proof is None or any(u["status"] != "ok" for u in proof["units"])


def summary(pid, proof, tot):
    if proof is None:
        print("%s: prover gave no result" % pid)
    else:
        for u in proof["units"]:
            n = len(u["obligations"])
            k = sum(o["status"] == "proved" for o in u["obligations"])
            flag = "" if u["status"] == "ok" and n == k else "   <- %s %s" % (u["status"], u["detail"][:160])
            print("%s: %-58s %3d/%-3d obligations, %d paths, %.1f s%s" % (pid, u["name"], k, n, u["paths"], u["wall_s"], flag))
    print("%s: real code: %d cases passed, %d skipped, %d failed%s" % (
        pid, tot["ok"], tot["skip"], len(tot["fail"]), (", harness errors: %s" % tot["errors"][:2]) if tot["errors"] else ""))


TRUSTED = ["pyvc: the symbolic interpreter of Python syntax trees in /verif/pyvc (mechanical, re-reads /repo's source on every run)",
           "models of Python built-ins, numpy/autograd.numpy vector functions and compas.datastructures.Network in pyvc/lib.py and pyvc/net.py (compared with the real ones by tools/conformance.py)",
           "z3 4.x and cvc5 1.1.2",
           "machine floating point treated as mathematical reals"]


def evidence(pid, tier, seed, level, proof, tot, t0, violations, perr=None):
    units = (proof or {}).get("units", [])
    nob = sum(len(u["obligations"]) for u in units)
    dis = sum(o["status"] == "proved" for u in units for o in u["obligations"])
    by = {}
    for u in units:
        for o in u["obligations"]:
            if o["status"] == "proved":
                by[o["solver"]] = by.get(o["solver"], 0) + 1
    fns = sorted({q for u in units for q in u["calls"] if q.startswith("compas_cem")})
    dep = sorted({q for u in units for q in u["calls"] if not q.startswith("compas_cem")})
    open_ = [{"unit": u["name"], "status": u["status"], "why": u["detail"][:300],
              "undischarged": [o["name"] for o in u["obligations"] if o["status"] != "proved"][:10]}
             for u in units if u["status"] != "ok" or any(o["status"] != "proved" for o in u["obligations"])]
    cov = {"obligations": nob, "discharged": dis, "checker_cmd": "%s %s/prove.py %s %s" % (PY, HERE, pid, tier),
           "trusted_base": TRUSTED,
           "functions_under_contract": fns, "dependency_functions_interpreted": dep,
           "discharged_by": by, "solver_s": round(sum(u["solver_s"] for u in units), 2),
           "units": [{"name": u["name"], "status": u["status"], "obligations": len(u["obligations"]),
                      "discharged": sum(o["status"] == "proved" for o in u["obligations"]), "paths": u["paths"],
                      "wall_s": u["wall_s"]} for u in units],
           "not_discharged_bounded_only": open_ if proof is not None else ["the prover gave no result: %s" % (perr or "")[-300:]]}
    if tot is not None:
        cov["evaluations"] = tot["ok"] + tot["skip"] + len(tot["fail"]) + tot["harness"]
        cov["distinct_nontrivial"] = tot["distinct"]
        cov["rule"] = "bounded stand-in and replay: seeded random cases run on the real code against an independent oracle (vp/oracle*.py); non-trivial means the oracle's preconditions held and every comparison was made; skipped: %s" % json.dumps(tot["skips"])
        cov["samples"] = tot["samples"][:2]
        cov["harness_errors"] = tot["errors"][:3]
    if open_ or proof is None:
        level = "exploration"
    assum = sorted({a for u in units for a in u["assumptions"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assum, "violations": len(violations), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
