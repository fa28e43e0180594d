"""Dev tool: text mutations (bugs) and behaviour-preserving edits (ref) against the verifier alone.

usage: muts.py [name-substring ...]     runs prove.py for each on a scratch copy of the sources
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []


def bug(name, props, *edits):
    M.append(("bug", name, props.split(), edits))


def ref(name, props, *edits):
    M.append(("ref", name, props.split(), edits))


def run(kind, name, props, edits):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp/w")
    try:
        shutil.copytree("/repo/src", d + "/src")
        for f, old, new in edits:
            p = d + "/src/compas_cem/" + f
            s = open(p).read()
            if s.count(old) < 1:
                print("!! %s: text not found in %s: %r" % (name, f, old[:60]))
                return
            open(p, "w").write(s.replace(old, new, 1))
        for pid in props:
            out = d + "/o.json"
            env = dict(os.environ, MPLBACKEND="Agg", VP_SRC=d + "/src", PYTHONPATH=HERE + ":" + d + "/src", PYTHONDONTWRITEBYTECODE="1")
            subprocess.run(["/opt/venv/bin/python", "-W", "ignore", HERE + "/prove.py", pid, "quick", "480", out], cwd=HERE, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            us = json.load(open(out))["units"]
            bad = [(o["status"], u["name"][:40] + ": " + o["name"][:70]) for u in us for o in u["obligations"]
                   if o["status"] == "refuted" or (u["status"] == "ok" and o["status"] != "proved")]
            uns = [(u["status"], u["name"][:50], u["detail"][:110]) for u in us if u["status"] != "ok"]
            v = "ALARM" if bad else ("undecided" if uns else "accepted")
            good = (kind == "bug" and bad) or (kind == "ref" and not bad and not uns)
            print("%s %-3s %-34s %s %-9s %s" % ("  " if good else "->", kind, name, pid, v, (bad or uns or [""])[0]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(sel):
    for m in M:
        if not sel or any(s in m[1] or s in m[2] or s == m[0] for s in sel):
            run(*m)
