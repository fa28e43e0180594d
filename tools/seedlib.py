"""Dev tool: make and validate planted bugs in a scratch copy (never in /repo).

usage: seedlib.py FILE.py ID...    FILE defines SEEDS = {id: dict(prop, file, edits=[(old, new)...], demo, needs, breaks)}
"""
import importlib.util, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/w/seedcopy"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=SC + "/src")
SH = '#!/bin/bash\n# exit 0: behaves; nonzero: broken\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.SEEDS)
    sh("rm -rf /tmp/w/seedcopy; git -C /repo worktree prune; git clone -q /repo /tmp/w/seedcopy")
    for i in ids:
        s = m.SEEDS[i]
        sh("git checkout -q -- .", cwd=SC)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(SC, f if f.startswith("src/") else "src/compas_cem/" + f)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "EDIT MATCHES", t.count(old), "times in", f, repr(old[:60])); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        d = os.path.join(HERE, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=SC).stdout)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("/opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -4", cwd=SC, env=ENV)
        bad = sh("bash %s/demo.sh" % d, cwd=SC, env=ENV)
        good = sh("bash %s/demo.sh" % d, cwd="/repo", env=dict(ENV, PYTHONPATH=""))
        print(i, "tests:", r.stdout.strip().splitlines()[-1], "| demo patched rc", bad.returncode, "| clean rc", good.returncode)
        if good.returncode: print(good.stderr[-800:])
        if bad.returncode: print("    ", bad.stderr.strip().splitlines()[-1][:150])
    sh("rm -rf /tmp/w/seedcopy")


main()
