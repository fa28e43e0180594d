"""Dev tool: systematic small mutations of the sources; those the tests accept are run through the replay layer.

usage: automut.py SECONDS OUT.json [FILE-SUBSTRING ...]    (8 workers; prints the survivors)
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/compas_cem"
FILES = {
    "equilibrium/force.py": "C01 C02 C03 C04 C05 C16", "equilibrium/force_numpy.py": "C01 C02 C03 C04 C05 C13",
    "diagrams/topology/topology.py": "C06 C07 C08 C09 C17 C14 C01 C05", "diagrams/topology/mesh_mixins.py": "C15",
    "diagrams/diagram.py": "C17 C09 C05 C14 C01", "diagrams/form.py": "C05 C14 C17", "diagrams/mixins/node_mixins.py": "C09 C14 C07",
    "diagrams/mixins/edge_mixins.py": "C09 C17 C14", "elements/node.py": "C09 C17", "elements/edge.py": "C09 C17", "elements/trail.py": "C09 C17 C02", "elements/deviation.py": "C09 C17",
    "loads/node.py": "C09 C17", "supports/node.py": "C09 C17",
    "optimization/optimizer.py": "C10 C12 C13 C11 C14", "optimization/nlopt.py": "C13", "optimization/grad.py": "C12", "optimization/objective_func.py": "C12 C13",
    "optimization/constraints/": "C11 C14 C13", "optimization/parameters/": "C10 C14 C13",
    "plotters/formartist.py": "C18 C19", "plotters/topologyartist.py": "C18"}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And}


def sites(tree):
    """(description, function that mutates a fresh copy of the tree) for every mutation."""
    nodes = list(ast.walk(tree))
    idx = {id(n): i for i, n in enumerate(nodes)}
    skip = set()
    for n in nodes:
        if isinstance(n, ast.If) and "__name__" in ast.dump(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.FunctionDef) and (n.name in ("__repr__", "__str__", "_node_textlabel", "_edge_textlabel", "draw") ):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("msg", "tpl", "__all__"):
            skip.update(id(x) for x in ast.walk(n))
    out = []

    def add(n, what, f):
        i = idx[id(n)]

        def go():
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            f(m, t)
            return t
        out.append(("%d: %s" % (n.lineno, what), go))

    def setattr_(name, val):
        return lambda m, t: setattr(m, name, val(m) if callable(val) else val)

    def replace(m, t, new):
        for p in ast.walk(t):
            for f, v in ast.iter_fields(p):
                if v is m:
                    setattr(p, f, new)
                elif isinstance(v, list) and any(x is m for x in v):
                    setattr(p, f, [new if x is m else x for x in v])
    for n in nodes:
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        src = ast.unparse(n)[:70].replace("\n", " ")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "compare " + src, lambda m, t: m.ops.__setitem__(0, SWAP[type(m.ops[0])]()))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in SWAP:
            add(n, "operator " + src, lambda m, t: setattr(m, "op", SWAP[type(m.op)]()))
        if isinstance(n, ast.BoolOp):
            add(n, "and/or " + src, lambda m, t: setattr(m, "op", SWAP[type(m.op)]()))
            for j in range(len(n.values)):
                add(n, "operand %d dropped %s" % (j, src), lambda m, t, j=j: (m.values.pop(j), replace(m, t, m.values[0]) if len(m.values) == 1 else None))
        if isinstance(n, ast.UnaryOp):
            add(n, "unary dropped " + src, lambda m, t: replace(m, t, m.operand))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            add(n, "constant+1 %r" % n.value, lambda m, t: setattr(m, "value", m.value + 1))
            if n.value:
                add(n, "constant negated %r" % n.value, lambda m, t: setattr(m, "value", -m.value))
                add(n, "constant zero %r" % n.value, lambda m, t: setattr(m, "value", type(m.value)(0)))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, "constant %r" % n.value, lambda m, t: setattr(m, "value", not m.value))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not (isinstance(n.test, ast.Name) and n.test.id == "verbose"):
                add(n, "condition true " + ast.unparse(n.test)[:60], lambda m, t: setattr(m, "test", ast.Constant(True)))
                add(n, "condition false " + ast.unparse(n.test)[:60], lambda m, t: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            add(n, "arguments swapped " + src, lambda m, t: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            add(n, "last argument dropped " + src, lambda m, t: m.args.pop())
        if isinstance(n, ast.Call) and n.keywords:
            for j in range(len(n.keywords)):
                add(n, "keyword %d dropped %s" % (j, src), lambda m, t, j=j: m.keywords.pop(j))
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords:
            add(n, "call dropped " + src, lambda m, t: replace(m, t, m.args[0]))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete, ast.Assert)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, "statement dropped " + src, lambda m, t: replace(m, t, ast.Pass()))
        if isinstance(n, ast.comprehension) or isinstance(n, ast.ListComp):
            pass
    return out


def work(job):
    f, desc, text, props, secs = job
    d = tempfile.mkdtemp(prefix="am", dir="/tmp/w")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__", "ghpython", "*.egg-info"))
        shutil.copytree("/repo/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/src/compas_cem/" + f, "w").write(text)
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONPATH=d + "/src:" + HERE, VP_SRC=d + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        if r.returncode:
            return None
        und = []
        for p in props:
            o = d + "/o.json"
            if os.path.exists(o):
                os.remove(o)
            try:
                subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "vp.cases", p, "1", "0", "1", str(secs), "-", o], cwd=HERE, env=env, capture_output=True, timeout=secs + 120)
                res = json.load(open(o))
            except Exception as e:
                und.append(p)
                continue
            if res["fail"]:
                return (f, desc, p, res["fail"][0]["message"][:100])
            if res["errors"]:
                und.append(p + ":" + str(res["errors"][0])[:80])
        return (f, desc, None, und)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    secs, out, sel = float(sys.argv[1]), sys.argv[2], sys.argv[3:]
    jobs = []
    for root, _, names in os.walk(SRC):
        for nm in sorted(names):
            f = os.path.relpath(os.path.join(root, nm), SRC)
            props = next((FILES[k] for k in FILES if f == k or (k.endswith("/") and f.startswith(k))), None)
            if not props or not nm.endswith(".py") or nm in ("__init__.py", "mesh.py") or (sel and not any(x in f for x in sel)):
                continue
            tree = ast.parse(open(os.path.join(root, nm)).read())
            for desc, go in sites(tree):
                try:
                    t = go()
                    text = ast.unparse(ast.fix_missing_locations(t))
                    compile(text, f, "exec")
                except Exception:
                    continue
                jobs.append((f, desc, text, props.split(), secs))
    print(len(jobs), "mutations", flush=True)
    done, surv, passed = [], [], 0
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(work, jobs):
            if r is None:
                continue
            passed += 1
            done.append(r)
            if r[2] is None:
                surv.append(r)
                print("SURVIVES", r[0], r[1], r[3] or "", flush=True)
    json.dump(done, open(out, "w"), indent=0)
    print(len(jobs), "mutations,", passed, "accepted by the tests,", len(surv), "survive")


main()
