"""Nothing to build: check that the interpreters and solvers are there."""
import shutil, subprocess, sys
ok = shutil.which("cvc5") is not None
p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", "import sys; sys.path.insert(0, '/verif'); import pyvc, z3; print(z3.get_version_string())"],
                   capture_output=True, text=True, cwd="/verif")
print(p.stdout, p.stderr)
sys.exit(0 if p.returncode == 0 and ok else 1)
