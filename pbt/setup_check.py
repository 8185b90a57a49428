"""setup_cmd: nothing to build; verify that the interpreter, Hypothesis and the tree under test import."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
code = ("import sys; sys.path.insert(0, '/repo'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
        "import hypothesis, numpy, pyzx; print('ok', hypothesis.__version__, numpy.__version__)")
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONWARNINGS="ignore")
sys.exit(subprocess.call([py, "-c", code], env=env, cwd="/"))
