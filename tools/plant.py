"""Development aid: turns bug definitions (a Python file defining BUGS) into seeded/<id>/ after confirming them in a scratch copy.
usage: plant.py DEFS.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PY = "/opt/venv/bin/python"
LOCK = __import__("threading").Lock()
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")

def sh(cmd, cwd, env=ENV, to=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
    return p.returncode, p.stdout

def one(b):
    w = tempfile.mkdtemp(prefix="plant_"); r = os.path.join(w, "repo"); d = os.path.join(w, b["id"])
    msg = []
    try:
        subprocess.check_call(["git", "clone", "-q", os.environ.get("PLANT_REPO", "/repo"), r]); os.mkdir(d)
        open(d + "/demo.py", "w").write(b["demo"]); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        rc, o = sh(["bash", d + "/demo.sh"], r)
        if rc: return b["id"], "DEMO FAILS ON CLEAN\n" + o[-1500:]
        for f, old, new in b["edits"]:
            blame = subprocess.check_output(["git", "blame", "-s", f], cwd=r, text=True).splitlines()
            text = open(os.path.join(r, f)).read()
            if text.count(old) == 1:
                first = text[:text.index(old)].count("\n")
                keep = set(new.splitlines())
                for i, l in enumerate(old.splitlines()):
                    if l not in keep and not blame[first + i].startswith("^"): return b["id"], "CHANGES A LINE THAT IS NOT ORIGINAL: " + l
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: return b["id"], "edit matches %d times: %s" % (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=r, text=True))
        rc, o = sh(["bash", d + "/demo.sh"], r)
        if not rc: return b["id"], "DEMO PASSES WITH BUG"
        demo_out = o.strip().splitlines()[-1:] 
        x = os.path.join(w, "j.xml")
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "python_files=test*.py", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], r)
        import xml.etree.ElementTree as ET
        ok = set()
        for t in ET.parse(x).iter("testcase"):
            if not len(t): ok.add(t.get("classname") + "::" + t.get("name"))
        bad = STABLE - ok
        if bad: return b["id"], "TESTS CATCH IT: %s" % sorted(bad)[:4]
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, o = sh([PY, VERIF + "/pbt/run.py", b["property"], "--no-evidence"], "/", dict(os.environ, PBT_REPO=r, VERIF_SEED="1"))
        res = "CAUGHT" if rc == 1 and "VIOLATION property=" + b["property"] in o else "MISSED rc=%d" % rc
        with LOCK:
            rp = os.path.join(VERIF, "tools", "plant_results.json")
            k = json.load(open(rp)) if os.path.exists(rp) else {}
            k[b["id"]] = "%s (%s)" % (b["property"], o.split("violation in ")[1].split(":")[0]) if res == "CAUGHT" else "not caught by %s" % b["property"]
            json.dump(k, open(rp, "w"), indent=1, sort_keys=True)
        t = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(t, ignore_errors=True); os.makedirs(os.path.dirname(t), exist_ok=True); shutil.copytree(d, t)
        return b["id"], "%s %s | %s" % (res, b["property"], " / ".join(l for l in o.splitlines() if "violation in" in l)[:200] or o[-300:])
    except Exception as e:
        return b["id"], "ERROR %r" % e
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]: bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(one, bugs): print(i, "->", m, flush=True)
