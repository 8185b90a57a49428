"""python -m entry: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--sub NAME] [--scale X]"""
import argparse, importlib, json, os, shutil, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PBT_REPO", "/repo")


def bootstrap():
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
            "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
            "MPLBACKEND": "Agg", "PYTHONWARNINGS": "ignore"}
    py = os.environ.get("PBT_PYTHON", "/opt/venv/bin/python")
    if not os.path.exists(py):
        py = sys.executable
    if os.environ.get("PBT_BOOT") != "1":
        env = dict(os.environ)
        env.update(want)
        env["PBT_BOOT"] = "1"
        env.pop("PYTHONPATH", None)
        os.execve(py, [py, "-X", "pycache_prefix=/tmp/pbt_pyc_unused", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, REPO)
    if HERE in sys.path:
        sys.path.remove(HERE)
    sys.path.insert(1, VERIF)
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import hypothesis  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    bootstrap()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="pbt_")
    os.chdir(scratch)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        rc = drive(args, seed, scratch, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def drive(args, seed, scratch, t0):
    import warnings
    warnings.simplefilter("ignore")
    prop = args.property
    # the code under test failing to import is a failure of the tree, not of the property: error exit
    import pyzx
    assert os.path.realpath(pyzx.__file__).startswith(os.path.realpath(REPO)), pyzx.__file__
    from pbt import core
    mod = importlib.import_module("pbt.props." + prop)
    subs = mod.SUBS
    byname = {s.name: s for s in subs}
    if args.replay:
        rp = json.load(open(args.replay if os.path.isabs(args.replay) else os.path.join(VERIF, args.replay)))
        sub = byname[rp["sub"]]
        try:
            core.run_case(sub, rp["spec"], core.Rec())
        except core.Violation as e:
            print("reproduced:", e)
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        print("replay: no violation")
        return 0
    if args.sub:
        subs = [s for s in subs if s.name in args.sub.split(",")]
    for s in subs:
        s.quick = max(1, int(s.quick * args.scale))
        s.thorough = max(1, int(s.thorough * args.scale))
    # known findings: re-run each recorded input
    known_lines = []
    for e in core.load_known(prop):
        sub = byname.get(e["sub"])
        if sub is None:
            print("harness error: known finding names unknown sub-check %s" % e["sub"]); return 3
        try:
            core.run_case(sub, e["spec"], core.Rec())
        except core.Violation as ex:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    for l in known_lines:
        print(l)
    nw = args.workers or min(8, os.cpu_count() or 1)
    limit = 420 if args.tier == "quick" else 3000
    deadline = t0 + limit
    pids = {}
    outs = {}
    for w in range(nw):
        out = os.path.join(scratch, "w%d.json" % w)
        outs[w] = out
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                d = os.path.join(scratch, "d%d" % w)
                os.makedirs(d, exist_ok=True)
                os.chdir(d)
                # silence chatter of the code under test
                fd = os.open(os.devnull, os.O_WRONLY)
                os.dup2(fd, 1)
                err = os.open(os.path.join(scratch, "w%d.err" % w), os.O_WRONLY | os.O_CREAT)
                os.dup2(err, 2)
                core.worker(prop, subs, args.tier, seed, w, nw, out, deadline)
            finally:
                os._exit(0)
        pids[pid] = w
    results = {}
    errors = []
    first_violation_at = None
    import signal
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid:
            w = pids.pop(pid)
            if os.path.exists(outs[w]):
                results[w] = json.load(open(outs[w]))
                if results[w]["error"]:
                    errors.append("worker %d: %s" % (w, results[w]["error"]))
                if results[w]["violation"] and first_violation_at is None:
                    first_violation_at = time.time()
            else:
                errtxt = ""
                try:
                    errtxt = open(os.path.join(scratch, "w%d.err" % w)).read()[-2000:]
                except OSError:
                    pass
                errors.append("worker %d died, status %r %s" % (w, status, errtxt))
            continue
        time.sleep(0.02)
        now = time.time()
        if first_violation_at and now - first_violation_at > 10:
            for p in pids: os.kill(p, signal.SIGKILL)
            for p in list(pids):
                os.waitpid(p, 0)
            pids.clear()
        elif now > deadline + 180:
            for p in pids: os.kill(p, signal.SIGKILL)
            for p in list(pids):
                os.waitpid(p, 0)
                errors.append("worker %d exceeded the safety stop" % pids[p])
            pids.clear()
    # aggregate
    agg = {}
    nontriv = {}
    total = 0
    samples = []
    viol = None
    incomplete = set()
    for w in sorted(results):
        r = results[w]
        incomplete.update(r["incomplete"])
        for name, d in r["subs"].items():
            a = agg.setdefault(name, {"evals": 0, "rejected": 0, "labels": {}})
            a["evals"] += d["evals"]; a["rejected"] += d["rejected"]; total += d["evals"]
            for k, v in d["labels"].items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            nontriv.setdefault(name, set()).update(d["nontrivial"])
            if d["samples"] and not any(s["sub"] == name for s in samples):
                samples.append({"sub": name, "spec": d["samples"][-1]})
        if r["violation"]:
            v = r["violation"]
            if viol is None or len(json.dumps(v["spec"])) < len(json.dumps(viol["spec"])):
                viol = v
    for name in agg:
        agg[name]["distinct_nontrivial"] = len(nontriv.get(name, ()))
    wall = time.time() - t0
    if not args.no_evidence:
        ev = {"property": prop, "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
              "seed": seed, "level": "exploration",
              "coverage": {"evaluations": total,
                           "distinct_nontrivial": sum(len(x) for x in nontriv.values()),
                           "rule": mod.RULE, "samples": samples, "subchecks": agg,
                           "incomplete_subchecks": sorted(incomplete),
                           "known_findings_reproduced": len(known_lines)},
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(wall, 2), "violations": 1 if viol else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for name, a in agg.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %d rejected %s" % (
            prop, name, a["evals"], a["distinct_nontrivial"], a["rejected"],
            json.dumps(a["labels"], sort_keys=True) if a["labels"] else ""))
    if incomplete:
        print("inconclusive (time budget): " + ", ".join(sorted(incomplete)))
    if viol:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%s.json" % (prop, viol["sub"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": viol["sub"], "spec": viol["spec"], "message": viol["msg"],
                       "seed": seed, "tier": args.tier}, f, indent=1)
        print("violation in %s/%s: %s" % (prop, viol["sub"], viol["msg"]))
        print("spec: " + json.dumps(viol["spec"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        return 1
    if errors:
        print("HARNESS ERROR")
        for e in errors[:3]:
            print(e)
        return 3
    print("%s: ok in %.1f s" % (prop, wall))
    return 0


if __name__ == "__main__":
    main()
