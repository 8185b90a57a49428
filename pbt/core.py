"""Runner core: sub-checks, recording, workers, evidence, replay files.

A *sub-check* is a pair (strategy, check).  The strategy is a Hypothesis strategy that draws a
JSON-able *spec*; check(spec, rec) rebuilds the case from the spec, runs the code under test and
raises Violation when the oracle disagrees.  All randomness lives in the strategy, so a shrunk spec
is a complete replay.
"""
import contextlib, hashlib, json, os, random, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
CPU_LIMIT = 60.0     # CPU seconds for one case; the normal cost is milliseconds


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


class Reject(Exception):
    """The case is outside the domain after all (counted, not judged)."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def cut(label, allow=()):
    """Run code under test: an exception it raises on a valid input is a violation."""
    try:
        yield
    except (Violation, Reject, HarnessError):
        raise
    except allow:
        raise
    except (KeyboardInterrupt, CaseTimeout, MemoryError):
        raise
    except RecursionError as e:
        raise Violation("%s: RecursionError" % label) from e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "/pyzx/" in fr.filename:
                where = "%s:%s" % (fr.filename.split("/pyzx/")[-1], fr.name)
                break
        raise Violation("%s: raised %s: %s [in %s]" % (label, type(e).__name__, str(e)[:200], where)) from e


class Rec:
    """Counters for one sub-check in one worker."""
    def __init__(self):
        self.evals = 0
        self.rejected = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []
        self._nt = False

    def begin(self):
        self._nt = False
        self.evals += 1

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nt(self, cond=True):
        """Mark the current case as non-trivial."""
        if cond:
            self._nt = True

    def end(self, spec):
        if self._nt:
            s = json.dumps(spec, sort_keys=True, default=str)
            h = hashlib.blake2b(s.encode(), digest_size=8).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 3:
                    self.samples.append(spec)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", fixed=()):
        self.name = name
        self.strategy = strategy          # zero-argument callable
        self.check = check
        self.quick = quick                # total cases across workers
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.fixed = list(fixed)          # explicit specs always run first (regressions)


def seed_everything(spec):
    """The code under test uses random / numpy.random in places: pin them per case."""
    import numpy as np
    s = json.dumps(spec, sort_keys=True, default=str)
    h = int(hashlib.blake2b(s.encode(), digest_size=4).hexdigest(), 16)
    random.seed(h)
    np.random.seed(h)


def run_case(sub, spec, rec):
    seed_everything(spec)
    rec.begin()
    def onalarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try:
            sub.check(spec, rec)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
    except Reject:
        rec.rejected += 1
        return
    except (Violation, HarnessError, CaseTimeout, KeyboardInterrupt, MemoryError, OSError,
            ImportError, SystemExit):
        raise
    except Exception as e:
        # An exception that no check expected.  From inside the code under test: it raised on a valid
        # input.  From the oracle: the code under test handed back something malformed.
        tb = traceback.extract_tb(e.__traceback__)
        where = [fr for fr in tb if "/pyzx/" in fr.filename]
        loc = "%s:%s" % (where[-1].filename.split("/pyzx/")[-1], where[-1].name) if where else \
            "oracle %s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno or 0)
        raise Violation("raised %s: %s [in %s]" % (type(e).__name__, str(e)[:200], loc)) from e
    rec.end(spec)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    data = json.load(open(p))
    return [e for e in data.get("findings", []) if e["property"] == prop]


def worker(prop, subs, tier, seed, widx, nworkers, outpath, deadline):
    """Runs inside a forked child.  Writes a JSON result to outpath."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    res = {"subs": {}, "violation": None, "error": None, "incomplete": []}
    try:
        for si, sub in enumerate(subs):
            rec = Rec()
            total = sub.quick if tier == "quick" else sub.thorough
            n = total // nworkers + (1 if widx < total % nworkers else 0)
            found = {}
            if widx == 0:
                for spec in sub.fixed:
                    try:
                        run_case(sub, spec, rec)
                    except Violation as e:
                        found["spec"], found["msg"] = spec, str(e)
                        break
                    except CaseTimeout:
                        found["spec"], found["msg"] = spec, "no result after %ds of CPU time" % CPU_LIMIT
                        break
            if n > 0 and not found:
                state = {"stop": False, "timeout": False, "t_fail": None}
                s = int(hashlib.blake2b(("%d/%s/%s/%d" % (seed, prop, sub.name, widx)).encode(),
                                        digest_size=6).hexdigest(), 16)

                @hseed(s)
                @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                          suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                          phases=[Phase.generate, Phase.shrink], print_blob=False)
                @given(sub.strategy())
                def test(spec):
                    if state["stop"]:
                        return
                    if time.time() > deadline and not found:
                        if sub.name not in res["incomplete"]:
                            res["incomplete"].append(sub.name)
                        return
                    if found and time.time() - state["t_fail"] > 60:
                        return      # stop shrinking
                    try:
                        run_case(sub, spec, rec)
                    except Violation as e:
                        if state["t_fail"] is None:
                            state["t_fail"] = time.time()
                        found["spec"], found["msg"] = spec, str(e)
                        raise
                    except CaseTimeout:
                        if not found:
                            found["spec"] = spec
                            found["msg"] = "no result after %d s of CPU time" % CPU_LIMIT
                        state["stop"] = True
                        return
                try:
                    test()
                except Violation:
                    pass
                except BaseException as e:
                    if not found or isinstance(e, (HarnessError,)):
                        raise
                    # e.g. hypothesis Flaky raised because we cut shrinking short: keep `found`
            res["subs"][sub.name] = {
                "evals": rec.evals, "rejected": rec.rejected, "labels": rec.labels,
                "nontrivial": sorted(rec.nontrivial), "samples": rec.samples}
            if found:
                res["violation"] = {"sub": sub.name, "spec": found["spec"], "msg": found["msg"]}
                break
    except BaseException as e:
        res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    with open(outpath + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(outpath + ".tmp", outpath)
