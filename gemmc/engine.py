"""Engine of the checks: runs every case of a check, counts what was covered, reports violations.

A check module (checks/cXX_*.py) defines

    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)          -> list of JSON-able dicts, one bounded exploration each
    run(case, rec)       -> explores the case completely and reports to rec

Every case is explored in one worker process; the set of cases is finite, fixed and enumerated completely.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import random
import signal
import struct
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("GEM_REPO", "/repo")
# development aid (mutation runs): stop at the first violation
FAILFAST = bool(os.environ.get("GEMMC_FAILFAST"))


class Stop(Exception):
    """Raised by rec.fail to leave the current case after too many violations."""


class CaseTimeout(BaseException):
    pass


def _canon(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return "A" + str(x.shape) + ",".join(_canon(v) for v in x.ravel().tolist())
    if isinstance(x, (bool, np.bool_)):
        return "b%d" % x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return "f%.9g" % (0.0 if x == 0 else x)
    if isinstance(x, (int, np.integer)):
        return "i%d" % x
    if isinstance(x, str):
        return "s" + x
    if isinstance(x, dict):
        return "{" + ";".join(_canon(k) + ":" + _canon(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + "}"
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(_canon(v) for v in x) + ")"
    return repr(x)


def digest(x):
    return int.from_bytes(hashlib.blake2b(_canon(x).encode(), digest_size=8).digest(), "big")


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return jsonable(x.item())
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Rec:
    MAX_FAILS = 3

    def __init__(self, case):
        self.case = case
        self.states = set()
        self.outcomes = set()
        self.n_trans = 0
        self.n_traces = 0
        self.n_eval = 0
        self.fails = []
        self.samples = []
        self._fail_keys = {}
        self.notes = set()

    def state(self, *key):
        """A (model/implementation) state that was reached."""
        self.states.add(digest(key))

    def outcome(self, *key):
        """An observed outcome of an evaluation (for counting distinct, non-trivial evaluations)."""
        self.outcomes.add(digest(key))

    def trans(self, n=1):
        self.n_trans += n

    def trace(self, n=1):
        """A complete execution of the implementation that was compared step by step with the model."""
        self.n_traces += n

    def eval(self, n=1):
        self.n_eval += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def fail(self, what, key=None, **detail):
        """Report a violation. key identifies the failing input/call site for the known findings file."""
        k = key or what
        n = self._fail_keys.get(k, 0)
        self._fail_keys[k] = n + 1
        if n == 0:
            self.fails.append({"what": what, "key": key, "detail": jsonable(detail)})
        if key is None and len([f for f in self.fails if f["key"] is None]) >= self.MAX_FAILS:
            raise Stop()

    def expect(self, cond, what, key=None, **detail):
        if not cond:
            self.fail(what, key=key, **detail)
        return bool(cond)

    # -- comparison helpers ------------------------------------------------------------------------------------
    def close(self, got, want, what, rtol=1e-9, atol=1e-9, key=None, **detail):
        import numpy as np

        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape and bool(
                np.all((np.abs(g - w) <= atol + rtol * np.maximum(np.abs(g), np.abs(w))) | (g == w) | (np.isnan(g) & np.isnan(w)))
            )
        except (TypeError, ValueError):
            ok = False
        if not ok:
            self.fail(what, key=key, got=got, want=want, **detail)
        return ok

    def same(self, got, want, what, key=None, **detail):
        """Bit-identical comparison of nested observations (only for the same code run twice)."""
        if not identical(got, want):
            self.fail(what, key=key, got=got, want=want, **detail)
            return False
        return True


def child(fn, *args):
    """fn(*args) in a forked process (which sees nothing of what happens here later and leaves nothing behind)"""
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, fn(*args)))
            except BaseException:
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, res = pickle.loads(data)
    if not ok:
        raise RuntimeError("in a child process: " + res)
    return res


def identical(a, b):
    import numpy as np

    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            return bool(np.all((a == b) | ((a != a) & (b != b))))
        return bool(np.all(a == b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def load(pid):
    for p in sorted((VERIF / "checks").glob("*.py")):
        if p.stem.split("_")[0].upper() == pid.upper():
            return importlib.import_module("checks." + p.stem)
    raise SystemExit("no check for " + pid)


def _alarm(*_):
    raise CaseTimeout()


_MOD = None
_LIMIT = 300


def _work(arg):
    idx, case = arg
    rec = Rec(case)
    t0 = time.time()
    random.seed(12345)
    import numpy as np

    np.random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_LIMIT)
    try:
        _MOD.run(case, rec)
    except Stop:
        pass
    except CaseTimeout:
        rec.fails.append({"what": "case did not finish within %d s" % _LIMIT, "key": None, "detail": {}})
    except Exception as e:  # an exception escaping the code under test is a violation, too
        tb = traceback.format_exc()
        rec.fails.append({"what": "unexpected exception %s: %s" % (type(e).__name__, e), "key": None,
                          "detail": {"traceback": tb[-3000:]}})
    finally:
        signal.alarm(0)
    return (idx, rec.fails, rec.states, rec.outcomes, rec.n_trans, rec.n_traces, rec.n_eval, rec.samples,
            time.time() - t0)


def known_keys(pid):
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: "):
                parts = line[len("known: "):].split(" ", 2)
                if parts[0] == "property=" + pid and parts[1].startswith("key="):
                    out[parts[1][4:]] = parts[2]
    return out


def run_check(pid, tier, only_case=None, out=sys.stdout):
    global _MOD, _LIMIT
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(pid)
    _MOD = mod
    _LIMIT = 240 if tier == "quick" else 1800
    cases = list(mod.cases(tier)) if only_case is None else [only_case]
    # the seed only changes the order in which the (complete) set of cases is visited
    order = list(range(len(cases)))
    random.Random(seed).shuffle(order)
    jobs = [(i, cases[i]) for i in order]
    nproc = min(int(os.environ.get("GEMMC_PROCS", "8")), max(1, len(jobs)))
    states, outcomes = set(), set()
    n_trans = n_traces = n_eval = 0
    fails, samples, times = [], [], []

    def absorb(res):
        nonlocal n_trans, n_traces, n_eval
        idx, fl, st, oc, tr, tc, ev, sm, dt = res
        states.update(st)
        outcomes.update(oc)
        n_trans += tr
        n_traces += tc
        n_eval += ev
        times.append((dt, idx))
        for s in sm:
            if len(samples) < 4:
                samples.append({"case": jsonable(cases[idx]), "observed": s})
        for f in fl:
            fails.append((idx, f))

    if nproc == 1 or getattr(mod, "SERIAL", False):
        for j in jobs:
            absorb(_work(j))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=getattr(mod, "MAXTASKS", None)) as pool:
            chunk = getattr(mod, "CHUNK", 0) or max(1, min(8, len(jobs) // (nproc * 8)))
            if FAILFAST:
                chunk = 1
            for res in pool.imap_unordered(_work, jobs, chunksize=chunk):
                absorb(res)
                if FAILFAST and any(f["key"] is None or f["key"] not in known_keys(pid) for f in res[1]):
                    break
    fails.sort(key=lambda x: x[0])
    known = known_keys(pid)
    new, old = [], {}
    for idx, f in fails:
        if f["key"] is not None and f["key"] in known:
            old.setdefault(f["key"], f)
        else:
            new.append((idx, f))
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]), file=out)
    rdir = VERIF / "evidence" / "replays"
    reported = 0
    if new and only_case is None:
        rdir.mkdir(parents=True, exist_ok=True)
    seen = set()
    for idx, f in new:
        sig = f["what"]
        if sig in seen or reported >= 10:
            continue
        seen.add(sig)
        path = rdir / ("%s-%d.json" % (pid, reported))
        if only_case is None:
            path.write_text(json.dumps({"property": pid, "tier": tier, "case": jsonable(cases[idx]), **f}, indent=1))
        print("VIOLATION property=%s replay=%s" % (pid, path), file=out)
        print("  what: %s" % f["what"], file=out)
        print("  case: %s" % json.dumps(jsonable(cases[idx]))[:600], file=out)
        print("  detail: %s" % json.dumps(f["detail"])[:1500].replace("\\n", "\n    "), file=out)
        reported += 1
    wall = time.time() - t0
    if only_case is None:
        cov = {"exhaustive": True, "samples": samples or [{"case": jsonable(cases[0])}], "cases": len(cases)}
        if mod.LEVEL == "model_checking":
            cov.update(states=len(states), transitions=n_trans, traces_validated_against_impl=n_traces,
                       rule=mod.RULE)
            if n_eval:
                cov["checked_conditions"] = n_eval
        else:
            cov.update(evaluations=n_traces, distinct_nontrivial=len(outcomes), rule=mod.RULE)
            cov["states"] = len(states)
            cov["transitions"] = n_trans
        ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
              "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(wall, 2), "violations": len(new)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1))
    times.sort(reverse=True)
    print("%s %s: %d cases, %d states, %d transitions, %d traces, %d outcomes, %d violations, %d known, %.1f s (slowest case %.1f s)"
          % (pid, tier, len(cases), len(states), n_trans, n_traces, len(outcomes), len(new), len(old), wall,
             times[0][0] if times else 0), file=out)
    return 1 if new else 0
