"""C28: environments used from different threads do not interact; all preemption-bounded schedules of two threads on the real code."""
import sys
import threading

import numpy as np

from gemmc import build, engine, envs, zoo

ID = "C28"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking: all schedules of two real threads with a bounded number of preemptions under a controlled scheduler"
RULE = ("two threads, each with its own environment (same class with other parameters, and different classes): every schedule in which one thread is preempted once, at any "
        "executed source line of the library (stepping scripts) or at any function entry (scripts with construction and reset), and the other one runs to its end; every schedule with "
        "two preemptions at function entries (stride in the quick tier); all outputs are compared bit by bit with the same script run alone in a fresh process")
ASSUMPTIONS = ["preemptions happen between source lines or function entries of the library", "each environment is used by one thread",
               "solvers: dopri5, solve_ivp and Euler (scipy's own multistep integrators are not re-entrant)"]
CHUNK = 1
MAXTASKS = 1
TIMEOUT = 30.0
SRC = "/gym_electric_motor/"


class Hang(Exception):
    pass


class Sched:
    """Runs two scripts in two real threads, of which exactly one is allowed to run at any time.

    plan: list of event counts; the running thread is preempted when it executes its n-th event since it was last resumed."""

    def __init__(self, scripts, plan, first, lines, record=None):
        self.scripts, self.plan, self.lines = scripts, list(plan), lines
        self.gate = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.out = [None, None]
        self.err = [None, None]
        self.left = self.plan.pop(0) if self.plan else -1
        self.first = first
        self.count = [0, 0]
        self.armed = [False, False]
        self.taken = 0

    def hit(self, t):
        self.count[t] += 1
        if self.left < 0 or not self.armed[t]:
            return
        self.left -= 1
        if self.left == 0:
            self.left = self.plan.pop(0) if self.plan else -1
            o = 1 - t
            if not self.done[o]:
                self.taken += 1
                self.gate[o].release()
                if not self.gate[t].acquire(timeout=TIMEOUT):
                    raise Hang()

    def tracer(self, t):
        lines = self.lines

        def local(frame, event, arg):
            if event == "line":
                self.hit(t)
            return local

        def glob(frame, event, arg):
            if SRC not in frame.f_code.co_filename:
                return None
            if lines:
                return local
            self.hit(t)
            return None

        return glob

    def body(self, t):
        if not self.gate[t].acquire(timeout=TIMEOUT):
            self.err[t] = "not scheduled"
            return
        try:
            script = self.scripts[t]
            sys.settrace(self.tracer(t))
            try:
                self.out[t] = script(lambda on=True: self.armed.__setitem__(t, on))
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001 - reported by the caller
            self.err[t] = repr(e)
        finally:
            self.done[t] = True
            o = 1 - t
            if not self.done[o]:
                self.gate[o].release()

    def run(self):
        ths = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in (0, 1)]
        for th in ths:
            th.start()
        self.gate[self.first].release()
        for th in ths:
            th.join(TIMEOUT + 5)
        if any(th.is_alive() for th in ths):
            raise Hang()
        return self


def make(d):
    """description -> environment"""
    if "id" in d:
        import gym_electric_motor as gem

        return gem.make(d["id"]).unwrapped
    if "zoo" in d:
        return envs.env(dict(zoo.all_()[d["zoo"]], constraints=[], **d.get("kw", {})))
    s = envs.spec(d["plain"], d["finite"], constraints=[], mp=build.MP[d["plain"]][d.get("mp", "d")], **d.get("kw", {}))
    return envs.env(s)


def script(d, n, whole):
    """whole: construction, reset and steps may be preempted; otherwise only the steps (and a reset in between) of an existing environment"""
    box = {}

    def prepare():
        box["e"] = make(d)
        box["acts"] = envs.actions(box["e"])

    def run(arm):
        if whole:
            arm()
            prepare()
        e, acts = box["e"], box["acts"]
        if not whole:
            e.reset(seed=5)
            arm()
        out = [envs.flat(e.reset(seed=5))] if whole else []
        off = d.get("off", 0)
        for k in range(n):
            out.append(envs.flat(e.step(acts[(off + 1 + 3 * k) % len(acts)])))
            if k == n - 2:
                out.append(envs.flat(e.reset()))
        arm(False)
        return out

    if not whole:
        prepare()
    return run


def alone(d, n, whole):
    return script(d, n, whole)(lambda on=True: None)


def pairs():
    out = []
    for m in build.MOTOR:
        for fin in (True, False):
            out.append((dict(plain=m, finite=fin, kw=dict(il=0.1)), dict(plain=m, finite=fin, mp="x", off=1, kw=dict(il=0.2, supply=dict(kind="rc", u=50.0, R=0.5, C=1e-3)))))
    fam = list(build.MOTOR)
    for k, m in enumerate(fam):
        o = fam[(k + 1) % len(fam)]
        out.append((dict(plain=m, finite=True), dict(plain=o, finite=False, off=2)))
    z = sorted(zoo.combined())
    for k, m in enumerate(z):
        out.append((dict(zoo=m), dict(zoo=m, off=1)))
        out.append((dict(zoo=m), dict(zoo=z[(k + 3) % len(z)], off=1)))
    return out


def cases(tier):
    th = tier == "thorough"
    out = []
    for k, (a, b) in enumerate(pairs()):
        for r, (x, y) in enumerate(((a, b), (b, a))):
            if th or (k % 2 == r and k < 37):
                out.append(dict(a=x, b=y, mode="line", steps=3 if th else 2, stride=1))
            out.append(dict(a=x, b=y, mode="whole", steps=2, stride=1 if th else 9))
            if th or (k + r) % 8 == 0:
                out.append(dict(a=x, b=y, mode="two", steps=2, stride=2 if th else 7))
    ids = envs.ids()
    for k, i in enumerate(ids):
        if th or k % 6 == 0:
            out.append(dict(a=dict(id=i), b=dict(id=i, off=1), mode="whole", steps=2, stride=5 if th else 11))
    return out


def run(case, rec):
    whole = case["mode"] == "whole"
    lines = case["mode"] == "line"
    n = case["steps"]
    want = [engine.child(alone, case["a"], n, whole), engine.child(alone, case["b"], n, whole)]

    def go(plan):
        ds = (case["a"], case["b"])
        try:
            s = Sched([script(d, n, whole) for d in ds], plan, 0, lines).run()
        except Hang:
            rec.fail("threads block each other", plan=plan)
            return None
        for t in (0, 1):
            if s.err[t]:
                rec.fail("exception in a thread", plan=plan, thread=t, got=s.err[t])
            elif not engine.identical(s.out[t], want[t]):
                k = next(i for i in range(len(want[t])) if not engine.identical(s.out[t][i], want[t][i]))
                rec.fail("output differs from that of the environment alone", plan=plan, thread=t, index=k, got=s.out[t][k], want=want[t][k])
        rec.trace()
        rec.trans(s.taken + 1)
        rec.states.add(hash((str(case["a"]), str(case["b"]), case["mode"], tuple(plan))))
        return s

    s = go([])
    if s is None:
        return
    total, other = s.count
    # events before the scripts are armed are counted as well, so the loop may run past the last event
    hits = 0
    k = 1
    while k <= total:
        s = go([k])
        if s is None:
            return
        if not s.taken:
            break
        hits += 1
        if case["mode"] == "two":
            j = 1
            while j <= other:
                s = go([k, j])
                if s is None:
                    return
                if s.taken < 2:
                    break
                j += case["stride"]
        k += case["stride"]
    rec.expect(hits > 0, "no preemption took place", got=hits)
    rec.sample(dict(a=case["a"], b=case["b"], mode=case["mode"], events=[total, other], preemption_points=hits))
