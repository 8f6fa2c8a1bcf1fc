"""C15: constraints, merge rules and termination."""
import itertools
import math

import numpy as np

from gym_electric_motor.constraints import Constraint, LimitConstraint, SquaredConstraint
from gym_electric_motor.core import Callback, ConstraintMonitor

from gemmc import build, envs

ID = "C15"
LEVEL = "model_checking"
RULE = ("constraint objects: every state vector with at most two (thorough three) nonzero entries of the lattice {+-1.5, +-(1+1e-9), +-1, +-0.3} (pairs: five or eight values each) for every observed subset (all subsets "
        "of the DC drives; singles, pairs, complements and all states of the others) and squared constraints on every pair/triple; merge rules: all degree tuples up to "
        "length 4 from {0, 0.2, 0.5, 0.9, 1}; real environments: every form of passing constraints x every action sequence up to the depth, one more (inner or outer) limit "
        "violation run, episode by episode; termination and violation degree compared with an independent evaluation of the callback's state")
ASSUMPTIONS = ["state vectors of the lattice are given to the constraint objects of a real environment directly"]

EPS = 1e-9
VALS = (1.5, -1.5, 1.0 + EPS, -1.0 - EPS, 1.0, -1.0, 0.3, -0.3)


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in build.MOTOR:
        out.append(dict(kind="lattice", motor=m, nz=3 if th and m in envs.DC[:3] else 2, full=th))
        # a limit of exactly one: physical and normalised values agree
        for one in ("omega", "i", "torque"):
            out.append(dict(kind="lattice", motor=m, nz=2, full=False, one=one))
    for n in range(0, 5):
        out.append(dict(kind="merge", n=n))
    for m in build.MOTOR:
        for fin in (True, False):
            for form in FORMS:
                out.append(dict(kind="env", motor=m, finite=fin, form=form, depth=4 if th else 3, episodes=3))
    for m in ("PermExDc", "PMSM"):
        out.append(dict(kind="callable-merge", motor=m))
    return out


def limit_ref(names, observed, state):
    return 1.0 if any(abs(state[names.index(o)]) > 1.0 for o in observed) else 0.0


def square_ref(names, observed, state):
    return 1.0 if math.fsum(state[names.index(o)] ** 2 for o in observed) > 1.0 else 0.0


PAIR = (1.5, -1.0 - EPS, -1.0, 0.8, -0.5)


def vectors(n, nz, full):
    yield np.zeros(n)
    for k in range(1, nz + 1):
        for pos in itertools.combinations(range(n), k):
            for vals in itertools.product(VALS if k == 1 or (full and k == 2) else PAIR, repeat=k):
                v = np.zeros(n)
                v[list(pos)] = vals
                yield v


def run_lattice(case, rec):
    kw = {}
    if "one" in case:
        one = {"i": envs.CUR[case["motor"]][0]}.get(case["one"], case["one"]) if case["motor"] in envs.DC else case["one"]
        kw = dict(limit_values={one: 1.0}, nominal_values={one: 1.0})
    ps = envs.physical_system(envs.spec(case["motor"], False, **kw))
    names = list(ps.state_names)
    n = len(names)
    if "one" in case:
        rec.expect(1.0 in [float(x) for x in ps.limits], "a limit of one", got=ps.limits)
    if n <= 9:
        subs = [c for k in range(0, n + 1) for c in itertools.combinations(names, k)]
        if n > 7:
            subs = [c for c in subs if len(c) in (0, 1, 2, n - 1, n)]
    else:
        subs = [(x,) for x in names] + list(itertools.combinations(names, 2)) + [tuple(y for y in names if y != x) for x in names] + [tuple(names), ()]
    objs = []
    for s in subs:
        c = LimitConstraint(list(s))
        c.set_modules(ps)
        objs.append(("limit", s, c))
    for word in ("all_states", ["all"], ["all_states"], ["omega", "all"], tuple(names)):
        c = LimitConstraint(word)
        c.set_modules(ps)
        objs.append(("limit", tuple(names), c))
    c = LimitConstraint()
    c.set_modules(ps)
    objs.append(("limit", tuple(names), c))
    for k in (1, 2, 3):
        for s in itertools.combinations(names, k):
            if k == 3 and n > 9 and not (set(s) <= set(x for x in names if x.startswith("i_"))):
                continue
            c = SquaredConstraint(s)
            c.set_modules(ps)
            objs.append(("square", s, c))
    for v in vectors(n, case["nz"], case["full"]):
        nz = frozenset(names[i] for i in np.flatnonzero(v))
        seen = set()
        was = v.copy()
        for kind, s, c in objs:
            rel = (kind, frozenset(s) & nz)
            # constraints observing the same nonzero entries are all evaluated, the reference only once
            want = limit_ref(names, s, v) if kind == "limit" else square_ref(names, s, v)
            if kind == "square" and abs(math.fsum(v[names.index(o)] ** 2 for o in s) - 1.0) < 1e-10 and sum(v[names.index(o)] != 0 for o in s) > 1:
                continue
            got = c(v)
            rec.eval()
            if got != want or not isinstance(float(got), float):
                rec.fail("violation degree of a %s constraint" % kind, observed=s, state=dict(zip(names, v.tolist())), got=got, want=want)
            seen.add(rel)
        if not np.array_equal(v, was):
            rec.fail("a constraint changed the state", state=was)
        rec.states.add(hash((case["motor"], v.tobytes())))
        rec.trans(len(objs))
    rec.trace(len(objs))
    rec.sample(dict(constraints=len(objs)))


def run_merge(case, rec):
    ps = envs.physical_system(envs.spec("PermExDc", False))
    names = list(ps.state_names)
    n = case["n"]
    cell = [0.0] * n
    funcs = [(lambda st, i=i: cell[i]) for i in range(n)]

    class Obj(Constraint):
        def __init__(self, i):
            self.i, self.ps = i, None

        def set_modules(self, ps):
            self.ps = ps

        def __call__(self, st):
            assert self.ps is ps
            return cell[self.i]

    lim = [None, ["omega"], "all_states"]
    mons = []
    for l in lim:
        for merge in ("max", "product"):
            for cons in (funcs, [Obj(i) for i in range(n)]):
                m = ConstraintMonitor(limit_constraints=l or (), additional_constraints=cons, merge_violations=merge)
                m.set_modules(ps)
                mons.append((l, merge, m))
    m = ConstraintMonitor(additional_constraints=funcs)
    m.set_modules(ps)
    mons.append((None, "max", m))
    seen = []

    def mean(*degrees):
        v = [float(d) for d in np.ravel(degrees[0] if len(degrees) == 1 else degrees)]
        seen.append(sorted(v))
        return sum(v) / len(v)

    own = []
    for l in lim:
        if n or l:
            m = ConstraintMonitor(limit_constraints=l or (), additional_constraints=funcs, merge_violations=mean)
            m.set_modules(ps)
            own.append((l, m))
    for tup in itertools.product((0.0, 0.2, 0.5, 0.9, 1.0), repeat=n):
        cell[:] = tup
        for om in (0.0, 0.4, -1.2, 1.2):
            for cur in (0.5, 1.2):
                st = np.zeros(len(names))
                st[names.index("omega")] = om
                st[names.index("i")] = cur
                for l, merge, m in mons:
                    deg = list(tup)
                    if l is not None:
                        deg.append(limit_ref(names, ["omega"] if l != "all_states" else names, st))
                    if not deg:
                        want = 0.0
                    elif merge == "max":
                        want = max(deg)
                    else:
                        want = 1.0
                        for d in deg:
                            want *= 1.0 - d
                        want = 1.0 - want
                    got = m.check_constraints(st)
                    rec.close(got, want, "merged violation degree (%s)" % merge, rtol=0, atol=1e-12, degrees=deg, limit=l)
                    rec.expect(0.0 <= got <= 1.0, "violation degree outside [0, 1]", got=got, degrees=deg)
                    rec.expect((got >= 1.0) == any(d >= 1.0 for d in deg), "full violation iff one constraint is fully violated", degrees=deg, got=got)
                    rec.trans()
                for l, m in own:
                    deg = sorted(list(tup) + ([limit_ref(names, ["omega"] if l != "all_states" else names, st)] if l is not None else []))
                    del seen[:]
                    got = m.check_constraints(st)
                    if seen != [deg] or abs(got - sum(deg) / len(deg)) > 1e-12:
                        rec.fail("a custom merge function gets every violation degree exactly once and its result is used", degrees=deg, got=(seen, got))
                    rec.trans()
        rec.states.add(hash(("merge", tup)))
    rec.trace(len(mons))


def run_callable(case, rec):
    """callable(*violation_degrees) -> float"""
    seen = []

    def merge(*degrees):
        seen.append(degrees)
        return 0.25

    cm = ConstraintMonitor(["omega"], [lambda s: 0.3, lambda s: 0.6], merge)
    e = envs.env(envs.spec(case["motor"], True), constraint_monitor=cm)
    e.reset()
    out = e.step(1)
    rec.expect(not out[2], "merged degree below one terminates")
    rec.trans()
    rec.trace()
    rec.state(case["motor"])
    if not seen or sorted(float(x) for x in np.ravel(seen[-1])) != [0.0, 0.3, 0.6]:
        rec.fail("a merge function does not receive the violation degrees", got=seen)
    elif len(seen[-1]) != 3:
        rec.fail("a merge function documented as callable(*violation_degrees) receives one list", key="merge-callable-list", got=seen)


class Square2(Constraint):
    """soft zone: degree grows from 0 at 0.01 to 1 at 0.05 of the speed limit"""

    def set_modules(self, ps):
        self.i = ps.state_positions["torque"]

    def __call__(self, st):
        return min(1.0, abs(st[self.i]) / 0.8)


def soft(st):
    return min(1.0, abs(float(st[0])) / 0.5)


FORMS = ("none", "strings", "all", "objects", "callable", "monitor-max", "monitor-product", "squared", "unobserved")


def build_form(form, motor, ps_names):
    """constraints argument, and the reference: f(names, state) -> degree"""
    cur = envs.CUR[motor]
    if form == "none":
        return [], lambda n, s: 0.0
    if form == "strings":
        return list(cur) + ["omega"], lambda n, s: limit_ref(n, cur + ["omega"], s)
    if form == "all":
        return ["all_states"], lambda n, s: limit_ref(n, n, s)
    if form == "objects":
        return [LimitConstraint(["torque"]), LimitConstraint([cur[-1]]), cur[0]], lambda n, s: limit_ref(n, ["torque", cur[0], cur[-1]], s)
    if form == "callable":
        return [soft, "torque"], lambda n, s: max(min(1.0, abs(s[0]) / 0.5), limit_ref(n, ["torque"], s))
    if form == "monitor-max":
        return ConstraintMonitor(cur, [soft, Square2()], "max"), lambda n, s: max(limit_ref(n, cur, s), min(1.0, abs(s[0]) / 0.5), min(1.0, abs(s[n.index("torque")]) / 0.8))
    if form == "monitor-product":
        return ConstraintMonitor(cur, [soft, Square2()], "product"), lambda n, s: 1 - (1 - limit_ref(n, cur, s)) * (1 - min(1.0, abs(s[0]) / 0.5)) * (
            1 - min(1.0, abs(s[n.index("torque")]) / 0.8))
    if form == "squared":
        two = tuple(cur[:2]) if len(cur) > 1 else (cur[0], "torque")
        return [SquaredConstraint(two), "omega"], lambda n, s: max(square_ref(n, two, s), limit_ref(n, ["omega"], s))
    if form == "unobserved":
        last = "omega"
        return [last], lambda n, s: limit_ref(n, [last], s)
    raise ValueError(form)


class Tap(Callback):
    def __init__(self):
        super().__init__()
        self.last = None

    def on_step_end(self, k, state, reference, reward, done):
        self.last = (k, np.array(state, copy=True), bool(done))


def run_env(case, rec):
    m = case["motor"]
    s = envs.spec(m, case["finite"], il=0.2 if case["finite"] else 0.0)
    # low limits, so that the corner actions leave them within a few steps
    lim = dict(PermExDc="i", SeriesDc="i", ShuntDc="i_a", ExtExDc="i_a").get(m, "i")
    s["limit_values"] = {lim: 6.0}
    s["nominal_values"] = {lim: 5.0}
    s["tau"] = 1e-4 if m not in ("SCIM", "DFIM") else 5e-4
    s["conv"] = build.default_conv(m, 2e-5 if case["finite"] else 0.0)
    probe = envs.physical_system(s)
    cons, ref = build_form(case["form"], m, list(probe.state_names))
    tap = Tap()
    s["constraints"] = []
    from gym_electric_motor import core
    from gym_electric_motor.reward_functions import WeightedSumOfErrors
    e = core.ElectricMotorEnvironment(physical_system=probe, reference_generator=envs.generator(s["ref"]), reward_function=WeightedSumOfErrors(),
                                      callbacks=(tap,), constraints=cons)
    names = list(e.physical_system.state_names)
    acts = envs.actions(e)
    pick = [acts[i] for i in sorted({1, len(acts) - 1, len(acts) // 2, len(acts) // 3})] if len(acts) > 4 else list(acts)
    ended = 0
    for seq in itertools.product(range(len(pick)), repeat=case["depth"]):
        for ep in range(2):
            (obs, _), _ = e.reset()
            runs = list(seq) + ([seq[-1]] * 12 if ep else [])
            for i, a in enumerate(runs):
                (obs, _), rew, term, trunc, _ = e.step(pick[a])
                k, st, done = tap.last
                want = ref(names, st.tolist())
                rec.trans()
                rec.states.add(hash((m, case["form"], st.tobytes())))
                if bool(term) != (want >= 1.0) or done != bool(term):
                    if abs(want - 1.0) > 1e-9 or case["form"] == "unobserved":
                        rec.fail("termination differs from the violation of the observed constraints", sequence=list(runs[: i + 1]), state=dict(zip(names, st.tolist())),
                                 terminated=bool(term), degree=want)
                rec.expect(trunc is False or trunc == False, "truncated flag", got=trunc)  # noqa: E712
                rec.close(e.constraint_monitor.check_constraints(st), want, "violation degree", rtol=0, atol=1e-12, state=st)
                if not np.array_equal(obs, st):
                    rec.fail("observed state differs from the state that was checked", got=obs, want=st)
                if term:
                    ended += 1
                    break
            rec.trace()
    rec.sample(dict(terminated_episodes=ended))


def run(case, rec):
    dict(lattice=run_lattice, merge=run_merge, env=run_env)[case["kind"]](case, rec) if case["kind"] != "callable-merge" else run_callable(case, rec)
