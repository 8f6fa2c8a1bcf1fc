"""C16: the weighted sum of errors reward."""
import itertools
import math
import warnings

import numpy as np

from gym_electric_motor.core import Callback, ConstraintMonitor
from gym_electric_motor.reward_functions import WeightedSumOfErrors

from gemmc import build, envs

ID = "C16"
LEVEL = "model_checking"
RULE = ("every combination of weights (default, dict, list, array, one/several/all states), norming, bias, power (number, dict, list), gamma and violation reward of the lattice on "
        "systems with unipolar and bipolar states and zero to three referenced states; for each the full lattice of state and reference values of up to three weighted states x "
        "violation degrees against the documented formula, range, maximum and monotonicity; and every action sequence up to the depth on real environments with soft and hard "
        "constraints against the formula evaluated on the callback's data")
ASSUMPTIONS = ["powers given as a dict name all states", "states and references inside the declared state space for the range"]

SYS = dict(dc4=("PermExDc", ["4QC", 0.0]), dc1=("PermExDc", ["1QC", 0.0]), ser=("SeriesDc", ["2QC", 0.0]), ext=("ExtExDc", ["Multi", [["4QC", 0.0], ["1QC", 0.0]]]),
           pmsm=("PMSM", None), eesm=("EESM", None), scim=("SCIM", None))
REFD = dict(none=[], one=[0], two=[1, 0], three=[0, 2, 1])


def interesting(sysname):
    return dict(dc4=["i", "omega", "u"], dc1=["i", "omega", "torque"], ser=["torque", "i", "omega"], ext=["i_a", "i_e", "omega"], pmsm=["i_sd", "i_sq", "omega"],
                eesm=["i_sq", "i_e", "torque"], scim=["i_sd", "torque", "omega"])[sysname]


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in SYS:
        for r in REFD:
            for w in ("default", "dict1", "dict2", "dict3", "list", "array", "equal"):
                out.append(dict(kind="lattice", sys=s, refs=r, weights=w, fine=th))
    for s in SYS:
        for fin in (True, False):
            for cfg in range(5):
                out.append(dict(kind="env", sys=s, finite=fin, cfg=cfg, depth=4 if th else 3))
    return out


def spec_of(case, **kw):
    m, conv = SYS[case["sys"]]
    st = interesting(case["sys"])
    refs = [st[i] for i in REFD[case.get("refs", "one")]]
    if not refs:
        ref = dict(kind="zero")
    elif len(refs) == 1:
        ref = dict(kind="const", state=refs[0], reference_value=0.3)
    else:
        ref = dict(kind="multi", subs=[dict(kind="const", state=r, reference_value=0.2 + 0.1 * i) for i, r in enumerate(refs)])
    fin = case.get("finite", False)
    s = envs.spec(m, fin, ref=ref, **({"conv": conv} if conv else {}), **kw)
    return s, refs


def weights_of(kind, names, st, refs):
    """(argument, {name: weight})"""
    if kind == "default":
        r = refs or names
        return None, {n: 1.0 / len(r) for n in r}
    if kind in ("dict1", "dict2", "dict3"):
        k = int(kind[-1])
        d = dict(zip(st[:k], (0.7, 2.0, 0.05)))
        return dict(d), d
    if kind == "list":
        d = {n: 0.0 for n in names}
        d[st[1]], d[st[2]] = 1.5, 0.25
        return [d[n] for n in names], d
    if kind == "array":
        d = {n: 0.0 for n in names}
        d[st[0]], d[st[2]] = 3.0, 1.0
        return np.array([d[n] for n in names]), d
    if kind == "equal":
        return 0.5, {n: 0.5 for n in names}
    raise ValueError(kind)


class Model:
    def __init__(self, names, low, w, normed, bias, power, gamma, viol):
        tot = math.fsum(w.values())
        self.w = {n: (v / tot if normed else v) for n, v in w.items() if v}
        tot = 1.0 if normed else tot
        self.b = tot if bias == "positive" else bias
        self.len = {n: 2.0 if l < 0 else 1.0 for n, l in zip(names, low)}
        self.n = power if isinstance(power, dict) else {n: power for n in names}
        self.range = (self.b - tot, self.b)
        self.viol = viol if viol is not None else min(self.range[0] / (1.0 - gamma), 0.0)
        self.pos = {n: i for i, n in enumerate(names)}

    def wse(self, s, r):
        return self.b - math.fsum(w * (abs(float(s[self.pos[n]]) - float(r[self.pos[n]])) / self.len[n]) ** self.n[n] for n, w in self.w.items())

    def reward(self, s, r, d):
        return (1.0 - d) * self.wse(s, r) + d * self.viol


def configs(names):
    pw = {n: 1.0 + 0.5 * (i % 4) for i, n in enumerate(names)}
    for normed, bias, power, (gamma, viol) in itertools.product(
            (False, True), (0.0, 0.5, -0.4, "positive"), (1, 2, 0.5, "dict", "list"), ((0.9, None), (0.0, None), (0.99, None), (0.5, -7.5), (0.9, 0.0), (0.9, 3.0))):
        arg = dict(pw) if power == "dict" else [pw[n] for n in names] if power == "list" else power
        yield normed, bias, power, arg, (pw if power in ("dict", "list") else power), gamma, viol


def run_lattice(case, rec):
    s, refs = spec_of(case)
    st = interesting(case["sys"])
    ps = envs.physical_system(s)
    rg = envs.generator(s["ref"])
    rg.set_modules(ps)
    cm = ConstraintMonitor([])
    cm.set_modules(ps)
    names = list(ps.state_names)
    low = ps.state_space.low.tolist()
    grid = (-1.0, -0.4, 0.0, 0.7, 1.0) if case["fine"] else (-1.0, -0.3, 0.5, 1.0)
    vals = {n: [v for v in grid if v >= low[names.index(n)]] for n in names}
    for n_c, (normed, bias, power, arg, mpow, gamma, viol) in enumerate(configs(names)):
        warg, w = weights_of(case["weights"], names, st, refs)
        keep = (warg.copy() if hasattr(warg, "copy") else warg, arg.copy() if hasattr(arg, "copy") else arg)
        f = WeightedSumOfErrors(reward_weights=warg, normed_reward_weights=normed, violation_reward=viol, gamma=gamma, reward_power=arg, bias=bias)
        f.set_modules(ps, rg, cm)
        m = Model(names, low, w, normed, bias, mpow, gamma, viol)
        rec.close(f.reward_range, m.range, "announced reward range", rtol=1e-12, atol=1e-12, config=(case["weights"], normed, bias))
        varied = [n for n in names if m.w.get(n)]
        if len(varied) > 3:
            varied = st
        if len(varied) == 3 and not case["fine"] and n_c % 4:
            varied = varied[:2]
        # gamma and violation reward only enter the violation reward: one entry varies there
        if n_c % 6 and not case["fine"]:
            varied = varied[n_c % len(varied):][:1]
        rec.states.add(hash((case["sys"], case["refs"], case["weights"], normed, str(bias), str(power), gamma, viol)))
        base = 0.0 if len(varied) < len(names) else 0.0
        for sv in itertools.product(*[vals[n] for n in varied]):
            for rv in itertools.product(*[vals[n] for n in varied]):
                state = np.full(len(names), base)
                ref = np.full(len(names), base)
                for n, a, b in zip(varied, sv, rv):
                    state[m.pos[n]], ref[m.pos[n]] = a, b
                for d in (0.0, 0.25, 1.0):
                    got = float(f.reward(state, ref, 3, None, d))
                    want = m.reward(state, ref, d)
                    if not abs(got - want) <= 1e-12 * max(1.0, abs(want)):
                        rec.fail("reward differs from the documented formula", got=got, want=want, degree=d, state=dict(zip(varied, sv)), reference=dict(zip(varied, rv)),
                                 config=(case["weights"], normed, bias, power, gamma, viol))
                    if d == 0.0:
                        if not m.range[0] - 1e-12 <= got <= m.range[1] + 1e-12 or (sv == rv and abs(got - m.range[1]) > 1e-12):
                            rec.fail("reward outside the announced range or not maximal at zero error", got=got, range=f.reward_range, state=sv, reference=rv)
                        free = got
                    elif d == 1.0 and viol is None:
                        # never better than to continue with the worst reward forever
                        if got > min(m.range[0] / (1 - gamma), 0.0) + 1e-9:
                            rec.fail("default violation reward is better than the worst episode", got=got, gamma=gamma, range=m.range)
                    rec.trans()
                # growing error of one entry never improves the reward
                for n, a, b in zip(varied, sv, rv):
                    for a2 in vals[n]:
                        if abs(a2 - b) > abs(a - b):
                            s2 = state.copy()
                            s2[m.pos[n]] = a2
                            if float(f.reward(s2, ref, 0, None, 0.0)) > free + 1e-12:
                                rec.fail("a larger error gives a better reward", state=sv, reference=rv, entry=n, value=a2)
                            rec.trans()
                            break
        rec.trace()
        if not (np.array_equal(keep[0], warg) if isinstance(warg, np.ndarray) else keep[0] == warg) or keep[1] != arg:
            rec.fail("arguments of the caller were changed", got=(warg, arg), want=keep)
    rec.sample(dict(model_weights=m.w, range=m.range, violation_reward=m.viol))


CFG = [dict(), dict(reward_weights="w", bias="positive", normed_reward_weights=True, gamma=0.8), dict(reward_power=2, bias=-0.2), dict(reward_weights="w", violation_reward=-3.5, bias="positive"),
       dict(reward_power=0.5, gamma=0.0, normed_reward_weights=True)]


class Tap(Callback):
    def __init__(self):
        super().__init__()
        self.got = []

    def on_step_end(self, k, state, reference, reward, done):
        self.got.append((np.array(state, copy=True), np.array(reference, copy=True), float(reward), done))


def run_env(case, rec):
    s, refs = spec_of(dict(case, refs="two"))
    st = interesting(case["sys"])
    s["tau"] = 1e-4
    s["conv"] = build.default_conv(s["motor"]) if SYS[case["sys"]][1] is None else s["conv"]
    cfg = dict(CFG[case["cfg"]])
    w = dict(zip(st, (0.4, 1.1, 0.5)))
    if cfg.get("reward_weights") == "w":
        cfg["reward_weights"] = dict(w)
    soft = lambda x: min(1.0, (float(np.max(np.abs(x[: 3]))) / 0.9) ** 2)
    cons = ConstraintMonitor(envs.CUR[s["motor"]], [soft] if case["cfg"] % 2 else [], "product" if case["cfg"] == 1 else "max")
    tap = Tap()
    e = envs.env(s, callbacks=(tap,), constraint_monitor=cons, reward_function=WeightedSumOfErrors(**cfg))
    ps = e.physical_system
    names = list(ps.state_names)
    ww = w if "reward_weights" in cfg else {n: 1.0 / len(refs) for n in refs}
    m = Model(names, ps.state_space.low.tolist(), ww, cfg.get("normed_reward_weights", False), cfg.get("bias", 0.0), cfg.get("reward_power", 1), cfg.get("gamma", 0.9),
              cfg.get("violation_reward"))
    rec.close(e.reward_range, m.range, "reward range of the environment", rtol=1e-12)
    acts = envs.actions(e)
    pick = [acts[i] for i in sorted({0, 1, len(acts) - 1, len(acts) // 2})]
    want_ref = {r: 0.2 + 0.1 * i for i, r in enumerate(refs)}
    for seq in itertools.product(range(len(pick)), repeat=case["depth"]):
        e.reset()
        for i in list(seq) + [seq[-1]] * 4:
            tap.got.clear()
            (obs, nref), rew, term, trunc, _ = e.step(pick[i])
            state, ref, r2, done = tap.got[0]
            d = cons.check_constraints(state)
            want = m.reward(state, ref, d)
            rec.close(rew, want, "reward of a step", rtol=1e-11, atol=1e-12, state=state, reference=ref, degree=d)
            rec.expect(r2 == rew, "reward of the callback", got=r2, want=rew)
            for n, v in want_ref.items():
                rec.expect(ref[names.index(n)] == v, "reference used by the reward", state=n, got=ref[names.index(n)], want=v)
            inside = all(l - 1e-12 <= x <= 1 + 1e-12 for l, x in zip(ps.state_space.low, state))
            if d == 0.0 and inside:
                rec.expect(m.range[0] - 1e-12 <= rew <= m.range[1] + 1e-12, "reward outside the announced range", got=rew, range=m.range)
            rec.expect(bool(term) == (d >= 1.0), "termination", degree=d)
            if d >= 1.0:
                rec.close(rew, m.viol, "violation reward", rtol=1e-12)
            rec.trans()
            rec.states.add(hash((case["sys"], case["cfg"], state.tobytes())))
            if term:
                break
        rec.trace()
    rec.sample(dict(config=cfg, range=m.range, last_reward=rew))


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        (run_lattice if case["kind"] == "lattice" else run_env)(case, rec)
