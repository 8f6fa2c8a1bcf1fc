"""C17: the reference that is shown is the reference that is rewarded."""
import itertools

import numpy as np

from gym_electric_motor.core import Callback, RewardFunction

from gemmc import envs, script

ID = "C17"
LEVEL = "model_checking"
RULE = ("every reference generator and combination (multiple, switched, nested, any order) on several machines and wrapper stacks x every outcome of the first random draws of a "
        "lattice (lengths, amplitudes, values, choices) x every choice of one or two reset positions, over several sub-episode and switch boundaries; the observed next reference is compared with "
        "the reference array that the reward function and the callbacks receive in the next step")
ASSUMPTIONS = ["draws after the enumerated ones take their middle outcome"]

L = [2, 4]


def gens():
    g = lambda k, s, **kw: dict(kind=k, state=s, episode_lengths=L, **kw)
    out = {}
    kinds = ("wiener", "laplace", "sinus", "step", "saw", "triangle")
    for k in kinds:
        for m, st in (("PermExDc", "i"), ("PMSM", "i_sq"), ("DFIM", "torque"), ("ShuntDc", "omega")):
            out["%s-%s" % (k, m)] = (m, g(k, st), [])
    out["const"] = ("PermExDc", dict(kind="const", state="torque", reference_value=-0.3), [])
    out["const-caps"] = ("PermExDc", dict(kind="const", state="OMEGA", reference_value=0.3), [])
    out["zero"] = ("PMSM", dict(kind="zero"), [])
    out["multi"] = ("PMSM", dict(kind="multi", subs=[g("wiener", "i_sq"), g("sinus", "i_sd")]), [])
    out["multi3"] = ("EESM", dict(kind="multi", subs=[g("step", "torque"), dict(kind="const", state="i_e", reference_value=0.2), g("saw", "omega")]), [])
    out["multi1"] = ("SCIM", dict(kind="multi", subs=[g("triangle", "i_sq")]), [])
    out["multi-classes"] = ("PMSM", dict(kind="multi", classes=True, subs=[g("wiener", "i_sq"), g("step", "omega"), g("sinus", "i_sd")]), [])
    sw = lambda *subs, **kw: dict(kind="switched", super_episode_length=[2, 5], subs=list(subs), **kw)
    c = lambda s, v: dict(kind="const", state=s, reference_value=v)
    out["switched"] = ("PermExDc", sw(c("i", 0.1), c("i", -0.2), c("i", 0.3)), [])
    out["switched-mix"] = ("PMSM", sw(g("wiener", "i_sd"), c("i_sd", 0.4)), [])
    out["switched-p"] = ("SeriesDc", sw(g("step", "i"), g("sinus", "i"), p=[0.2, 0.8]), [])
    out["switched-one"] = ("PMSM", sw(g("laplace", "i_sd")), [])
    two = lambda a, b: dict(kind="multi", subs=[a, b])
    out["switched-multi"] = ("PMSM", sw(two(c("i_sq", 0.1), c("i_sd", 0.2)), two(g("saw", "i_sq"), g("step", "i_sd"))), [])
    out["multi-switched"] = ("EESM", two(sw(c("i_sq", 0.1), c("i_sq", 0.2)), sw(g("triangle", "i_sd"), c("i_sd", 0.4))), [])
    out["multi-multi"] = ("EESM", two(two(c("i_e", 0.1), g("step", "i_sd")), g("sinus", "torque")), [])
    out["switched-switched"] = ("PermExDc", sw(sw(c("i", 0.1), c("i", 0.2)), c("i", 0.3)), [])
    # the referenced states move when wrappers add or remove states
    for n, w in dict(cossin=[dict(kind="cossin", remove=True)], stack=[dict(kind="cossin"), dict(kind="dead", steps=1), dict(kind="cursum", currents=["i_a", "i_b"])]).items():
        out["wrapped-" + n] = ("PMSM", two(g("wiener", "i_sq"), g("step", "cos(epsilon)" if n == "stack" else "u_sd")), w)
    out["wrapped-flux"] = ("SCIM", two(g("sinus", "psi_abs"), g("step", "i_sd")), [dict(kind="flux")])
    out["wrapped-sum"] = ("ExtExDc", two(g("sinus", "i_sum"), c("omega", 0.3)), [dict(kind="cursum", currents=["i_a", "i_e"])])
    return out


def cases(tier):
    th = tier == "thorough"
    return [dict(name=n, steps=14 if th else 11, limit=4 if th else 3, resets=2, filt=f) for n in gens() for f in ((0, 1) if th else (len(n) % 2,))]


class Spy(RewardFunction):
    def __init__(self):
        self.seen = []
        self.started = []

    def reset(self, initial_state=None, initial_reference=None):
        self.started.append(np.array(initial_reference, copy=True))

    def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
        self.seen.append(np.array(reference, copy=True))
        return float(len(self.seen))


class Tap(Callback):
    def __init__(self):
        super().__init__()
        self.seen = []
        self.started = []

    def on_reset_end(self, state, reference):
        self.started.append(np.array(reference, copy=True))

    def on_step_end(self, k, state, reference, reward, done):
        self.seen.append(np.array(reference, copy=True))


def ref_names(r):
    if r["kind"] == "multi":
        return [n for s in r["subs"] for n in ref_names(s)]
    if r["kind"] == "switched":
        return ref_names(r["subs"][0])
    return [] if r["kind"] == "zero" else [r["state"].lower()]


def run(case, rec):
    motor, ref, wrap = gens()[case["name"]]
    fin = len(case["name"]) % 2 == 0 or any(w["kind"] == "dead" for w in wrap)
    s = envs.spec(motor, fin, ref=ref, wrap=wrap, constraints=[])
    if case["filt"]:
        s["filter"] = ["torque", "omega"]
    spy, tap = Spy(), Tap()
    e = envs.env(s, callbacks=(tap,), reward_function=spy)
    names = list(e.physical_system.state_names)
    want_names = ref_names(ref)
    rec.expect(list(e.reference_names) == want_names, "announced reference names", got=e.reference_names, want=want_names)
    mask = [n in want_names for n in names]
    rec.expect(list(np.asarray(e.reference_generator.referenced_states)) == mask and e.reference_generator.referenced_states.dtype == bool, "referenced states",
               got=e.reference_generator.referenced_states, want=mask)
    space = e.observation_space[1]
    rec.expect(space.shape == (len(want_names),), "shape of the reference space", got=space.shape)
    pos = [names.index(n) for n in want_names]
    acts = envs.actions(e)
    act = acts[len(acts) // 2]

    def play(tape, resets):
        del spy.seen[:], tap.seen[:], spy.started[:], tap.started[:]
        (_, nref), _ = e.reset(seed=3)
        n_r = 1
        for k in range(case["steps"]):
            rec.expect(nref.shape == space.shape and len(nref) == len(pos), "shape of the reference observation", got=nref)
            if nref.size:
                rec.expect(bool(np.all(nref >= space.low - 1e-12) and np.all(nref <= space.high + 1e-12)), "next reference outside the declared space", got=nref, low=space.low,
                           high=space.high, step=k)
            if k in resets:
                (_, nref), _ = e.reset()
                n_r += 1
                continue
            shown = np.array(nref, copy=True)
            (_, nref), rew, term, _, _ = e.step(act)
            used = spy.seen[-1]
            want = np.zeros(len(names))
            want[pos] = shown
            if not np.array_equal(used, want):
                rec.fail("reference of the reward differs from the one shown before", step=k, resets=resets, shown=dict(zip(want_names, shown)), used=dict(zip(names, used)))
            if not np.array_equal(tap.seen[-1], used):
                rec.fail("callbacks see another reference than the reward", step=k, got=tap.seen[-1], want=used)
            rec.expect(rew == float(len(spy.seen)) and len(spy.seen) == len(tap.seen), "one reward evaluation per step, returned unchanged", got=rew)
            rec.trans()
            rec.states.add(hash((case["name"], k, used.tobytes())))
        rec.expect(len(spy.started) == len(tap.started) == n_r, "number of resets seen", got=(len(spy.started), len(tap.started)), want=n_r)
        for a, b in zip(spy.started, tap.started):
            rec.expect(np.array_equal(a, b) and all(a[i] == 0 for i in range(len(names)) if i not in pos), "initial reference of reward function and callbacks", got=(a, b))
        rec.trace()

    sets = [c for k in range(case["resets"] + 1) for c in itertools.combinations(range(1, case["steps"]), k)]
    first = True
    for resets in sets:
        lim = case["limit"] if len(resets) < 2 or case["steps"] > 10 else 2
        script.explore(lambda tape: play(tape, resets), limit=lim, u=(0.0, 0.5, script.TOP) if first or lim > 2 else (0.0, script.TOP))
        first = False
    rec.sample(dict(generator=case["name"], reference_names=want_names, last=tap.seen[-1]))
