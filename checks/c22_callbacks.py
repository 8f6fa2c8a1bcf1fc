"""C22: callbacks see every event once, in order, with the true values; the ramping limit margin follows its ramp."""
import itertools

import numpy as np

from gym_electric_motor import core, reference_generators as rg
from gym_electric_motor.callbacks import RampingLimitMargin

from gemmc import engine, envs, script

ID = "C22"
LEVEL = "model_checking"
RULE = ("every sequence over {reset, seeded reset, two steps, a violating step, refused step} up to the depth on 6 environments x 8 sets of callbacks (none, several, one "
        "registered twice, visualisations, tuples and iterators, partially implemented) with close at the end: the complete log of all callback calls against the "
        "returned observations; RampingLimitMargin: initial x maximum margins x step sizes x update times x frequencies x generators x every sequence of resets and "
        "steps up to the depth, with noise that saturates every reference, against the documented ramp")
ASSUMPTIONS = ["an update by episodes is counted at the resets"]


class Rec_(core.Callback):
    def __init__(self, name, log):
        super().__init__()
        self.name, self.log = name, log

    def _put(self, *ev):
        self.log.append((self.name,) + ev)

    def set_env(self, env):
        super().set_env(env)
        self._put("set_env", env)

    def on_reset_begin(self):
        self._put("reset_begin", self._env.physical_system.k)

    def on_reset_end(self, state, reference):
        self._put("reset_end", state, reference, state.copy(), reference.copy())

    def on_step_begin(self, k, action):
        self._put("step_begin", k, action, np.array(action).copy())

    def on_step_end(self, k, state, reference, reward, terminated):
        self._put("step_end", k, state, reference, reward, terminated, state.copy(), reference.copy())

    def on_close(self):
        self._put("close")


class Partial(core.Callback):
    """a user callback that implements a single hook"""

    def __init__(self, name, log):
        super().__init__()
        self.name, self.log = name, log

    def on_step_end(self, k, state, reference, reward, terminated):
        self.log.append((self.name, "step_end", k, state, reference, reward, terminated, state.copy(), reference.copy()))


class Visu(core.ElectricMotorVisualization, Rec_):
    def __init__(self, name, log):
        core.ElectricMotorVisualization.__init__(self)
        self.name, self.log = name, log

    def render(self):
        self.log.append((self.name, "render"))


def sets(i, log):
    """-> callbacks, visualization, order of the names, names of partial ones"""
    a, b, c = Rec_("a", log), Rec_("b", log), Rec_("c", log)
    p = Partial("p", log)
    v, w = Visu("v", log), Visu("w", log)
    return [((), (), [], ()), ((a,), (), ["a"], ()), ([b, a, c], (), ["b", "a", "c"], ()), ([a, a], [v], ["a", "a", "v"], ()), ((a, p, b), (), ["a", "p", "b"], ("p",)),
            (iter([c, a]), (v, w), ["c", "a", "v", "w"], ()), ([a], v, ["a", "v"], ()), ([], [w, v], ["w", "v"], ())][i]


SPECS = dict(
    permex=lambda: envs.spec("PermExDc", False, ref=dict(kind="wiener", state="i", episode_lengths=[2, 4], sigma_range=[1e-2, 1e-1]), limit=0.05),
    pmsm=lambda: envs.spec("PMSM", True, ref=dict(kind="multi", subs=[dict(kind="const", state="i_sd", reference_value=0.1), dict(kind="const", state="omega", reference_value=-0.2)])),
    filt=lambda: envs.spec("ExtExDc", True, filter=["i_e", "omega"]),
    wrap=lambda: envs.spec("PMSM", False, wrap=[dict(kind="dead", steps=1), dict(kind="cossin")]),
    scim=lambda: envs.spec("SCIM", True, ref=dict(kind="switched", super_episode_length=[2, 3], subs=[dict(kind="const", state="omega", reference_value=0.1), dict(kind="const", state="omega", reference_value=0.3)])),
    series=lambda: envs.spec("SeriesDc", False, supply=dict(kind="rc", u=60.0, R=0.5, C=1e-3)),
)


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in SPECS:
        for i in range(8):
            out.append(dict(kind="events", spec=s, set=i, depth=5 if th else 4))
    for gen in GENS:
        for time in ("step", "episode"):
            for freq in (1, 2, 3):
                out.append(dict(kind="ramp", gen=gen, time=time, freq=freq, depth=9 if th else 7))
    return out


def events(case, rec):
    log = []
    cb, vis, order, partial = sets(case["set"], log)
    sp = SPECS[case["spec"]]()
    sp = {k: v for k, v in sp.items() if k != "limit"}
    # the violation is under the control of the check
    trip = []
    from gym_electric_motor.constraints import Constraint

    class Trip(Constraint):
        def __call__(self, state):
            return 1.0 if trip else 0.0

    sp["constraints"] = []
    e = envs.env(dict(sp), callbacks=cb, visualization=vis, constraint_monitor=[Trip()])
    want0 = [(n, "set_env") for n in order if n not in partial]
    rec.expect([x[:2] for x in log] == want0 and all(x[2] is e for x in log), "set_env at the construction", got=[x[:2] for x in log], want=want0)
    rec.expect([getattr(v, "name", None) for v in e.visualizations] == [n for n in order if n in "vw"], "list of the visualisations")
    acts = envs.actions(e, 2)
    filt = sp.get("filter")
    kept = []
    for seq in itertools.product(("reset", "seed", "a", "b", "viol"), repeat=case["depth"]):
        hist = []
        e.reset()
        del log[:]
        done = False
        k = 0
        shown = None
        for op in seq:
            hist.append(op)
            del log[:]
            kw = dict(hist=list(hist))
            if op in ("reset", "seed"):
                before = e.physical_system.k
                (s, nxt), _ = e.reset(seed=7 if op == "seed" else None)
                done, k = False, 0
                want = [(n, "reset_begin") for n in order if n not in partial] + [(n, "reset_end") for n in order if n not in partial]
                if not rec.expect([x[:2] for x in log] == want, "calls of a reset", got=[x[:2] for x in log], want=want, **kw):
                    break
                for x in log:
                    if x[1] == "reset_begin":
                        rec.expect(x[2] == before, "reset begins before the system is reset", got=x[2], want=before, **kw)
                    else:
                        full = x[2]
                        check_state(rec, e, full, s, filt, kw)
                        rec.expect(full.shape == (len(e.physical_system.state_names),) and x[3].shape == full.shape, "shape of state and reference", **kw)
                        kept.append((x[2], x[4]))
                        kept.append((x[3], x[5]))
                shown = np.array(nxt, copy=True)
            else:
                if done:
                    try:
                        e.step(acts[0])
                        rec.fail("step after the end of the episode was not refused", **kw)
                    except AssertionError:
                        pass
                    rec.expect(log == [], "calls by a refused step", got=[x[:2] for x in log], **kw)
                    continue
                a = acts[1] if op == "b" else acts[0]
                if op == "viol":
                    trip.append(1)
                (s, nxt), rew, term, trunc, _ = e.step(a)
                del trip[:]
                k += 1
                want = [(n, "step_begin") for n in order if n not in partial] + [(n, "step_end") for n in order]
                if not rec.expect([x[:2] for x in log] == want, "calls of a step", got=[x[:2] for x in log], want=want, **kw):
                    break
                for x in log:
                    if x[1] == "step_begin":
                        rec.expect(x[2] == k - 1 and np.array_equal(x[3], a), "arguments of the step begin", got=x[2:], want=(k - 1, a), **kw)
                    else:
                        _, _, kk, full, ref, r, t, _, _ = x
                        rec.expect(kk == k == e.physical_system.k, "step counter of the step end", got=kk, want=k, **kw)
                        check_state(rec, e, full, s, filt, kw)
                        rec.expect(r == rew and bool(t) == bool(term) == (op == "viol"), "reward and termination", got=(r, t), want=(rew, term), **kw)
                        if shown is not None:
                            full_ref = np.zeros(len(e.physical_system.state_names))
                            for n, v in zip(e.reference_generator.reference_names, shown):
                                full_ref[list(e.physical_system.state_names).index(n)] = v
                            rec.expect(np.array_equal(ref, full_ref), "reference of the step end is the one shown before", got=ref, want=full_ref, **kw)
                        kept.append((x[3], x[7]))
                        kept.append((x[4], x[8]))
                shown = np.array(nxt, copy=True)
                done = bool(term)
            rec.trans()
            rec.states.add(hash((case["spec"], case["set"], tuple(hist))))
        for a, b in kept:
            if not np.array_equal(a, b):
                rec.fail("a value handed to a callback was changed later", got=a, want=b, hist=list(hist))
        if len(kept) > 400:
            del kept[:200]
        rec.trace()
    del log[:]
    e.render()
    rec.expect([x for x in log if x[1] == "render"] == [(n, "render") for n in order if n in "vw"] == log, "render reaches the visualisations once", got=log)
    del log[:]
    e.close()
    rec.expect([x[:2] for x in log] == [(n, "close") for n in order if n not in partial], "close reaches every callback once", got=log)
    rec.sample(dict(spec=case["spec"], callbacks=order, last=hist))


def check_state(rec, e, full, s, filt, kw):
    names = list(e.physical_system.state_names)
    want = [full[names.index(n)] for n in (filt or names)]
    rec.expect(np.array_equal(np.asarray(s), np.asarray(want)), "state of the callback is the observed one", got=full, want=s, **kw)


# ---------------------------------------------------------------------------------------------------------- ramping
GENS = dict(
    laplace1=(lambda: rg.LaplaceProcessReferenceGenerator(reference_state="omega", episode_lengths=1), 1, 1),
    laplace2=(lambda: rg.LaplaceProcessReferenceGenerator(reference_state="omega", episode_lengths=2), 2, 1),
    laplace3=(lambda: rg.LaplaceProcessReferenceGenerator(reference_state="omega", episode_lengths=3), 3, 1),
    wiener2=(lambda: rg.WienerProcessReferenceGenerator(reference_state="omega", episode_lengths=2, limit_margin=0.4), 2, 1),
    switched=(lambda: rg.SwitchedReferenceGenerator([rg.LaplaceProcessReferenceGenerator(reference_state="omega", episode_lengths=1),
                                                     rg.WienerProcessReferenceGenerator(reference_state="omega", episode_lengths=1)], super_episode_length=(2, 4)), 1, 2),
    switched1=(lambda: rg.SwitchedReferenceGenerator([rg.WienerProcessReferenceGenerator(reference_state="omega", episode_lengths=1)], super_episode_length=(1, 2)), 1, 1),
)
RAMPS = [((-0.1, 0.1), (-1, 1), 0.3), ((-0.2, 0.5), (-0.6, 0.7), 0.15), ((0.0, 0.1), (0.0, 1.0), 0.45), ((-0.5, -0.2), (-0.7, 0.3), 0.1), ((-0.3, 0.3), (-0.3, 0.3), 0.1),
         ((-0.5, 0.5), (-0.2, 0.2), 0.1), ((-0.1, 0.1), (-1, 1), 2.0)]


def ramp(case, rec):
    mk, length, _ = GENS[case["gen"]]
    big = 1e15
    for (m0, m1, step) in RAMPS:
        for sign in (1, -1):
            for defaults in ((False, True) if (m0, m1, step) == RAMPS[0] and case["freq"] == 1 else (False,)):
                tape = script.Tape([], dict(u=(0.5,), z=(sign * big, -sign * big)), 0)
                with script.patched(tape):
                    # with one draw the scripted generator yields the last level, with several the alternation of both
                    for seq in sequences(case["depth"]):
                        kw = dict(initial_limit_margin=m0, maximum_limit_margin=m1, step_size=step, update_time=case["time"], update_freq=case["freq"])
                        freq, st = case["freq"], step
                        if defaults:
                            # the documented defaults: +-0.1 up to +-1 by 0.1 every 10 episodes
                            if case["time"] == "step":
                                continue
                            kw, freq, st = {}, 10, 0.1
                        cb = RampingLimitMargin(**kw)
                        e = envs.env(envs.spec("PermExDc", False), reference_generator=mk(), callbacks=[cb])
                        marg, n, pos = tuple(m0), 0, 0
                        traj = []
                        for op in (["r"] * 12 if defaults else seq):
                            if op == "r":
                                (_, nxt), _ = e.reset()
                                pos = 0
                            else:
                                (_, nxt), *_ = e.step(np.zeros(e.action_space.shape))
                            if length == 1:
                                want = marg[1] if sign < 0 else marg[0]
                            else:
                                if pos % length == 0:
                                    gen = marg
                                    up = sign > 0
                                want = gen[1] if up == (pos % length % 2 == 0) else gen[0]
                            pos += 1
                            if abs(nxt[0] - want) > 1e-12:
                                rec.fail("reference outside of the ramp", got=nxt, want=want, sequence=seq, ramp=(m0, m1, step), defaults=defaults, position=len(traj))
                                break
                            traj.append(want)
                            if (op == "r") == (case["time"] == "episode"):
                                n += 1
                                if n % freq == 0:
                                    marg = max(marg[0] - st, m1[0]), min(marg[1] + st, m1[1])
                            rec.trans()
                            rec.states.add(hash((case["gen"], case["time"], freq, m0, m1, st, tuple(traj))))
                        rec.trace()
    rec.sample(dict(case=case, trajectory=traj))


def sequences(depth):
    """resets and steps; starts with a reset. All binary sequences up to the depth"""
    return [("r",) + x for x in itertools.product("sr", repeat=depth - 1)]


def run(case, rec):
    (events if case["kind"] == "events" else ramp)(case, rec)
