"""C01: reset/step protocol of environments, over all operation sequences."""
import itertools

import numpy as np

from gym_electric_motor import core
from gym_electric_motor.core import Callback, ConstraintMonitor
from gym_electric_motor.physical_systems import voltage_supplies as vs

from gemmc import build, envs

ID = "C01"
LEVEL = "model_checking"
RULE = ("every sequence of {reset, seeded reset, legal step, step with soft violation, step with violation, exchange of the reference generator, "
        "exchange of the reward function} up to the depth on real environments (9 machines x switched/averaged x state filters x wrappers), compared with "
        "the two-state protocol automaton and with the states seen by a callback; states = (automaton state, operation, observation)")
ASSUMPTIONS = ["violations are injected by a user-defined constraint (public extension point)"]
OPS = "rsapvgw"


class Clock(vs.IdealVoltageSupply):
    """ideal supply that records the simulation time of every call"""

    def __init__(self, u):
        super().__init__(u)
        self.times = []

    def get_voltage(self, t, *a, **k):
        self.times.append(float(t))
        return super().get_voltage(t, *a, **k)


class Spy(Callback):
    def __init__(self):
        super().__init__()
        self.state = self.reference = None

    def on_reset_end(self, state, reference):
        self.state, self.reference = np.array(state, copy=True), np.array(reference, copy=True)

    def on_step_end(self, k, state, reference, reward, terminated):
        self.state, self.reference, self.k = np.array(state, copy=True), np.array(reference, copy=True), k


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in build.MOTOR:
        for fin in (True, False):
            for flt in range(4):
                base = m in ("PermExDc", "PMSM") and flt == 1
                for first in OPS:
                    out.append(dict(motor=m, finite=fin, filter=flt, first=first, depth=(5 if base else 4) + (1 if th else 0)))
    for w in ([dict(kind="dead", steps=2)], [dict(kind="cossin")], [dict(kind="noise", states=["omega"], kwargs=dict(scale=1e-3))],
              [dict(kind="cursum", currents=["i_a", "i_b"]), dict(kind="cossin", remove=True)]):
        for fin in (True, False):
            out.append(dict(motor="PMSM", finite=fin, filter=3, first="", depth=4 + (1 if th else 0), wrap=w))
    return out


def run(case, rec):
    refs = dict(kind="multi", subs=[dict(kind="wiener", state="omega", episode_lengths=[1, 3]), dict(kind="const", state="torque", reference_value=0.25)])
    spec = envs.spec(case["motor"], case["finite"], ref=refs, wrap=case.get("wrap", []))
    probe = envs.env(dict(spec, constraints=[]))
    names = list(probe.physical_system.state_names)
    flt = [None, ["torque"], names[::-1], [names[-1], names[0], names[2]]][case["filter"]]
    degree = [0.0]
    clock = Clock(spec["supply"]["u"])
    spy = Spy()
    system = build.SYSTEM[spec["motor"]](converter=build.converter(spec["conv"], spec["tau"], spec["finite"]), motor=build.motor(spec),
                                         load=build.load(spec["load"]), supply=clock, ode_solver=build.solver(spec), tau=spec["tau"])
    e = envs.env(dict(spec, filter=list(flt) if flt else None), callbacks=[spy], system=system,
                 constraint_monitor=ConstraintMonitor(additional_constraints=[lambda s: degree[0]]))
    tau = spec["tau"]
    shown = flt or names
    rec.expect(list(e.state_names) == shown, "names of the shown states", got=e.state_names, want=shown)
    rec.close(e.limits, [dict(zip(names, e.physical_system.limits))[n] for n in shown], "limits of the shown states")
    rec.close(e.nominal_state, [dict(zip(names, e.physical_system.nominal_state))[n] for n in shown], "nominal values of the shown states")
    sspace, rspace = e.observation_space
    acts = envs.actions(e)
    a0 = acts[0]

    def obs_ok(obs, what, seq):
        if not (isinstance(obs, tuple) and len(obs) == 2):
            rec.fail("structure of the observation after " + what, got=obs, seq=seq)
            return
        s, r = np.asarray(obs[0]), np.asarray(obs[1])
        ok = s.shape == sspace.shape == (len(shown),) and s.dtype.kind == "f" and r.shape == rspace.shape
        rec.expect(ok, "shapes of the observation after " + what, got=(s.shape, r.shape), seq=seq)
        want = dict(zip(names, spy.state))
        rec.close(s, [want[n] for n in shown], "observation = selected states after " + what, rtol=0, atol=0, seq=seq)
        inside = (np.abs(s) <= 1 + 1e-9)
        low = (s >= sspace.low - 1e-9) | (sspace.low >= 0) | ~inside
        rec.expect(np.all(low) and np.all((s <= sspace.high + 1e-9) | ~inside), "states inside their space after " + what, got=s, seq=seq)
        rec.expect(rspace.contains(np.asarray(r, dtype=float)), "reference inside its space after " + what, got=r, seq=seq)

    # fresh environment: the first operation sequences are executed on one object; every sequence starts with an un-reset environment
    d = case["depth"]
    first = True
    for seq in itertools.product(*([case["first"] or OPS] + [OPS] * (d - 1))):
        if not first:
            # bring the environment back to 'reset required' without a reset
            e.reward_function = e.reward_function
        first = False
        ready, k = False, None
        for j, op in enumerate(seq):
            where = "".join(seq[:j + 1])
            if op in "rs":
                del clock.times[:]
                out = e.reset() if op == "r" else e.reset(seed=5)
                rec.expect(isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], dict), "reset returns (observation, info)", got=out, seq=where)
                obs_ok(out[0], "a reset", where)
                rec.expect(all(t == 0.0 for t in clock.times), "time restarts with a reset", got=clock.times, seq=where)
                ready, k = True, 0
                rec.expect(e.physical_system.k == 0, "step counter restarts with a reset", got=e.physical_system.k, seq=where)
            elif op in "apv":
                degree[0] = dict(a=0.0, p=0.4, v=1.0)[op]
                kb = e.physical_system.k
                del clock.times[:]
                if not ready:
                    refused = False
                    try:
                        e.step(a0)
                    except Exception:
                        refused = True
                    rec.expect(refused, "a step without a needed reset is refused", seq=where)
                    rec.expect(e.physical_system.k == kb and not clock.times, "a refused step does not simulate", seq=where)
                else:
                    out = e.step(acts[(j + k) % len(acts)])
                    if not rec.expect(isinstance(out, tuple) and len(out) == 5, "step returns five values", got=out, seq=where):
                        return
                    obs, rew, term, trunc, info = out
                    k += 1
                    obs_ok(obs, "a step", where)
                    rec.expect(np.ndim(rew) == 0 and np.isfinite(rew), "reward is a finite number", got=rew, seq=where)
                    rec.expect(bool(term) == (op == "v"), "terminated exactly with a full violation", got=term, seq=where)
                    rec.expect(not trunc and isinstance(info, dict), "truncated, info", got=(trunc, info), seq=where)
                    rec.expect(e.physical_system.k == k == spy.k, "step counter", got=(e.physical_system.k, spy.k), want=k, seq=where)
                    ts = clock.times
                    rec.expect(bool(ts) and abs(ts[0] - (k - 1) * tau) < 1e-6 * tau and all(t < k * tau - 1e-6 * tau for t in ts),
                               "simulated time of the step", got=ts, want=(k - 1) * tau, seq=where)
                    ready = op != "v"
                degree[0] = 0.0
            elif op == "g":
                new = envs.generator(refs)
                new.set_modules(e.physical_system)
                e.reference_generator = new
                rec.expect(e.reference_generator is new, "exchanged reference generator", seq=where)
                ready = False
            elif op == "w":
                e.reward_function = e.reward_function
                ready = False
            rec.trans()
            rec.states.add(hash((ready, op, case["motor"], case["finite"], case["filter"], str(case.get("wrap")), min(k or 0, 9), where[-3:])))
        rec.trace()
    rec.sample(dict(motor=case["motor"], sequence="".join(seq), state_names=shown))
