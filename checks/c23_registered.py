"""C23: every registered environment is usable as announced."""
import itertools
import warnings

import gymnasium
import matplotlib.pyplot as plt
import numpy as np

import gym_electric_motor as gem
from gym_electric_motor import core, physical_system_wrappers as pw, physical_systems as psys, reference_generators as rg
from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint
from gym_electric_motor.physical_systems import converters as cv, mechanical_loads as ml, solvers as sv, voltage_supplies as vs
from gym_electric_motor.reward_functions import WeightedSumOfErrors
from gym_electric_motor.visualization import MotorDashboard

from gemmc import build, engine, envs

ID = "C23"
LEVEL = "model_checking"
RULE = ("every registered id: created by gem.make and gymnasium.make, every action sequence over corner actions up to the depth and every constant corner action until the "
        "termination: action space, motor, converter, cycle time, controlled quantities, shapes and finiteness of all observations, weighted error reward, termination "
        "exactly on the announced constraints; and every component override (instance or parameter dictionary) in lockstep with the same environment assembled by hand "
        "from its documented components")
ASSUMPTIONS = ["default voltages and load parameters are taken from the environment", "overrides are checked one at a time and all together"]

REF = dict(CC=dict(PermExDc=["i"], SeriesDc=["i"], ShuntDc=["i_a"], ExtExDc=["i_a", "i_e"], PMSM=["i_sd", "i_sq"], SynRM=["i_sd", "i_sq"], EESM=["i_sd", "i_sq", "i_e"],
                   SCIM=["i_sd", "i_sq"], DFIM=["i_sd", "i_sq"]))
LIMITED = dict(PermExDc=["i"], SeriesDc=["i"], ShuntDc=["i_a", "i_e"], ExtExDc=["i_a", "i_e"])
SPACE = dict(PermExDc=(4, 1), SeriesDc=(4, 1), ShuntDc=(4, 1), ExtExDc=((4, 4), 2), PMSM=(8, 3), SynRM=(8, 3), EESM=((8, 4), 4), SCIM=(8, 3), DFIM=((8, 8), 6))
OVERRIDES = ("none", "supply-dict", "supply-inst", "converter-inst", "motor-dict", "motor-inst", "load-dict", "load-inst", "solver-inst", "ref-inst", "ref-dict", "reward-dict", "reward-inst",
             "constraints", "tau", "filter", "wrappers", "callbacks", "jacobian", "visu-dict", "all")


def parts(i):
    kind, what, motor = i.split("-")[:3]
    return kind == "Finite", what, motor


def cases(tier):
    th = tier == "thorough"
    ids = [f + "-" + w + "-" + m + "-v0" for f in ("Cont", "Finite") for w in ("CC", "TC", "SC") for m in build.MOTOR]
    out = [dict(kind="list", ids=ids)]
    for i in ids:
        out.append(dict(kind="default", id=i, depth=4 if th else 3, long=1500 if th else 300))
        out.append(dict(kind="voltages", id=i, depth=4 if th else 3))
        out.append(dict(kind="override", id=i, depth=3 if th else 2, long=200 if th else 40))
    return out


def corner(e):
    a = envs.actions(e)
    return a if len(a) <= 8 else [a[(k * len(a)) // 8] for k in range(8)]


def refs(what, m):
    return dict(TC=["torque"], SC=["omega"]).get(what) or REF["CC"][m]


def violated(m, s):
    if m in LIMITED:
        return any(abs(s[n]) > 1.0 for n in LIMITED[m]), min(abs(abs(s[n]) - 1.0) for n in LIMITED[m])
    v = s["i_sd"] ** 2 + s["i_sq"] ** 2
    out, d = v > 1.0, abs(v - 1.0)
    if m == "EESM":
        out, d = out or abs(s["i_e"]) > 1.0, min(d, abs(abs(s["i_e"]) - 1.0))
    return out, d


def voltages(case, rec):
    """the default supply fits the default motor: no action takes a voltage out of the declared space of the states"""
    i = case["id"]
    e = gem.make(i, constraints=()).unwrapped
    names = list(e.state_names)
    js = [j for j, n in enumerate(names) if n.startswith("u_") or n == "u"]
    sp = e.observation_space[0]
    acts = corner(e)
    worst, at = {}, {}
    for seq in itertools.product(range(len(acts)), repeat=case["depth"]):
        (s, _), _ = e.reset(seed=3)
        for k in seq:
            (s, _), *_ = e.step(acts[k])
            rec.trans()
            for j in js:
                if abs(s[j]) > worst.get(names[j], 0.0):
                    worst[names[j]], at[names[j]] = float(abs(s[j])), [acts[q] for q in seq]
        rec.trace()
        rec.states.add(hash((i, seq)))
    over = {n: v for n, v in worst.items() if not (v <= 1 + 1e-9 and sp.high[names.index(n)] >= v - 1e-9)}
    if over:
        n = max(over, key=over.get)
        u, lim = e.physical_system.supply.u_nominal, e.limits[js[0]]
        rec.fail("a voltage of the default environment is outside the declared space", key=f"voltage-limit:{i}:{u:g}V/{lim:g}V", worst=over, supply=e.physical_system.supply.u_nominal,
                 limits={n: float(e.limits[names.index(n)]) for n in over}, actions=at[n])
    rec.sample(dict(env=i, largest=worst))


def default(case, rec):
    i = case["id"]
    fin, what, m = parts(i)
    for maker in (gem.make, gymnasium.make):
        w = maker(i)
        e = w.unwrapped
        (s, r), info = w.reset(seed=3)
        rec.expect(isinstance(info, dict) and s.shape == e.physical_system.state_space.shape, "reset through " + maker.__module__, got=s)
        out = w.step(w.action_space.sample())
        rec.expect(len(out) == 5 and len(out[0]) == 2, "step through " + maker.__module__)
        rec.expect(w.action_space == e.action_space, "action space of the wrapped environment")
    ps = e.physical_system
    rec.expect(type(ps.electrical_motor) is build.MOTOR[m], "motor of the id", got=type(ps.electrical_motor))
    want = SPACE[m][0 if fin else 1]
    sp = e.action_space
    if fin:
        ok = (isinstance(sp, gymnasium.spaces.MultiDiscrete) and tuple(sp.nvec) == want) if isinstance(want, tuple) else (isinstance(sp, gymnasium.spaces.Discrete) and sp.n == want)
    else:
        ok = isinstance(sp, gymnasium.spaces.Box) and sp.shape == (want,) and np.all(sp.low == -1) and np.all(sp.high == 1)
    rec.expect(ok, "action space of the id", got=sp, want=want)
    rec.expect(abs(ps.tau - (1e-5 if fin else 1e-4)) < 1e-12, "cycle time of the id", got=ps.tau)
    names = list(ps.state_names)
    ref = refs(what, m)
    rec.expect(sorted(e.reference_generator.reference_names) == sorted(ref), "controlled quantity of the id", got=e.reference_generator.reference_names, want=ref)
    order = list(e.reference_generator.reference_names)
    low, high = ps.state_space.low, ps.state_space.high
    length = {n: h - l for n, l, h in zip(names, low, high)}
    acts = corner(e)
    rs = e.reference_generator.reference_space
    os = e.observation_space
    speeds = set()

    def look(s, r, shown, rew, term, hist):
        d = dict(zip(names, s))
        ok = (isinstance(s, np.ndarray) and s.shape == (len(names),) and np.all(np.isfinite(s)) and isinstance(r, np.ndarray) and r.shape == (len(order),)
              and np.all(np.isfinite(r)) and np.isfinite(rew))
        if not ok:
            rec.fail("shape or finiteness of observation or reward", got=(s, r, rew), hist=hist)
        if not (np.all(r >= rs.low - 1e-12) and np.all(r <= rs.high + 1e-12)):
            rec.fail("reference outside of the reference space", got=r, hist=hist)
        v, margin = violated(m, d)
        if margin > 1e-9 and bool(term) != bool(v):
            rec.fail("termination differs from the announced constraints", state=d, terminated=term, hist=hist)
        if not v and margin > 1e-9:
            w = -sum(abs(d[n] - x) / length[n] for n, x in zip(order, shown)) / len(order)
            if abs(rew - w) > 1e-9:
                rec.fail("reward is not the weighted error", got=rew, want=w, hist=hist)
            if max(abs(d[n]) for n in order) <= 1.0:
                rec.expect(e.reward_range[0] - 1e-12 <= rew <= e.reward_range[1] + 1e-12, "reward in its range", got=rew, want=e.reward_range)
        elif term:
            rec.expect(rew <= e.reward_range[0] / (1 - 0.9) * 0.999 + 0.1 or rew < w_min(), "violation reward", got=rew, hist=hist)
        speeds.add(round(d["omega"], 12))
        rec.states.add(hash((i, s.tobytes())))
        rec.trans()

    def w_min():
        return -1.0

    os_spaces = os.spaces if hasattr(os, "spaces") else None
    rec.expect(os_spaces is not None and os_spaces[0].shape == (len(names),) and os_spaces[1].shape == (len(order),), "observation space", got=os)
    for seq in itertools.product(range(len(acts)), repeat=case["depth"]):
        if len(acts) > 6 and case["depth"] >= 3 and any(a not in (0, 3, 6, len(acts) - 1) for a in seq):
            continue
        (s, r), _ = e.reset(seed=11)
        for k, a in enumerate(seq):
            shown = np.array(r, copy=True)
            (s, r), rew, term, trunc, _ = e.step(acts[a])
            rec.expect(trunc is False or trunc == 0, "truncation")
            look(s, r, shown, rew, term, seq[:k + 1])
            if term:
                break
        rec.trace()
    n_term = 0
    for a in range(len(acts)):
        (s, r), _ = e.reset(seed=5)
        for k in range(case["long"]):
            shown = np.array(r, copy=True)
            (s, r), rew, term, trunc, _ = e.step(acts[a])
            look(s, r, shown, rew, term, (a, k))
            if term:
                n_term += 1
                break
        rec.trace()
    if what == "SC":
        rec.expect(len(speeds) > 1, "speed of a speed controlled drive is free", got=len(speeds))
    else:
        sp_ = list(speeds)
        rec.expect(max(sp_) - min(sp_) < 1e-9, "speed of a current or torque controlled drive is constant", got=(min(sp_), max(sp_)))
    rec.sample(dict(id=i, terminated=n_term, of=len(acts)))


# ------------------------------------------------------------------------------------------------------------- overrides
def conv(m, fin, dt=0.0):
    p = "Finite" if fin else "Cont"
    one = dict(q=getattr(cv, p + "FourQuadrantConverter"), b=getattr(cv, p + "B6BridgeConverter"))
    multi = getattr(cv, p + "MultiConverter")
    kw = dict(interlocking_time=dt) if dt else {}
    plan = dict(ExtExDc="qq", EESM="bq", DFIM="bb").get(m)
    if plan:
        return multi(subconverters=[one[c](**kw) for c in plan], **kw)
    return one["q" if m in envs.DC else "b"](**kw)


def components(i, var, probe):
    """-> keyword arguments for gem.make, components of the hand assembled environment"""
    fin, what, m = parts(i)
    tau = 1e-5 if fin else 1e-4
    ref = refs(what, m)
    mp2 = dict(list(build.MP[m]["x"].items()))
    base_load = probe.mechanical_load

    def fixed_load():
        if what == "SC":
            return ml.PolynomialStaticLoad(load_parameter=dict(base_load.load_parameter))
        return ml.ConstantSpeedLoad(omega_fixed=base_load.omega_fixed)

    c = dict(supply=lambda: vs.IdealVoltageSupply(probe.supply.u_nominal), converter=lambda: conv(m, fin), motor=lambda: build.MOTOR[m](), load=fixed_load,
             ode_solver=lambda: sv.ScipyOdeSolver(), calc_jacobian=True, tau=tau)
    cons = [LimitConstraint(LIMITED[m])] if m in LIMITED else [SquaredConstraint(("i_sq", "i_sd"))] + ([LimitConstraint(["i_e"])] if m == "EESM" else [])
    o = dict(ref=lambda: rg.MultipleReferenceGenerator([rg.ConstReferenceGenerator(reference_state=n, reference_value=0.3) for n in ref]) if len(ref) > 1
             else rg.ConstReferenceGenerator(reference_state=ref[0], reference_value=0.3),
             reward=lambda: WeightedSumOfErrors(reward_weights={n: 1.0 / len(ref) for n in ref}), cons=cons, filter=None, wrap=lambda: (), calls=[])
    # the reference is fixed in both environments, otherwise the noise parameters would have to be known
    kw = dict(reference_generator=o["ref"]())
    chosen = [v for v in OVERRIDES if v not in ("none", "all")] if var == "all" else [var]
    if var == "all":
        chosen = ["supply-dict", "converter-inst", "motor-dict", "load-inst", "solver-inst", "ref-inst", "reward-inst", "constraints", "tau", "filter", "wrappers"]
    for v in chosen:
        if v == "supply-dict":
            kw["supply"] = dict(u_nominal=37.0)
            c["supply"] = lambda: vs.IdealVoltageSupply(37.0)
        elif v == "supply-inst":
            mk = lambda: vs.RCVoltageSupply(45.0, dict(R=0.5, C=1e-3))
            kw["supply"], c["supply"] = mk(), mk
        elif v == "converter-inst":
            mk = lambda: conv(m, fin, 0.2 * tau)
            kw["converter"], c["converter"] = mk(), mk
        elif v == "motor-dict":
            kw["motor"] = dict(motor_parameter=dict(mp2), limit_values=dict(omega=777.0))
            c["motor"] = lambda: build.MOTOR[m](motor_parameter=dict(mp2), limit_values=dict(omega=777.0))
        elif v == "motor-inst":
            mk = lambda: build.MOTOR[m](motor_parameter=dict(mp2), nominal_values=dict(omega=311.0))
            kw["motor"], c["motor"] = mk(), mk
        elif v == "load-dict":
            if what == "SC":
                kw["load"] = dict(load_parameter=dict(a=0.2, b=0.3, c=0.01, j_load=0.02))
                c["load"] = lambda: ml.PolynomialStaticLoad(load_parameter=dict(a=0.2, b=0.3, c=0.01, j_load=0.02))
            else:
                kw["load"] = dict(omega_fixed=33.0)
                c["load"] = lambda: ml.ConstantSpeedLoad(omega_fixed=33.0)
        elif v == "load-inst":
            mk = lambda: ml.PolynomialStaticLoad(load_parameter=dict(a=0.1, b=0.1, c=0.02, j_load=0.01), load_initializer=dict(states=dict(omega=20.0)))
            kw["load"], c["load"] = mk(), mk
        elif v == "solver-inst":
            mk = lambda: sv.EulerSolver(nsteps=3)
            kw["ode_solver"], c["ode_solver"] = mk(), mk
        elif v == "ref-inst":
            mk = lambda: rg.MultipleReferenceGenerator([rg.ConstReferenceGenerator(reference_state="omega", reference_value=0.2),
                                                        rg.ConstReferenceGenerator(reference_state="torque", reference_value=0.1)])
            kw["reference_generator"], o["ref"] = mk(), mk
        elif v == "ref-dict":
            if len(ref) > 1:
                mk = lambda: [rg.SinusoidalReferenceGenerator(reference_state=n, episode_lengths=(5, 9), limit_margin=0.5) for n in ref]
                kw["reference_generator"] = dict(sub_generators=mk())
                o["ref"] = lambda: rg.MultipleReferenceGenerator(mk())
            else:
                d = dict(reference_state="omega" if what != "SC" else "torque", sigma_range=(2e-3, 4e-3), episode_lengths=(4, 7), limit_margin=0.4)
                kw["reference_generator"] = dict(d)
                o["ref"] = lambda: rg.WienerProcessReferenceGenerator(**d)
        elif v == "reward-dict":
            kw["reward_function"] = dict(reward_power=2, bias="positive", gamma=0.8)
            o["reward"] = lambda: WeightedSumOfErrors(reward_weights={n: 1.0 / len(ref) for n in ref}, reward_power=2, bias="positive", gamma=0.8)
        elif v == "reward-inst":
            mk = lambda: WeightedSumOfErrors(reward_weights=dict(omega=0.2, torque=0.5), bias=1.5, violation_reward=-3.0)
            kw["reward_function"], o["reward"] = mk(), mk
        elif v == "constraints":
            kw["constraints"] = ("torque", "omega")
            o["cons"] = [LimitConstraint(["torque", "omega"])]
        elif v == "tau":
            kw["tau"] = c["tau"] = 3e-5
        elif v == "filter":
            kw["state_filter"] = ["torque", "omega"]
            o["filter"] = ["torque", "omega"]
        elif v == "wrappers":
            mk = lambda: (pw.DeadTimeProcessor(steps=2),)
            kw["physical_system_wrappers"], o["wrap"] = mk(), mk
        elif v == "callbacks":
            class Count(core.Callback):
                n = 0

                def on_step_end(self, *a):
                    Count.n += 1

            o["calls"] = Count
            kw["callbacks"] = [Count()]
        elif v == "visu-dict":
            kw["visualization"] = dict(state_plots=("torque", "omega"), action_plots=(), reward_plot=True)
        elif v == "jacobian":
            kw["calc_jacobian"] = c["calc_jacobian"] = False
    return kw, c, o


def override(case, rec):
    i = case["id"]
    fin, what, m = parts(i)
    probe = gem.make(i).unwrapped.physical_system
    for var in OVERRIDES:
        kw, c, o = components(i, var, probe)
        given = repr({k: v for k, v in kw.items() if isinstance(v, dict)})
        e = gem.make(i, **kw).unwrapped
        sys_ = build.SYSTEM[m](supply=c["supply"](), converter=c["converter"](), motor=c["motor"](), load=c["load"](), ode_solver=c["ode_solver"](),
                               calc_jacobian=c["calc_jacobian"], tau=c["tau"])
        t = core.ElectricMotorEnvironment(physical_system=sys_, reference_generator=o["ref"](), reward_function=o["reward"](), constraints=o["cons"], visualization=(),
                                          state_filter=o["filter"], callbacks=(),
                                          physical_system_wrappers=tuple(o["wrap"]()) + ((pw.CurrentSumProcessor(("i_a", "i_e")),) if m == "ShuntDc" else ()))
        rec.expect(repr({k: v for k, v in kw.items() if isinstance(v, dict)}) == given, "dictionaries of the caller are not changed", variant=var)
        a, b = e.physical_system, t.physical_system
        rec.expect(list(a.state_names) == list(b.state_names) and e.action_space == t.action_space and e.observation_space == t.observation_space
                   and abs(a.tau - b.tau) < 1e-15, "spaces, names and cycle time of the override", variant=var, got=(e.observation_space, a.tau), want=(t.observation_space, b.tau))
        rec.expect(np.allclose(np.asarray(a.limits, float), np.asarray(b.limits, float), rtol=1e-12) and
                   np.allclose(np.asarray(a.nominal_state, float), np.asarray(b.nominal_state, float), rtol=1e-12), "limits of the override", variant=var, got=a.limits, want=b.limits)
        acts = corner(e)
        acts = [acts[1], acts[-1], acts[len(acts) // 2]]
        n = 0
        for seq in itertools.product(range(3), repeat=case["depth"]):
            seq = list(seq) + [seq[0]] * case["long"]
            x = envs.play(e, [acts[k] for k in seq], seed=7)
            y = envs.play(t, [acts[k] for k in seq], seed=7)
            n += len(x) - 1
            if not same(x, y):
                bad = next((k for k in range(min(len(x), len(y))) if not same(x[k:k + 1], y[k:k + 1])), min(len(x), len(y)))
                rec.fail("registered environment differs from the same one assembled by hand", variant=var, step=bad, got=x[bad:bad + 1], want=y[bad:bad + 1])
            rec.states.add(hash((i, var, tuple(seq), x[-1][1].tobytes())))
            rec.trans(len(x))
            rec.trace(2)
        if var == "visu-dict":
            plt.close("all")
            e.reset()
            e.step(acts[0])
            e.render()
            seen = [ax.get_ylabel() for f in plt.get_fignums() for ax in plt.figure(f).axes]
            rec.expect(len(e.visualizations) == 1 and isinstance(e.visualizations[0], MotorDashboard) and len(seen) == 3 and "T" in seen[0] and "omega" in seen[1]
                       and "reward" in seen[2].lower(), "plots of the visualization dictionary", got=seen)
            plt.close("all")
        if o["calls"]:
            rec.expect(o["calls"].n == n, "callbacks are called once per step", got=o["calls"].n, want=n)
    # a second environment is not affected by the overrides of the first
    kw, c, o = components(i, "none", probe)
    e1, e2 = gem.make(i, **kw).unwrapped, None
    kw2, _, _ = components(i, "none", probe)
    e2 = gem.make(i, **kw2).unwrapped
    rec.expect(same(envs.play(e1, acts[:2]), envs.play(e2, acts[:2])) and abs(e2.physical_system.tau - probe.tau) < 1e-15 and
               np.array_equal(np.asarray(e2.physical_system.limits, float), np.asarray(probe.limits, float)), "defaults survive overrides")
    rec.sample(dict(id=i, last=var))


def same(x, y):
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        for u, v in zip(p, q):
            if isinstance(u, np.ndarray):
                if u.shape != v.shape or not np.allclose(u, v, rtol=1e-10, atol=1e-12):
                    return False
            elif isinstance(u, float):
                if abs(u - v) > 1e-10 * (1 + abs(u)):
                    return False
            elif u != v:
                return False
    return True


def announced(rec):
    """the ids and states of the motor descriptions"""
    from gym_electric_motor.envs.motors import ActionType, ControlType, Motor, MotorType

    tags = dict(PermanentlyExcitedDcMotor="PermExDc", ExternallyExcitedDcMotor="ExtExDc", SeriesDc="SeriesDc", ShuntDc="ShuntDc", ExternallyExcitedSynchronousMotor="EESM", DoublyFedInductionMotor="DFIM",
                SquirrelCageInductionMotor="SCIM", PermanentMagnetSynchronousMotor="PMSM", SynchronousReluctanceMotor="SynRM")
    rec.expect(sorted(x.name for x in MotorType) == sorted(tags), "motor types", got=[x.name for x in MotorType])
    for (mt, tag), (ct, c), (at, a) in itertools.product(tags.items(), dict(SpeedControl="SC", TorqueControl="TC", CurrentControl="CC").items(), dict(Continuous="Cont", Finite="Finite").items()):
        d = Motor(MotorType[mt], ControlType[ct], ActionType[at])
        rec.expect(d.env_id() == "%s-%s-%s-v0" % (a, c, tag), "id of a motor description", got=d.env_id(), want=(a, c, tag))
        names = gem.make(d.env_id()).unwrapped.state_names
        st = d.states()
        rec.expect(len(st) > 3 and len(set(st)) == len(st) and set(st) <= set(names), "states of a motor description", got=st, want=names)
        rec.trans()


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["kind"] == "list":
            rec.expect(sorted(case["ids"]) == envs.ids(), "list of the registered ids", got=[i for i in envs.ids() if i not in case["ids"]],
                       want=[i for i in case["ids"] if i not in envs.ids()])
            announced(rec)
            rec.trace()
            rec.states.add(1)
        else:
            {"default": default, "override": override, "voltages": voltages}[case["kind"]](case, rec)
