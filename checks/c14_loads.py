"""C14: mechanical loads against their law of motion."""
import itertools
import math

import numpy as np

from gym_electric_motor.physical_systems import mechanical_loads as ml

from gemmc import build, engine, envs, script, simref

ID = "C14"
LEVEL = "model_checking"
RULE = ("static load: complete lattice of speeds (both signs, zero, inside/at/outside the linear region), torques, load parameters, load and rotor inertias, in all orders of "
        "attaching rotors; whole drives: every action sequence up to the depth with constant speed loads, a set of external profiles x solver x sampling time, and "
        "Ornstein-Uhlenbeck loads under every combination of extreme random draws; states = (load, visited speed)")
ASSUMPTIONS = ["external profiles are followed exactly for one Euler step per control step (other solvers: within first order of the sampling time)"]

PROFILES = dict(
    sine=(lambda t, a=20.0, f=300.0, o=25.0: o + a * math.sin(2 * math.pi * f * t), dict(a=15.0, f=250.0, o=30.0), 25000.0),
    ramp=(lambda t, m=5000.0: m * t, dict(m=-4000.0), 4000.0),
    const=(lambda t: 12.5, {}, 0.0),
    tri=(lambda t, p=1e-3, h=40.0: h * abs(2 * (t / p - math.floor(t / p + 0.5))), dict(p=2e-3, h=50.0), 60000.0),
)


def cases(tier):
    th = tier == "thorough"
    out = []
    for a in (0.0, 1e-3, 0.5, 4.0):
        for b in (0.0, 0.02, 0.7):
            for c in (0.0, 1e-4, 0.03):
                out.append(dict(kind="poly", a=a, b=b, c=c, fine=th))
    for m in build.MOTOR:
        for fin in (True, False):
            for om in (0.0, 21.0, -13.0):
                for via in ("arg", "init"):
                    out.append(dict(kind="const", motor=m, finite=fin, omega=om, via=via, depth=4 if th else 3))
            for p in PROFILES:
                for sv in (("euler", "ivp-RK45", "odeint", "dopri5") if not fin or th else ("euler",)):
                    for tau in (1e-4, 2e-5):
                        out.append(dict(kind="profile", motor=m, finite=fin, profile=p, solver=sv, tau=tau, steps=60 if th else 25))
    for m in ("PermExDc", "SeriesDc", "PMSM", "DFIM"):
        for fin in (True, False):
            for rng in ([-50.0, 80.0], [0.0, 30.0], [10.0, 20.0]):
                for sig, mu, theta in ((1e-4, 0.0, 1.0), (20.0, 15.0, 3.0), (500.0, 25.0, 100.0), (5.0, 1000.0, 2000.0)):
                    if m == "SeriesDc" and rng[0] < 0:
                        continue
                    for tau in ((1e-4, 1e-3) if th else (1e-4,)):
                        out.append(dict(kind="ou", motor=m, finite=fin, range=rng, sigma=sig, mu=mu, theta=theta, tau=tau, steps=5 if th else 4))
    return out


def torque_of(case, omega, lim, j):
    """documented load torque: sign * (a + c omega^2) + b omega, the constant term fading linearly below the decay speed"""
    s = (omega > 0) - (omega < 0)
    a = s * case["a"] if abs(omega) > lim else j / 1e-3 * omega
    return a + case["b"] * omega + s * case["c"] * omega ** 2


def run_poly(case, rec):
    js = (1e-5, 2e-3, 0.1)
    rotors = (1e-4, 5e-3, 0.2)
    for jl in js + (None, 0.0):
        given = {k: case[k] for k in "abc"}
        if jl is not None:
            given["j_load"] = jl
        was = dict(given)
        load = ml.PolynomialStaticLoad(load_parameter=given)
        other = ml.PolynomialStaticLoad(load_parameter=dict(a=9.0, b=9.0, c=9.0, j_load=9.0))
        rec.expect(given == was, "parameters of the caller are not changed", got=given)
        jl = 1e-5 if jl is None else jl
        rec.expect(load.load_parameter == dict(was, j_load=jl), "load parameters", got=load.load_parameter)
        for order in itertools.product(rotors, repeat=2):
            for jr in order:
                load.set_j_rotor(jr)
                j = jl + jr
                rec.close(load.j_total, j, "total inertia = load + rotor", rtol=1e-12, rotors=order)
                lim = case["a"] / j * 1e-3
                mags = [1e-9, lim * 0.3, lim * 0.999, lim * 1.001, 1.0, 35.0, 260.0] + ([lim * f for f in (1e-6, 0.01, 0.5, 2.0, 10.0)] + [3e3, 0.02, 7.7] if case["fine"] else [])
                for om in [0.0] + [s * v for v in mags if v > 0 for s in (1, -1)]:
                    tl = None
                    for T in (0.0, 1.0, -1.0, 37.5, -0.002):
                        for t in (0.0, 0.3):
                            d = load.mechanical_ode(t, np.array([om]), T)
                            rec.trans()
                            rec.expect(np.shape(d) == (1,), "shape of the derivative", got=d)
                            rec.close(d[0] * j, T - torque_of(case, om, lim, j), "law of motion", rtol=1e-9, atol=1e-9, omega=om, torque=T, j=j)
                            tl = T - d[0] * j
                    if om == 0.0:
                        rec.expect(abs(tl) < 1e-12, "a stopped machine is not driven", got=tl)
                    else:
                        rec.expect(tl * om >= -1e-15, "load torque acts against the motion", got=tl, omega=om)
                        d2 = load.mechanical_ode(0.0, np.array([-om]), 0.0)
                        rec.close(d2[0] * j, tl, "both directions are braked symmetrically", rtol=1e-9, atol=1e-9, omega=om)
                    rec.states.add(hash((str(case), jl, jr, om)))
                rec.trace()
    rec.sample(dict(case=case, omega=om, torque=T, derivative=d))


def pick(e):
    acts = envs.actions(e)
    return [acts[1 % len(acts)], acts[len(acts) // 3], acts[-1]]


def run_const(case, rec):
    m = case["motor"]
    spec = envs.spec(m, case["finite"], constraints=[])
    om = case["omega"]
    probe = envs.physical_system(spec)
    if probe.state_space.low[probe.state_positions["omega"]] >= 0:
        om = abs(om)
    if case["via"] == "arg":
        load = ml.ConstantSpeedLoad(omega_fixed=om)
    else:
        init = dict(states={"omega": om}, interval=None, random_init=None, random_params=(None, None))
        load = ml.ConstantSpeedLoad(load_initializer=init)
    rec.expect(load.omega_fixed == om, "configured speed", got=load.omega_fixed, want=om)
    ps = build.SYSTEM[m](converter=build.converter(spec["conv"], spec["tau"], case["finite"]), motor=build.motor(spec), load=load, supply=build.supply(spec["supply"]),
                         ode_solver=build.solver(spec), tau=spec["tau"])
    i = ps.state_positions["omega"]
    acts = pick(ps)
    for hist in itertools.product(range(3), repeat=case["depth"]):
        w = ps.reset()[i] * ps.limits[i]
        rec.close(w, om, "speed after the reset", rtol=1e-12)
        for a in hist:
            for _ in range(3):
                w = ps.simulate(acts[a])[i] * ps.limits[i]
                rec.trans()
                rec.close(w, om, "constant speed", rtol=1e-9, atol=1e-12, hist=hist)
        rec.trace()
        rec.states.add(hash((str(case), hist)))
    rec.sample(dict(case=case, speed=w))


def run_profile(case, rec):
    m = case["motor"]
    tau = case["tau"]
    spec = envs.spec(m, case["finite"], constraints=[], solver=case["solver"], tau=tau)
    f, kw, slope = PROFILES[case["profile"]]
    given = dict(kw)
    load = ml.ExternalSpeedLoad(f, tau=tau, speed_profile_kwargs=given)
    ps = build.SYSTEM[m](converter=build.converter(spec["conv"], tau, case["finite"]), motor=build.motor(spec), load=load, supply=build.supply(spec["supply"]),
                         ode_solver=build.solver(spec), tau=tau)
    i = ps.state_positions["omega"]
    acts = pick(ps)
    for a in range(3):
        w = ps.reset()[i] * ps.limits[i]
        rec.close(w, f(0.0, **kw), "speed after the reset", rtol=1e-12, atol=1e-12)
        for k in range(1, case["steps"] + 1):
            w = ps.simulate(acts[(a + k // 4) % 3])[i] * ps.limits[i]
            rec.trans()
            want = f(k * tau, **kw)
            if case["solver"] == "euler":
                rec.close(w, want, "speed profile", rtol=1e-9, atol=1e-8, step=k)
            else:
                rec.expect(abs(w - want) <= 1.5 * slope * tau + 1e-6, "speed profile (first order)", got=w, want=want, step=k)
            rec.states.add(hash((m, case["profile"], tau, round(w, 9))))
        rec.trace()
    rec.expect(given == kw, "profile arguments are not changed", got=given)
    rec.sample(dict(case=case, speed=w))


def run_ou(case, rec):
    m = case["motor"]
    spec = envs.spec(m, case["finite"], constraints=[])
    lo, hi = case["range"]
    tau = spec["tau"]
    seen = set()

    def one(tape):
        load = ml.OrnsteinUhlenbeckLoad(mu=case["mu"], sigma=case["sigma"], theta=case["theta"], tau=case["tau"], omega_range=(lo, hi))
        ps = build.SYSTEM[m](converter=build.converter(spec["conv"], tau, case["finite"]), motor=build.motor(spec), load=load,
                             supply=build.supply(spec["supply"]), ode_solver=build.solver(spec), tau=tau)
        i = ps.state_positions["omega"]
        acts = pick(ps)
        w = float(ps.reset()[i] * ps.limits[i])
        rec.expect(lo - 1e-9 <= w <= hi + 1e-9, "initial speed inside its range", got=w, draws=tape.draws)
        seen.add(round(w, 6))
        for k in range(case["steps"]):
            n = len(tape.draws)
            w2 = float(ps.simulate(acts[k % 3])[i] * ps.limits[i])
            rec.trans()
            rec.expect(lo - 1e-6 <= w2 <= hi + 1e-6, "speed inside its range", got=w2, before=w)
            new = tape.draws[n:]
            if len(new) == 1 and new[0][0] == "normal":
                z = float(np.ravel(new[0][2])[0]) / (1.0 if new[0][1][1] == 1.0 else new[0][1][1])
                d = case["theta"] * (case["mu"] - w) + case["sigma"] / math.sqrt(case["tau"]) * z
                d = min(max(d, (lo - w) / case["tau"]), (hi - w) / case["tau"])
                rec.close(w2, w + tau * d, "Ornstein-Uhlenbeck step", rtol=1e-9, atol=1e-9, before=w, draw=z)
            w = w2
            rec.states.add(hash((str(case), round(w, 9))))
        rec.trace()

    n = script.explore(one, u=(0.0, 0.4, script.TOP), limit=7)
    rec.expect(len(seen) > 2, "the initial speed is drawn", got=sorted(seen))
    rec.sample(dict(case=case, executions=n))


def run(case, rec):
    dict(poly=run_poly, const=run_const, profile=run_profile, ou=run_ou)[case["kind"]](case, rec)
