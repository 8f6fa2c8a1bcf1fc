"""C21: the initial states are the configured ones."""
import cmath
import itertools
import math

import numpy as np
from scipy.stats import truncnorm

from gym_electric_motor.physical_systems import mechanical_loads as ml

from gemmc import build, envs, script

ID = "C21"
LEVEL = "model_checking"
RULE = ("9 machines x switched/averaged converters x every subset (and both orders) of configured initial electrical states x a lattice of values x loads and initial "
        "speeds, three resets with steps in between; and, with every random draw replaced by a choice point, every combination of the outcomes {lowest, quartile, middle, "
        "highest} of the first four draws for uniform and gaussian initialisation x intervals x means and deviations, against the truncated distribution inside "
        "interval and nominal range; values outside the admissible range are refused")
ASSUMPTIONS = ["initial fluxes of induction machines: exact for constant values at standstill, inside the flux limit otherwise"]

Q = (1e-9, 0.3, 0.55, 1.0 - 1e-9)
EPS = (-3.0, 0.0, 1.1, 3.1)


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in build.MOTOR:
        for fin in (True, False):
            for om in (0.0, 25.0, -25.0):
                out.append(dict(kind="const", motor=m, finite=fin, omega0=om, all=th))
            for dist in ("uniform", "gaussian", "normal"):
                for iv in range(len(INTERVALS)):
                    for par in ((None, None), (0.25, 0.5), (0.0, None)):
                        if dist == "uniform" and par != (None, None):
                            continue
                        if not th and (fin and iv > 1 or dist == "normal" and (fin or iv)):
                            continue
                        out.append(dict(kind="random", motor=m, finite=fin, dist=dist, iv=iv, par=list(par)))
        out.append(dict(kind="refuse", motor=m))
        for dist in ("uniform", "gaussian"):
            for iv in range(len(INTERVALS)):
                out.append(dict(kind="load", motor=m, dist=dist, iv=iv, const=m in ("PMSM", "PermExDc", "SCIM")))
    for m in ("PermExDc", "PMSM", "SCIM"):
        out.append(dict(kind="otherloads", motor=m))
    for conv in ("1QC", "2QC", "4QC"):
        for dist in ("uniform", "gaussian"):
            out.append(dict(kind="random", motor="PermExDc", finite=True, dist=dist, iv=0, par=[None, None], conv=conv))
            out.append(dict(kind="load", motor="SeriesDc", dist=dist, iv=0, conv=conv))
    return out


# fractions of the nominal value; None: no interval
INTERVALS = [None, (-0.5, 0.3), (0.1, 5.0), (-7.0, -0.2), (0.25, 0.25)]


def spec_of(m, fin, **kw):
    load = kw.pop("load", dict(kind="poly", a=0.01, b=0.01, c=1e-4, j_load=1e-3, omega0=kw.pop("omega0", 0.0)))
    return envs.spec(m, fin, load=load, **kw)


def seen(m, mp, ps, vec):
    """electrical states as they show in a state vector"""
    s = build.physical(ps, vec)
    if m not in ("SCIM", "DFIM"):
        return {n: s[n] for n in build.ODE_STATES[m]}, s
    i = complex(s["i_sa"], (s["i_sb"] - s["i_sc"]) / math.sqrt(3))
    dq = complex(s["i_sd"], s["i_sq"])
    out = dict(i_salpha=i.real, i_sbeta=i.imag, epsilon=s["epsilon"])
    lr = mp["l_m"] + mp["l_sigr"]
    if abs(dq) > 1e-9:
        field = i / dq
        mag = None
        if m == "DFIM":
            mag = lr * s["i_rd"] + mp["l_m"] * s["i_sd"]
        elif abs(s["i_sq"]) > 1e-6:
            mag = s["torque"] / (1.5 * mp["p"] * mp["l_m"] / lr * s["i_sq"])
        if mag is not None:
            psi = mag * field / abs(field)
            out.update(psi_ralpha=psi.real, psi_rbeta=psi.imag)
    return out, s


def nominal(ps, m, n):
    mot = ps.electrical_motor
    return float(mot.nominal_values[{"i_salpha": "i_salpha", "i_sbeta": "i_sbeta"}.get(n, n)])


def const(case, rec):
    m, fin = case["motor"], case["finite"]
    mp = build.MP[m]["d"]
    names = build.ODE_STATES[m]
    probe = build.system(spec_of(m, fin))
    low = dict(zip(probe.state_names, probe.state_space.low))
    om = case["omega0"]
    if low["omega"] >= 0:
        om = abs(om)
    vals = []
    for n in names:
        if n == "epsilon":
            vals.append(EPS if case["all"] else (0.0, 1.1, -3.0))
        elif n.startswith("psi"):
            lim = 0.5 * mp["l_m"] * nominal(probe, m, "i_salpha")
            vals.append((0.0, lim, -lim) if om == 0 and m != "DFIM" else (0.0, 0.5 * lim) if om == 0 else (0.0,))
        else:
            nom = nominal(probe, m, n)
            vals.append((0.0, 0.4 * nom, -0.9 * nom) if low.get(n, -1) < 0 else (0.0, 0.4 * nom, 0.9 * nom))
    subsets = [s for r in range(1, len(names) + 1) for s in itertools.combinations(names, r)]
    if not case["all"] and len(names) > 3:
        subsets = [s for s in subsets if len(s) in (1, len(names)) or s[0].startswith("psi")]
    for sub in subsets:
        ix = [names.index(n) for n in sub]
        for combo in itertools.product(*[vals[i] for i in ix]):
            for order in ((1, -1) if len(sub) > 1 else (1,)):
                given = dict(list(zip(sub, combo))[::order])
                want = {n: given.get(n, 0.0) for n in names}
                handed = dict(states=given)
                ps = build.SYSTEM[m](converter=build.converter(build.default_conv(m), 1e-4, fin), motor=build.MOTOR[m](motor_parameter=dict(mp), motor_initializer=handed),
                                     load=build.load(spec_of(m, fin, omega0=om)["load"]), supply=build.supply(dict(kind="ideal", u=envs.U.get(m, 60.0))), tau=1e-4,
                                     ode_solver=build.solver({}))
                acts = envs.actions(ps, 2)
                for rep in range(3):
                    vec = np.array(ps.reset(), float)
                    got, s = seen(m, mp, ps, vec)
                    ok = abs(s["omega"] - om) <= 1e-9 * (1 + abs(om))
                    for n, v in got.items():
                        d = abs(build.angle_diff(v, want[n])) if n == "epsilon" else abs(v - want[n])
                        ok = ok and d <= 1e-7 * (1 + abs(want[n]))
                    if not ok:
                        rec.fail("initial values after reset %d" % rep, got=got, want=dict(want, omega=om), given=list(given.items()), omega=s["omega"])
                    from checks.c13_state_consistency import torque
                    t = torque(m, mp, s)
                    if m == "SCIM":
                        t = 1.5 * mp["p"] * mp["l_m"] / (mp["l_m"] + mp["l_sigr"]) * (want["psi_ralpha"] * want["i_sbeta"] - want["psi_rbeta"] * want["i_salpha"])
                    rec.close(s["torque"], t, "torque of the initial values", rtol=1e-8, atol=1e-8)
                    rec.states.add(hash((m, fin, vec.tobytes())))
                    rec.trans()
                    if rep < 2:
                        ps.simulate(acts[rep])
                        ps.simulate(acts[1 - rep])
                    if len(sub) < len(names) and rep == 1:
                        break
                if handed != dict(states=dict(list(zip(sub, combo))[::order])):
                    rec.fail("the initializer of the caller was changed", got=handed)
                rec.trace()
    rec.sample(dict(given=given, got=got))


def bounds(nom, low, iv, unit):
    lo, hi = nom * low, nom
    if iv is not None:
        lo, hi = max(lo, iv[0] * unit), min(hi, iv[1] * unit)
    return lo, hi


def values(dist, par, lo, hi, unit):
    """outcomes of the distribution for the quantiles"""
    if lo == hi:
        return [lo] * len(Q)
    if dist == "uniform":
        return [lo + q * (hi - lo) for q in Q]
    mu = par[0] if par[0] is not None else 0.5 * (lo + hi)
    sg = par[1] or 1.0
    return [float(truncnorm.ppf(q, (lo - mu) / sg, (hi - mu) / sg, loc=mu, scale=sg)) for q in Q]


def random_motor(case, rec):
    m, fin, iv = case["motor"], case["finite"], INTERVALS[case["iv"]]
    mp = build.MP[m]["d"]
    names = build.ODE_STATES[m]
    sp = spec_of(m, fin, **(dict(conv=[case["conv"], 0.0]) if "conv" in case else {}))
    probe = build.system(sp)
    low = dict(zip(probe.state_names, probe.state_space.low))
    want, unit = {}, {}
    for n in names:
        if n == "epsilon":
            nom, u = math.pi, math.pi
        elif n.startswith("psi"):
            nom = u = mp["l_m"] * nominal(probe, m, "i_salpha")
        else:
            nom = u = nominal(probe, m, n)
        unit[n] = u
        # the fluxes are limited further depending on the drawn field angle: their intervals include the standstill value
        want[n] = bounds(nom, low.get(n, -1.0), (-5.0, 5.0) if n.startswith("psi") and case["iv"] > 1 else iv, u)
        if want[n][0] > want[n][1]:
            return
    # mean and deviation are common to all states: given relative to the first current
    par = [None if p is None else p * unit[names[0]] for p in case["par"]]
    ivs = {n: ((-5.0, 5.0) if n.startswith("psi") and case["iv"] > 1 else iv) for n in names}
    init = dict(random_init=case["dist"], interval=None if iv is None else [[ivs[n][0] * unit[n], ivs[n][1] * unit[n]] for n in names], random_params=tuple(par),
                states={n: 0.0 for n in names})
    im = m in ("SCIM", "DFIM")
    reached = {n: set() for n in names}
    combos = set()
    # the states that are drawn independently of each other (fluxes depend on the drawn field angle)
    free = [n for n in names if want[n][1] - want[n][0] > 1e-6 * unit[n] and not (im and (n.startswith("psi") or n == "epsilon"))]

    def one(tape):
        mot = build.MOTOR[m](motor_parameter=dict(mp), motor_initializer=dict(init))
        ps = build.SYSTEM[m](converter=build.converter(sp["conv"], sp["tau"], fin), motor=mot, load=build.load(sp["load"]), supply=build.supply(sp["supply"]),
                             tau=sp["tau"], ode_solver=build.solver({}))
        for rep in range(2):
            if rep == 1:
                before = len(tape.choices)
            vec = ps.reset()
            got, s = seen(m, mp, ps, vec)
            hits = {}
            for n, v in got.items():
                lo, hi = want[n]
                tol = 1e-6 * unit[n]
                if n.startswith("psi"):
                    rec.expect(abs(v) <= max(abs(lo), abs(hi)) + tol, "initial flux outside of its range", got=v, want=(lo, hi))
                    continue
                vals = values(case["dist"], par, lo, hi, unit[n])
                hit = [k for k, w in enumerate(vals) if (abs(build.angle_diff(v, w)) if n == "epsilon" else abs(v - w)) <= tol]
                if not hit:
                    rec.fail("initial value is not an outcome of the configured distribution", state=n, got=v, outcomes=vals, bounds=(lo, hi), case_=case)
                else:
                    reached[n].update(hit)
                    hits[n] = hit[0]
            if rep == 0:
                combos.add(tuple(hits.get(n) for n in free))
            rec.states.add(hash((str(case), tuple(got.items()), rep)))
            rec.trans()
            ps.simulate(envs.actions(ps, 2)[1])
        rec.trace()

    nd = len(names) + (1 if im else 0)
    n_ex = script.explore(one, u=Q, limit=min(nd, 4), nu=5)
    # fluxes limited by a drawn field angle are clipped differently in every draw
    for n in names:
        if n.startswith("psi") or (nd > 4 and n == "epsilon"):
            continue
        lo, hi = want[n]
        if abs(hi - lo) > 1e-6 * unit[n] and len(reached[n]) < len(Q):
            rec.fail("an outcome of the distribution is never reached", state=n, reached=sorted(reached[n]), executions=n_ex)
    # the ends of the full circle are one and the same angle: outcomes are counted as they show
    shown = 1
    for k in range(len(free)):
        shown *= len({c[k] for c in combos})
    rec.expect(len(combos) == shown, "the initial states are not drawn independently of each other", states=free, combinations=len(combos), want=shown, executions=n_ex)
    rec.sample(dict(case=case, executions=n_ex, combos=len(combos)))


def random_load(case, rec):
    m, iv = case["motor"], INTERVALS[case["iv"]]
    sp = spec_of(m, False, **(dict(conv=[case["conv"], 0.0]) if "conv" in case else {}))
    if "conv" in case:
        sp["finite"] = True
    probe = build.system(sp)
    nom = float(dict(zip(probe.state_names, probe.nominal_state))["omega"])
    low = dict(zip(probe.state_names, probe.state_space.low))["omega"]
    lo, hi = bounds(nom, low, iv, nom)
    if lo > hi:
        return
    for par in ((None, None), (0.25 * nom, 0.3 * nom), (0.0, None)):
        if case["dist"] == "uniform" and par[0] is not None:
            continue
        for const_load in ((False, True) if case.get("const") else (False,)):
            init = dict(states=dict(omega=0.0), random_init=case["dist"], interval=None if iv is None else [[iv[0] * nom, iv[1] * nom]], random_params=par)
            vals = values(case["dist"], par, lo, hi, nom)
            hits = set()

            def one(tape):
                l = (ml.ConstantSpeedLoad(load_initializer=dict(init)) if const_load else
                     ml.PolynomialStaticLoad(load_parameter=dict(a=0.01, b=0.0, c=0.0, j_load=1e-3), load_initializer=dict(init)))
                ps = build.SYSTEM[m](converter=build.converter(sp["conv"], sp["tau"], sp["finite"]), motor=build.motor(sp), load=l, supply=build.supply(sp["supply"]),
                                     tau=sp["tau"], ode_solver=build.solver({}))
                for rep in range(3):
                    s = build.physical(ps, ps.reset())
                    hit = [k for k, w in enumerate(vals) if abs(s["omega"] - w) <= 1e-6 * nom]
                    if not hit:
                        rec.fail("initial speed is not an outcome of the configured distribution", got=s["omega"], outcomes=vals, bounds=(lo, hi))
                    hits.update(hit)
                    rec.states.add(hash((str(case), par, s["omega"], rep)))
                    rec.trans()
                    w0 = s["omega"]
                    s = build.physical(ps, ps.simulate(envs.actions(ps, 2)[1]))
                    if const_load:
                        rec.close(s["omega"], w0, "constant speed is kept")
                rec.trace()

            script.explore(one, u=Q, limit=3)
            if lo < hi and len(hits) < len(Q):
                rec.fail("an outcome of the distribution is never reached", hits=sorted(hits))
    rec.sample(dict(case=case, bounds=(lo, hi)))


def refuse(case, rec):
    """constant values outside of the admissible range are refused, at its border they are accepted"""
    m = case["motor"]
    for fin in (True, False):
        sp = spec_of(m, fin)
        probe = build.system(sp)
        low = dict(zip(probe.state_names, probe.state_space.low))
        nomw = float(dict(zip(probe.state_names, probe.nominal_state))["omega"])
        tries = [("omega", f) for f in (-1.01, -0.999, 0.999, 1.01)]
        for n in build.ODE_STATES[m]:
            if not n.startswith("psi"):
                tries += [(n, f) for f in (-1.01, -0.999, 0.999, 1.01)]
        for n, f in tries:
            x0 = {k: 0.0 for k in build.ODE_STATES[m]}
            load = dict(sp["load"])
            if n == "omega":
                load["omega0"] = f * nomw
            else:
                x0[n] = f * (math.pi if n == "epsilon" else nominal(probe, m, n))
            ps = build.system(dict(sp, load=load, x0=[x0[k] for k in build.ODE_STATES[m]]))
            lo = low.get(n, -1.0)
            want = lo <= f <= 1.0
            try:
                vec = ps.reset()
                got = True
            except Exception:
                got = False
            rec.expect(got == want, "initial value at the border of the admissible range", state=n, factor=f, accepted=got, want=want)
            if got and want:
                rec.expect(np.max(np.abs(vec)) <= 1.0 + 1e-9 or n == "torque" or m in ("EESM",), "accepted initial state inside the limits", got=vec)
            rec.trans()
            rec.states.add(hash((m, fin, n, f)))
        rec.trace()
    rec.sample(dict(motor=m, tries=len(tries)))


def otherloads(case, rec):
    m = case["motor"]
    for fin in (True, False):
        for om in (0.0, 12.0, -7.0):
            loads = [("fixed", lambda: ml.ConstantSpeedLoad(omega_fixed=om), om), ("init", lambda: ml.ConstantSpeedLoad(load_initializer=dict(states=dict(omega=om))), om),
                     ("profile", lambda: ml.ExternalSpeedLoad(lambda t, a: a + 3.0 * math.cos(100.0 * t), tau=1e-4, speed_profile_kwargs=dict(a=om)), om + 3.0),
                     ("default", lambda: ml.PolynomialStaticLoad(), 0.0)]
            for name, mk, want in loads:
                sp = spec_of(m, fin)
                ps = build.SYSTEM[m](converter=build.converter(sp["conv"], 1e-4, fin), motor=build.motor(sp), load=mk(), supply=build.supply(sp["supply"]), tau=1e-4,
                                     ode_solver=build.solver({}))
                for rep in range(3):
                    s = build.physical(ps, ps.reset())
                    rec.close(s["omega"], want, "initial speed of the load " + name, reset=rep)
                    ps.simulate(envs.actions(ps, 2)[1])
                    rec.trans()
                    rec.states.add(hash((m, fin, om, name, rep)))
                rec.trace()
        # the process starts anywhere in its range
        for rng in ((-20.0, 30.0), (5.0, 6.0), (0.0, 10.0)):
            hits = set()

            def one(tape):
                ps = build.SYSTEM[m](converter=build.converter(sp["conv"], 1e-4, fin), motor=build.motor(sp),
                                     load=ml.OrnsteinUhlenbeckLoad(mu=rng[0], sigma=1.0, theta=1.0, tau=1e-4, omega_range=rng), supply=build.supply(sp["supply"]), tau=1e-4,
                                     ode_solver=build.solver({}))
                for rep in range(2):
                    w = build.physical(ps, ps.reset())["omega"]
                    rec.expect(rng[0] - 1e-9 <= w <= rng[1] + 1e-9, "initial speed in the range of the process", got=w, want=rng)
                    hits.add(round(w, 3))
                    rec.trans()
                rec.trace()

            script.explore(one, u=Q, limit=4)
            rec.expect(len(hits) == len(Q), "all initial speeds of the range are possible", got=sorted(hits))
    rec.sample(dict(motor=m))


def run(case, rec):
    dict(const=const, random=random_motor, load=random_load, refuse=refuse, otherloads=otherloads)[case["kind"]](case, rec)
