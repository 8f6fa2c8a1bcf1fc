"""C13: the entries of a state vector belong together."""
import itertools
import math

import numpy as np

from gemmc import build, engine, envs

ID = "C13"
LEVEL = "model_checking"
RULE = ("every action sequence over corner actions up to the depth from every initial state of a lattice (signs of the currents and fluxes, rotor angles in all quadrants, "
        "speeds) for 9 machines x switched/averaged converters x two parameter sets x limit configurations x supplies; at the reset and after every step: phase <-> "
        "field-oriented currents, torque equation, angle and speed, voltage sets, names, normalisation by the limits (equal physical trajectories under different "
        "limits), state space; states = (configuration, visited state)")
ASSUMPTIONS = ["DC voltage supplies; the field-oriented voltages may use any rotor angle passed during the step"]

TAU = dict(fin=1e-5, cont=5e-5)
LIMITS = [None, dict(limit_values=dict(omega=1000.0, torque=777.0), nominal_values=dict(omega=900.0, torque=500.0)),
          dict(limit_values=dict(i=333.0, u=1234.0), nominal_values=dict(i=222.0, u=1111.0))]


def starts(m):
    if m in ("PermExDc", "SeriesDc"):
        return [[0.0], [20.0], [-20.0]]
    if m in ("ShuntDc", "ExtExDc"):
        return [[0.0, 0.0], [20.0, 3.0], [-20.0, 3.0], [10.0, -3.0]]
    if m in ("PMSM", "SynRM"):
        return [[a, b, e] for a, b in ((0.0, 0.0), (3.0, 5.0), (-4.0, 2.0), (2.0, -6.0)) for e in (0.0, 1.0, 3.1, -2.0)]
    if m == "EESM":
        return [[a, b, f, e] for a, b, f in ((0.0, 0.0, 0.0), (3.0, 5.0, 2.0), (-4.0, 2.0, 3.0), (2.0, -6.0, -1.0)) for e in (0.0, 1.0, 3.1, -2.0)]
    return [[a, b, x, y, e] for a, b, x, y in ((0.0, 0.0, 0.0, 0.0), (1.0, 2.0, 0.4, 0.2), (-2.0, 1.0, -0.3, 0.5), (1.5, -1.0, 0.1, -0.6), (0.5, 0.5, -0.2, -0.2))
            for e in (0.0, 2.0, -3.0)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in build.MOTOR:
        for fin in (True, False):
            for mp in "dx":
                for lim in range(len(LIMITS)):
                    for om in ((0.0, 30.0, -45.0) if th or lim == 0 else (30.0,)):
                        out.append(dict(motor=m, finite=fin, mp=mp, lim=lim, omega0=om, depth=4 if th else 3, il=0.0, frame="abc"))
            out.append(dict(motor=m, finite=fin, mp="d", lim=0, omega0=30.0, depth=4 if th else 3, il=0.25, frame="abc"))
        for sup in (dict(kind="rc", u=100.0, R=0.5, C=1e-3),):
            out.append(dict(motor=m, finite=False, mp="d", lim=0, omega0=30.0, depth=3, il=0.0, frame="abc", supply=sup))
    for m in ("PMSM", "EESM"):
        out.append(dict(motor=m, finite=False, mp="e", lim=0, omega0=30.0, depth=3, il=0.0, frame="abc"))
    for m in ("PMSM", "SynRM", "SCIM"):
        out.append(dict(motor=m, finite=False, mp="d", lim=0, omega0=30.0, depth=3, il=0.0, frame="dq"))
    return out


def t23(x):
    a, b, c = x
    return (2 * a - b - c) / 3, (b - c) / math.sqrt(3)


def rot(x, e):
    c, s = math.cos(e), math.sin(e)
    return c * x[0] - s * x[1], s * x[0] + c * x[1]


def names_of(m):
    syn = ["omega", "torque", "i_a", "i_b", "i_c", "i_sd", "i_sq", "u_a", "u_b", "u_c", "u_sd", "u_sq", "epsilon", "u_sup"]
    if m in ("PMSM", "SynRM"):
        return syn
    if m == "EESM":
        return syn[:7] + ["i_e"] + syn[7:12] + ["u_e"] + syn[12:]
    if m == "SCIM":
        return ["omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "u_sa", "u_sb", "u_sc", "u_sd", "u_sq", "epsilon", "u_sup"]
    if m == "DFIM":
        return (["omega", "torque"] + ["i_" + x for x in "sa sb sc sd sq ra rb rc rd rq".split()] + ["u_" + x for x in "sa sb sc sd sq ra rb rc rd rq".split()]
                + ["epsilon", "u_sup"])
    cur = envs.CUR[m]
    return ["omega", "torque"] + cur + (["u_a", "u_e"] if m == "ExtExDc" else ["u"]) + ["u_sup"]


def torque(m, mp, s):
    if m == "PermExDc":
        return mp["psi_e"] * s["i"]
    if m == "SeriesDc":
        return mp["l_e_prime"] * s["i"] ** 2
    if m in ("ShuntDc", "ExtExDc"):
        return mp["l_e_prime"] * s["i_a"] * s["i_e"]
    if m == "PMSM":
        return 1.5 * mp["p"] * (mp["psi_p"] + (mp["l_d"] - mp["l_q"]) * s["i_sd"]) * s["i_sq"]
    if m == "SynRM":
        return 1.5 * mp["p"] * (mp["l_d"] - mp["l_q"]) * s["i_sd"] * s["i_sq"]
    if m == "EESM":
        # the excitation flux in stator quantities: l_m times the current transformed with the turns ratio
        return 1.5 * mp["p"] * (mp["l_m"] * s["i_e"] + (mp["l_d"] - mp["l_q"]) * s["i_sd"]) * s["i_sq"]
    lr = mp["l_m"] + mp["l_sigr"]
    if m == "DFIM":
        return 1.5 * mp["p"] * mp["l_m"] / lr * (lr * s["i_rd"] + mp["l_m"] * s["i_sd"]) * s["i_sq"]
    return None


def ang(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def run(case, rec):
    m = case["motor"]
    mp = build.MP[m]["x" if case["mp"] == "e" else case["mp"]]
    if case["mp"] == "e":
        # equal inductances
        mp = dict(mp, l_d=mp["l_q"])
    tau = TAU["fin" if case["finite"] else "cont"]
    p = mp.get("p", 0)
    names = names_of(m)
    acts = None
    for x0 in starts(m):
        om = case["omega0"]
        x = list(x0)
        if m in ("SCIM", "DFIM"):
            # initial fluxes as fractions of the admissible flux; only admissible at standstill
            f = mp["l_m"] * 3.9 if om == 0 else 0.0
            x[2:4] = [v * f for v in x[2:4]]
        if m in ("ShuntDc", "SeriesDc"):
            om = abs(om)
        if m == "ShuntDc":
            x = [abs(v) for v in x]
        sp = envs.spec(m, case["finite"], mp=mp, tau=tau, x0=x, frame=case["frame"], conv=build.default_conv(m, case["il"] * tau),
                       supply=case.get("supply", dict(kind="ideal", u=envs.U.get(m, 60.0))),
                       load=dict(kind="poly", a=0.05, b=0.02, c=1e-3, j_load=1e-3, omega0=om, limit=2000.0))
        sp.update(LIMITS[case["lim"]] or {})
        ps = build.system(sp)
        rec.expect(list(ps.state_names) == names, "names and order of the states", got=ps.state_names, want=names)
        rec.expect(all(ps.state_positions[n] == i for i, n in enumerate(names)), "positions of the states", got=ps.state_positions)
        lim, nom = np.array(ps.limits, float), np.array(ps.nominal_state, float)
        rec.expect(lim.shape == nom.shape == ps.state_space.shape == (len(names),), "lengths of limits, nominal values, space", got=(lim.shape, nom.shape))
        rec.expect(np.all(lim > 0) and np.all(np.isfinite(lim)) and np.all(nom > 0) and np.all(np.isfinite(nom)), "limits and nominal values are positive", got=(lim, nom))
        rec.expect(LIMITS[case["lim"]] is not None or np.all(nom <= lim * (1 + 1e-12)), "default nominal values inside the limits", got=(lim, nom))
        rec.expect(np.all(np.isin(ps.state_space.low, (-1.0, 0.0))) and np.all(ps.state_space.high == 1.0), "bounds of the state space", got=ps.state_space)
        ref_sp = {k: v for k, v in sp.items() if k not in ("limit_values", "nominal_values")}
        twin = build.system(ref_sp) if case["lim"] else None
        if acts is None:
            acts = envs.actions(ps)
            acts = acts if len(acts) <= 4 else [acts[i] for i in (1, len(acts) // 3, len(acts) // 2, len(acts) - 2)]
        low, high = ps.state_space.low, ps.state_space.high

        def look(vec, prev, hist):
            rec.trans()
            vec = np.asarray(vec, float)
            if not rec.expect(vec.shape == lim.shape and np.all(np.isfinite(vec)), "shape and finiteness of the state", got=vec, hist=hist):
                return None
            s = {n: float(v * l) for n, v, l in zip(names, vec, lim)}
            kw = dict(hist=hist, x0=x)
            if np.all(np.abs(vec) <= 1):
                out = [n for n, v, lo, hi in zip(names, vec, low, high) if not lo - 1e-12 <= v <= hi + 1e-12]
                rec.expect(not out, "state inside the declared space", key="shunt-4qc-reverse" if m == "ShuntDc" and out == ["omega"] and s["omega"] < 0 else None,
                           got=dict(zip(names, vec)), **kw)
            t = torque(m, mp, s)
            ctol = 1e-9 * (1 + max(abs(v) for n, v in s.items() if n.startswith("i")))
            if t is not None:
                rec.close(s["torque"], t, "torque of the reported currents", rtol=1e-8, atol=1e-9 + ctol * 1e-2, **kw)
            if p:
                e = s["epsilon"]
                rec.expect(-math.pi - 1e-12 <= e <= math.pi + 1e-12, "angle is wrapped", got=e, **kw)
                if prev is not None:
                    adv = p * tau * 0.5 * (s["omega"] + prev["omega"])
                    rec.expect(ang(e - prev["epsilon"], adv) <= p * tau * abs(s["omega"] - prev["omega"]) + 1e-9, "angle consistent with the speed",
                               got=e - prev["epsilon"], want=adv, **kw)
                st = ("i_a", "i_b", "i_c") if m in ("PMSM", "SynRM", "EESM") else ("i_sa", "i_sb", "i_sc")
                ab = t23([s[n] for n in st])
                rec.expect(abs(sum(s[n] for n in st)) <= 10 * ctol, "phase currents sum up to zero", got=[s[n] for n in st], **kw)
                dq = (s["i_sd"], s["i_sq"])
                ust = tuple(n.replace("i_", "u_") for n in st)
                uab, udq = t23([s[n] for n in ust]), (s["u_sd"], s["u_sq"])
                utol = 1e-9 * (1 + s["u_sup"])
                rec.close(math.hypot(*udq), math.hypot(*uab), "magnitude of phase and field-oriented voltages", rtol=1e-9, atol=10 * utol, **kw)
                if m in ("PMSM", "SynRM", "EESM"):
                    rec.close(rot(dq, e), ab, "phase currents are the field-oriented ones at the reported angle", rtol=1e-8, atol=10 * ctol, **kw)
                    if math.hypot(*udq) > 1e-6:
                        a = math.atan2(uab[1], uab[0]) - math.atan2(udq[1], udq[0])
                        if prev is None:
                            rec.expect(ang(a, e) < 1e-7, "angle of the voltages at the reset", got=a, want=e, **kw)
                        else:
                            span = p * tau * max(abs(prev["omega"]), abs(s["omega"]))
                            rec.expect(ang(a, prev["epsilon"]) <= span * 1.01 + 1e-7 and (case["il"] or ang(a, prev["epsilon"]) < 1e-7),
                                       "angle of the voltages", got=a, want=prev["epsilon"], **kw)
                else:
                    rec.close(math.hypot(*dq), math.hypot(*ab), "magnitude of phase and field-oriented currents", rtol=1e-8, atol=10 * ctol, **kw)
                    if math.hypot(*dq) > 1e-6 and m == "SCIM":
                        lr = mp["l_m"] + mp["l_sigr"]
                        if abs(s["i_sq"]) > 1e-6:
                            psi = s["torque"] / (1.5 * p * mp["l_m"] / lr * s["i_sq"])
                            rec.expect(psi >= -1e-9, "rotor flux along the d axis", got=psi, **kw)
                    if m == "DFIM":
                        lr = mp["l_m"] + mp["l_sigr"]
                        rec.expect(abs(lr * s["i_rq"] + mp["l_m"] * s["i_sq"]) <= 100 * ctol, "rotor flux along the d axis", got=(s["i_rq"], s["i_sq"]), **kw)
                        rab, rdq = t23([s["i_ra"], s["i_rb"], s["i_rc"]]), (s["i_rd"], s["i_rq"])
                        rec.close(math.hypot(*rab), math.hypot(*rdq), "magnitude of rotor currents", rtol=1e-8, atol=10 * ctol, **kw)
                        rec.close(math.hypot(*t23([s["u_ra"], s["u_rb"], s["u_rc"]])), math.hypot(s["u_rd"], s["u_rq"]), "magnitude of rotor voltages", rtol=1e-8,
                                  atol=10 * utol, **kw)
                        if math.hypot(*rdq) > 1e-4 and math.hypot(*dq) > 1e-4:
                            field = math.atan2(ab[1], ab[0]) - math.atan2(dq[1], dq[0])
                            rotor = math.atan2(rab[1], rab[0]) - math.atan2(rdq[1], rdq[0])
                            rec.expect(ang(field - rotor, e) < 1e-5, "stator, rotor and field angles fit", got=field - rotor, want=e, **kw)
            rec.states.add(hash((str(case), vec.tobytes())))
            return s

        def walk(hist, dirty):
            """explores all continuations; the system is brought to hist by replay"""
            vec = ps.reset()
            tv = twin.reset() if twin else None
            if not hist:
                s = look(vec, None, ())
                if s is None:
                    return
                for n, v in zip(build.ODE_STATES[m], x):
                    if n in s:
                        (rec.expect(ang(s[n], v) < 1e-9, "initial angle", got=s[n], want=v) if n == "epsilon" else
                         rec.close(s[n], v, "initial value of " + n, rtol=1e-9, atol=1e-9))
                rec.close(s["omega"], om, "initial speed")
            prev = None
            for k, a in enumerate(hist):
                if prev is None:
                    prev = look(vec, None, hist[:k])
                vec = ps.simulate(acts[a])
                if twin:
                    tv = twin.simulate(acts[a])
                s = look(vec, prev, hist[:k + 1])
                if s is None:
                    return
                if twin:
                    t = build.physical(twin, tv)
                    rec.close([s[n] for n in names], [t[n] for n in names], "physical values do not depend on the limits", rtol=1e-8, atol=1e-8, hist=hist)
                prev = s
            rec.trace()

        walk((), True)
        for hist in itertools.product(range(len(acts)), repeat=case["depth"]):
            walk(hist, True)
    rec.sample(dict(motor=m, start=x, history=hist, state=build.physical(ps, ps.simulate(acts[0]))))
