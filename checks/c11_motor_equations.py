"""C11: motor models = textbook machines (derivative, torque, power balance) on the complete lattice."""
import cmath
import itertools
import math

import numpy as np

from gemmc import build, simref

ID = "C11"
LEVEL = "model_checking"
RULE = ("for every machine and every parameter set (defaults, an altered set, every single parameter replaced alone): every point of the lattice "
        "states x inputs x speed is evaluated on the real motor and compared with the voltage equations of the textbook machine; power balance of the "
        "real derivative in every point; states = distinct (machine, parameters, lattice point)")
ASSUMPTIONS = ["values on a finite lattice (the equations are polynomials of degree two, which the lattice determines)"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in build.MOTOR:
        keys = sorted(build.MP[m]["d"])
        for ps in ["none", "d", "x"] + ["only:" + k for k in keys]:
            out.append(dict(part="ode", motor=m, params=ps, fine=th and m not in ("DFIM",)))
        out.append(dict(part="limits", motor=m))
    return out


def params(case):
    m, p = case["motor"], case["params"]
    d = build.MP[m]["d"]
    if p == "none":
        return None, d
    if p in ("d", "x"):
        return dict(build.MP[m][p]), build.MP[m][p]
    k = p[5:]
    v = d[k] + 1 if k == "p" else d[k] * 0.7
    return {k: v}, dict(d, **{k: v})


def run(case, rec):
    if case["part"] == "limits":
        return limits(case, rec)
    m = case["motor"]
    given, mp = params(case)
    before = dict(given) if given is not None else None
    mot = build.MOTOR[m](motor_parameter=given) if given is not None else build.MOTOR[m]()
    rec.expect(given == before, "the caller's parameter dictionary was changed", got=given, want=before)
    for k, v in mp.items():
        rec.close(mot.motor_parameter[k], v, "motor parameter " + k)
    ref = simref.MACHINES[m](mp)
    kind = ref.kind
    lat3 = [-1.0, 0.0, 0.6]
    if case["fine"]:
        lat3 = [-1.0, -0.3, 0.0, 0.6, 1.0]
    i_s = dict(PermExDc=100.0, SeriesDc=100.0, ShuntDc=80.0, ExtExDc=80.0, PMSM=120.0, SynRM=10.0, EESM=120.0, SCIM=4.0, DFIM=7.0)[m]
    if kind in ("scim", "dfim"):
        scale = [i_s, i_s * 0.8, 0.9, 1.1, 2.0]
        lats = [lat3[:3] if not case["fine"] else [-1.0, 0.0, 0.4, 1.0]] * 4 + [[0.7]]
        us = [list(u) for u in itertools.product((-250.0, 0.0, 100.0), repeat=2)]
        if kind == "dfim":
            us = [a + b for a, b in itertools.product(us, ([0.0, 0.0], [130.0, -40.0], [-90.0, 55.0]))]
    elif kind == "dc":
        scale = [i_s, i_s * 0.5][:ref.n]
        lats = [lat3 + [0.11, -0.7]] * ref.n
        us = [list(u) for u in itertools.product((-60.0, 0.0, 13.0, 60.0), repeat=len(ref.voltages))]
    else:
        scale = [i_s] * (ref.n - 1) + [3.0]
        lats = [lat3] * (ref.n - 1) + [[-0.4, 0.9]]
        us = [list(u) for u in itertools.product((-150.0, 0.0, 40.0), repeat=2 if kind == "sync" else 3)]
    names = build.ODE_STATES[m]
    rec.expect(list(mot.CURRENTS) == [n for n in names if n.startswith("i_") or n == "i"], "order of the motor currents", got=mot.CURRENTS)
    prev = None
    for pt in itertools.product(*lats):
        x = [a * b for a, b in zip(pt, scale)]
        xa = np.array(x)
        t = mot.torque(xa)
        wt = ref.torque(x)
        rec.close(t, wt, "torque", rtol=1e-9, atol=1e-9, x=x)
        if kind == "dc":
            rec.close(mot.i_in(xa), ref.i_in(x), "input currents", x=x)
        for u in us:
            if kind == "scim":
                ur, um = np.array(u), [complex(*u), 0j]
            elif kind == "dfim":
                ur, um = np.array([u[:2], u[2:]]), [complex(*u[:2]), complex(*u[2:])]
            else:
                ur, um = list(u), u
            for w in (-210.0, 0.0, 35.0):
                d = mot.electrical_ode(xa, ur, w)
                want = ref.der(x, um, w)
                sc = max(abs(v) for v in want) + 1.0
                df = np.asarray(d, dtype=float).ravel()
                if df.shape != (len(want),) or not np.all(np.abs(df - want) <= 1e-8 * sc):
                    rec.fail("derivative of the electrical states", got=df, want=want, x=x, u=u, omega=w)
                # power balance of the real derivative
                pel = ref.p_el(x, um)
                h = 1e-3
                de = 0.0
                for j in range(len(x)):
                    if names[j] == "epsilon":
                        continue
                    hj = h * scale[j]
                    xp, xm = list(x), list(x)
                    xp[j] += hj
                    xm[j] -= hj
                    de += (ref.energy(xp) - ref.energy(xm)) / (2 * hj) * df[j]
                bal = pel - ref.losses(x) - de - float(t) * w
                tot = abs(pel) + abs(ref.losses(x)) + abs(de) + abs(float(t) * w) + 1.0
                if not abs(bal) <= 1e-6 * tot:
                    rec.fail("power balance: input = losses + stored + mechanical", got=bal, p_el=pel, x=x, u=u, omega=w)
                if prev is not None and not np.array_equal(prev[0], prev[1], equal_nan=True):
                    rec.fail("a returned derivative was changed by a later evaluation")
                prev = (d, np.array(d, copy=True))
                rec.n_eval += 2
                rec.n_trans += 1
                rec.states.add(hash((m, case["params"], tuple(x), tuple(u), w)))
        if not np.array_equal(xa, x):
            rec.fail("the state array was changed by an evaluation", x=x)
    rec.trace()
    rec.sample(dict(motor=m, x=x, u=u, omega=w, derivative=df, torque=t))


def limits(case, rec):
    """explicit limits are kept, nominal values are positive and not larger than the limits"""
    m = case["motor"]
    mot = build.MOTOR[m]()
    base_l, base_n = dict(mot.limits), dict(mot.nominal_values)
    for k in sorted(base_l):
        for f in (0.5, 2.0):
            lv = {k: float(base_l[k]) * f} if base_l[k] else {k: 5.0}
            given = dict(lv)
            mm = build.MOTOR[m](limit_values=given)
            rec.expect(given == lv, "the caller's limits were changed", got=given, want=lv)
            rec.close(mm.limits[k], lv[k], "explicit limit of " + k)
            for n, v in mm.limits.items():
                rec.expect(float(v) > 0, "limit is positive", motor=m, name=n, got=v, limits=given)
            for n, v in mm.nominal_values.items():
                rec.expect(float(v) > 0, "nominal value is positive", motor=m, name=n, got=v)
            nv = {k: lv[k]}
            mm = build.MOTOR[m](nominal_values=dict(nv))
            rec.close(mm.nominal_values[k], nv[k], "explicit nominal value of " + k)
            rec.trans(2)
            rec.state(m, k, f)
    again = build.MOTOR[m]()
    rec.same(dict(again.limits), base_l, "defaults changed by other instances")
    rec.same(dict(again.nominal_values), base_n, "defaults changed by other instances")
    rec.trace()
    rec.sample(dict(motor=m, limits={k: float(v) for k, v in base_l.items()}))
