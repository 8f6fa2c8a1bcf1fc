"""C10: every control step of a drive equals an independent textbook simulation, for all action sequences."""
import itertools

import numpy as np

from gym_electric_motor.physical_systems import converters as cv, mechanical_loads as ml, solvers as sv, voltage_supplies as vs

from gemmc import build, simref

ID = "C10"
LEVEL = "model_checking"
RULE = ("for every drive configuration (9 machines x switched/averaged converters x interlocking times x ideal/RC/AC supply x loads x "
        "sub-steps x abc/dq actions x initial states): every action sequence up to the depth, from reset and after a warm-up history, "
        "executed on the real system and on the reference simulation in lockstep, all state entries compared after every step; states = "
        "distinct reached state vectors")
ASSUMPTIONS = ["Euler integration in implementation and reference, so both perform the same discretisation (solvers are checked in C24)",
               "machine inputs are held in rotor (synchronous) or stator (induction) coordinates during a segment",
               "traces in which a current is closer to zero than 1e-9 A while its sign decides the voltage are left out (counted as ambiguous)"]
DC = ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc")


def x0_of(m, which):
    if which == 0:
        return None
    d = dict(PermExDc=[20.0], SeriesDc=[25.0], ShuntDc=[30.0, 12.0], ExtExDc=[-30.0, 20.0], PMSM=[-40.0, 55.0, 2.0], SynRM=[4.0, -5.0, -1.1],
             EESM=[20.0, -30.0, 40.0, 0.7], SCIM=[1.5, -1.0, 0.0, 0.0, 0.4], DFIM=[2.0, -3.0, 0.0, 0.0, -2.0])[m]
    return d


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(motor, conv, finite, depth, warm=0, sl=1, **kw):
        u = dict(PMSM=300.0, SynRM=80.0, EESM=320.0, SCIM=560.0, DFIM=720.0).get(motor, 60.0)
        s = dict(motor=motor, conv=conv, finite=finite, mp=kw.pop("mp", "d"), x0=kw.pop("x0", 1), tau=kw.pop("tau", 1e-5 if finite else 1e-4),
                 nsteps=kw.pop("nsteps", 1), supply=kw.pop("supply", dict(kind="ideal", u=u)),
                 load=kw.pop("load", dict(kind="poly", a=0.02, b=0.01, c=1e-4, j_load=1e-3, omega0=12.0)), **kw)
        for i in range(sl):
            out.append(dict(s, depth=depth, warm=warm, slice=[i, sl]))

    poly0 = dict(kind="poly", a=0.0, b=0.0, c=0.0, j_load=1e-5)
    loads = [dict(kind="poly", a=0.3, b=0.02, c=3e-4, j_load=2e-3, omega0=-9.0), dict(kind="const", omega0=35.0),
             dict(kind="profile", amp=20.0, freq=40.0, off=5.0, tau=None), poly0]
    for motor in build.MOTOR:
        u = dict(PMSM=300.0, SynRM=80.0, EESM=320.0, SCIM=560.0, DFIM=720.0).get(motor, 60.0)
        convs = {}
        if motor == "ExtExDc":
            convs = [[a, b] for a, b in itertools.product(("1QC", "2QC", "4QC"), repeat=2)]
        elif motor in DC:
            convs = ["1QC", "2QC", "4QC"]
        else:
            convs = [None]
        for c in convs:
            for il in (0.0, 0.2, 0.5):
                def mk(tau):
                    f = il * tau
                    g = il * 0.6 * tau
                    if motor == "ExtExDc":
                        return ["Multi", [[c[0], f if c[0] != "1QC" else 0.0], [c[1], g if c[1] != "1QC" else 0.0]]]
                    if motor in DC:
                        return [c, f if c != "1QC" else 0.0]
                    if motor == "EESM":
                        return ["Multi", [["B6", f], ["4QC", g]]]
                    if motor == "DFIM":
                        return ["Multi", [["B6", f], ["B6", g]]]
                    return ["B6", f]

                if il > 0 and ("1QC" == c or c == ["1QC", "1QC"]):
                    continue
                rc = dict(kind="rc", u=u, R=0.4, C=2e-3)
                # switched converters
                full = dict(PermExDc=6, SeriesDc=6, ShuntDc=6, ExtExDc=3, PMSM=4, SynRM=4, SCIM=4, EESM=2, DFIM=2)[motor]
                if c == "1QC":
                    full += 1
                if th:
                    full += 1
                sl = 4 if motor in ("EESM", "DFIM", "PMSM", "SCIM", "SynRM") else 1
                kw = dict(x0=0) if c == "1QC" or (c and "1QC" in c) else {}
                add(motor, mk(1e-5), True, full, sl=sl, **dict(kw))
                add(motor, mk(1e-5), True, full - 1, warm=25, supply=rc, mp="x", sl=sl, **dict(kw))
                add(motor, mk(2e-5), True, full - 1, warm=4, tau=2e-5, nsteps=3, x0=0, load=loads[0])
                # averaged converters
                add(motor, mk(1e-4), False, 4 if motor in DC[:3] else 2, warm=0, sl=4 if motor in ("EESM", "DFIM") else 1, **dict(kw))
                add(motor, mk(1e-4), False, 1, warm=20, supply=rc, mp="x", **dict(kw))
                add(motor, mk(5e-5), False, 1, warm=3, tau=5e-5, nsteps=4, x0=0, load=loads[0])
                if il != 0.5 and (motor != "ExtExDc" or c == ["4QC", "4QC"]):
                    for ld in loads[1:]:
                        tau = 1e-5
                        ld = dict(ld, tau=tau) if ld["kind"] == "profile" else ld
                        add(motor, mk(tau), True, min(full - 1, 3), warm=6, load=ld, x0=0)
                        ld = dict(ld, tau=1e-4) if ld["kind"] == "profile" else ld
                        add(motor, mk(1e-4), False, 1, warm=6, load=ld, x0=0)
                if motor in DC and il != 0.5 and c != "2QC":
                    ac = dict(kind="ac1", u=u, f=50.0, phi=0.8)
                    add(motor, mk(1e-5), True, 2, warm=5, supply=ac, x0=0)
                    add(motor, mk(1e-4), False, 1, warm=30, supply=ac, x0=0)
                if motor in ("PMSM", "SynRM", "SCIM"):
                    add(motor, mk(1e-4), False, 2, warm=0, frame="dq")
                    add(motor, mk(1e-4), False, 2, warm=40, frame="dq", mp="x", supply=rc, load=loads[0])
    # supplies connected directly to the machine
    for motor in DC[:3]:
        for i, sup in enumerate((dict(kind="ac1", u=42.0, f=50.0, phi=0.8), dict(kind="ac1", u=230.0, f=16.7, phi=5.9), dict(kind="ideal", u=60.0), dict(kind="rc", u=60.0, R=0.4, C=2e-3))):
            add(motor, ["No", 0.0], False, 1, warm=200 if th else 60, supply=sup, mp="dx"[i % 2], tau=1e-4, nsteps=1 + i % 2 * 3, x0=0, load=dict(loads[i], **dict(tau=1e-4) if i == 2 else {}))
    direct = [dict(kind="ac3", motor=m) for m in ("PMSM", "SynRM", "SCIM")]
    if th:
        out += [dict(c, warm=c["warm"] * 7 + 3, depth=max(1, c["depth"] - 1)) for c in out if c["warm"]]
    return out + direct


def three_phase(case, rec):
    """a machine connected directly to the three phase grid"""
    m, tau, u, f = case["motor"], 1e-4, 40.0, 50.0
    try:
        ps = build.SYSTEM[m](converter=cv.NoConverter(tau=tau), motor=build.MOTOR[m](), load=ml.ConstantSpeedLoad(omega_fixed=10.0),
                             supply=vs.AC3PhaseSupply(u, dict(frequency=f, phase=0.3)), ode_solver=sv.EulerSolver(), tau=tau)
        ps.reset()
        for k in range(50):
            st = dict(zip(ps.state_names, ps.simulate(np.array([])) * ps.limits))
            rec.trans()
            rec.state(m, k)
            for i, n in enumerate(("u_sa", "u_sb", "u_sc") if m == "SCIM" else ("u_a", "u_b", "u_c")):
                w = u * np.sqrt(2 / 3) * np.sin(2 * np.pi * f * k * tau + 0.3 + 2 / 3 * np.pi * i)
                rec.expect(abs(st[n] - w) < 1e-8 * u, "phase voltage at the three phase grid", got=st[n], want=w, k=k)
    except (IndexError, ValueError, TypeError) as x:
        rec.fail("a machine at the three phase grid cannot be simulated", key="ac3-supply-unusable", motor=m, error=repr(x))
    rec.trace()
    rec.states.add(m)


def acts_of(spec):
    if spec["finite"]:
        return build.finite_actions(spec)
    m = spec["motor"]
    if spec.get("frame") == "dq":
        return [list(a) for a in itertools.product((-0.8, 0.1, 1.0), repeat=2)]
    kinds = [c[0] for c in spec["conv"][1]] if spec["conv"][0] == "Multi" else [spec["conv"][0]]
    per = {"1QC": [[0.0], [0.4], [1.0]], "2QC": [[0.0], [0.35], [0.9], [1.0]], "4QC": [[-1.0], [-0.3], [0.55], [1.0]],
           "No": [[]], "B6": [list(a) for a in itertools.product((-1.0, 1.0), repeat=3)] + [[0.2, -0.5, 0.6], [0.0, 0.0, 0.0], [-0.9, 0.3, 0.15]]}
    out = [sum(a, []) for a in itertools.product(*[per[k] for k in kinds])]
    if m == "DFIM":
        out = [a for i, a in enumerate(out) if i % 3 == 0]
    return out


def ambiguous(spec, drive):
    cur = drive.currents()
    if all(c == 0.0 for c in cur):
        return False
    kinds = [c for c in spec["conv"][1]] if spec["conv"][0] == "Multi" else [spec["conv"]]
    p = 0
    for k, il in kinds:
        n = 3 if k == "B6" else 1
        if (il > 0 or k == "1QC") and any(abs(x) < 1e-9 for x in cur[p:p + n]):
            return True
        p += n
    return False


def run(case, rec):
    if case.get("kind") == "ac3":
        return three_phase(case, rec)
    spec = dict(case)
    spec["mp"] = build.MP[spec["motor"]][spec["mp"]]
    spec["x0"] = x0_of(spec["motor"], spec["x0"])
    build.admissible_start(spec)
    ps = build.system(spec)
    ref = simref.Drive(spec)
    acts = acts_of(spec)
    i0, n = spec["slice"]
    warm = [acts[(3 * j * j + j) % len(acts)] for j in range(spec["warm"])]
    lim = dict(zip(ps.state_names, ps.limits))
    multi = spec["finite"] and spec["conv"][0] == "Multi"
    skipped = 0
    for seq in itertools.product(acts[i0::n], *([acts] * (spec["depth"] - 1))):
        st = ps.reset()
        want = ref.reset()
        compare(rec, ps, lim, st, want, "state after reset", spec, (), (flux(ref),))
        hist = warm + list(seq)
        amb = False
        for k, a in enumerate(hist):
            f0 = flux(ref)
            if ambiguous(spec, ref) or (f0 < 1e-8 and spec.get("frame") == "dq" and spec["motor"] == "SCIM" and f0 > 0):
                amb = True
                skipped += 1
                break
            st = ps.simulate(np.array(a) if (multi or not spec["finite"]) else a)
            want = ref.step(a)
            rec.trans()
            if k >= len(warm) or k < 3:
                compare(rec, ps, lim, st, want, "state after a step", spec, hist[:k + 1], (f0, flux(ref)))
                rec.expect(ps.k == k + 1, "step counter", got=ps.k)
        if not amb:
            rec.trace()
            rec.state(spec["motor"], np.round(st, 9))
    rec.n_eval += skipped
    rec.sample(dict(motor=spec["motor"], sequence=seq, state=dict(zip(ps.state_names, st))))


def flux(drive):
    return float(np.hypot(drive.x[2], drive.x[3])) if drive.s["motor"] in ("SCIM", "DFIM") else 1.0


def compare(rec, ps, lim, st, want, what, spec, hist, flux):
    noflux = spec["motor"] in ("SCIM", "DFIM") and min(flux) < 1e-8
    if len(st) != len(want):
        rec.fail("number of states", got=list(ps.state_names), want=sorted(want))
        return
    for name, v in zip(ps.state_names, st):
        l = lim[name]
        w = want[name]
        if name[-2:] in ("sd", "sq", "rd", "rq") and noflux:
            continue  # the field angle of a vanishing flux is not defined
        if name == "epsilon":
            bad = not abs(build.angle_diff(float(v) * l, w)) <= 1e-7
        else:
            bad = not abs(float(v) * l - w) <= 1e-7 * max(l, abs(w))
        if bad:
            rec.fail("%s: %s" % (what, name), got=float(v) * l, want=w, all_got=dict(zip(ps.state_names, st * ps.limits)), all_want=want,
                     history=[x for x in hist][-6:], n=len(hist))
            return
