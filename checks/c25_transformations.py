"""C25: coordinate transformations and field oriented actions."""
import cmath
import itertools
import math

import numpy as np

from gym_electric_motor.physical_systems.electric_motors import ThreePhaseMotor

from gemmc import build, envs, simref

ID = "C25"
LEVEL = "model_checking"
RULE = ("transformations: full lattice of vectors (both signs, all magnitudes) x angles (all sectors, borders, several turns) x pole pair numbers against complex rotation, "
        "including arguments as lists, tuples and arrays; field oriented actions: every action sequence up to the depth on PMSM, EESM, SCIM and DFIM with DqToAbc wrappers, "
        "dead times inside and outside, speeds and loads (and the dq control space of PMSM and SynRM), with the voltages in rotor or flux coordinates compared with the command")
ASSUMPTIONS = ["commands outside the modulation range are limited phase by phase", "flux orientation of induction machines refers to the flux angle of the FluxObserver"]


def cases(tier):
    th = tier == "thorough"
    out = [dict(kind="transform", part=i, parts=8, fine=True) for i in range(8)]
    for m in ("PMSM", "SynRM", "EESM", "SCIM", "DFIM"):
        for fin in (True, False):
            out.append(dict(kind="system", motor=m, finite=fin, fine=th))
    for m in ("PMSM", "EESM", "SCIM", "DFIM"):
        for stack in ("dq", "d1,dq", "d2,dq", "d1,d2,dq", "dq,d1", "d1,dq,d2", "cs,dq", "d1,cs,dq"):
            for load in (0.0, 40.0, -120.0, "poly"):
                for mp in ("d", "x"):
                    if mp == "x" and stack not in ("dq", "d2,dq"):
                        continue
                    out.append(dict(kind="wrap", motor=m, stack=stack, load=load, mp=mp, depth=7 if th else 5))
    for m in ("PMSM", "SynRM"):
        for load in (0.0, 60.0, "poly"):
            for mp in ("d", "x"):
                out.append(dict(kind="frame", motor=m, load=load, mp=mp, depth=7 if th else 5))
    return out


def run_transform(case, rec):
    T = ThreePhaseMotor
    vals = (0.0, 1.0, -1.0, 0.37, -2.5, 400.0, -1e-6) + ((1e5, -0.001, 3.3) if case["fine"] else ())
    n = 48 if case["fine"] else 24
    angles = [2 * math.pi * k / n for k in range(-n, n + 1)] + [math.pi, -math.pi, math.pi - 1e-9, -math.pi + 1e-9, 0.1, 7.7, -100.3, 1e4]
    angles = [a for i, a in enumerate(angles) if i % case["parts"] == case["part"]]
    motors = [build.motor(dict(motor=m, mp=dict(build.MP[m][k]))) for m in ("PMSM", "SCIM") for k in ("d", "x")]
    s3 = math.sqrt(3)
    for a, b in itertools.product(vals, repeat=2):
        z = complex(a, b)
        for wrap in (list, tuple, np.array):
            arg = wrap((a, b))
            ph = T.t_32(arg)
            rec.close(ph, [a, -a / 2 + s3 / 2 * b, -a / 2 - s3 / 2 * b], "alpha-beta to phases", rtol=1e-12, atol=1e-12 * (1 + abs(z)), arg=(a, b))
            rec.close(T.t_23(ph), [a, b], "phases back to alpha-beta", rtol=1e-12, atol=1e-12 * (1 + abs(z)), arg=(a, b))
            rec.expect(list(arg) == [a, b], "argument changed", got=arg)
            rec.trans(2)
        for c in vals:
            for wrap in (list, tuple, np.array):
                arg = wrap((a, b, c))
                ab = T.t_23(arg)
                tol = 1e-12 * (1 + abs(a) + abs(b) + abs(c))
                rec.close(ab, [(2 * a - b - c) / 3, (b - c) / s3], "phases to alpha-beta", rtol=1e-12, atol=tol, arg=(a, b, c))
                zero = (a + b + c) / 3
                rec.close(T.t_32(ab), [a - zero, b - zero, c - zero], "alpha-beta back to phases", rtol=1e-12, atol=tol, arg=(a, b, c))
                rec.expect(list(arg) == [a, b, c], "argument changed", got=arg)
                rec.trans(2)
        for e in angles:
            tol = 1e-11 * (1 + abs(z))
            r = z * cmath.exp(1j * e)
            for wrap in (tuple, np.array):
                arg = wrap((a, b))
                got = T.q(arg, e)
                rec.close(got, [r.real, r.imag], "rotation dq to alpha-beta", rtol=1e-11, atol=tol, angle=e, arg=(a, b))
                back = T.q_inv(arg, e)
                w = z * cmath.exp(-1j * e)
                rec.close(back, [w.real, w.imag], "rotation alpha-beta to dq", rtol=1e-11, atol=tol, angle=e, arg=(a, b))
                rec.close(T.q_inv(T.q(arg, e), e), [a, b], "rotations are inverse", rtol=1e-11, atol=tol, angle=e)
                rec.expect(list(arg) == [a, b], "argument changed", got=arg)
                rec.trans(3)
            for mot in motors:
                p = mot.motor_parameter["p"]
                r = z * cmath.exp(1j * e * p)
                w = z * cmath.exp(-1j * e * p)
                tl = tol * (1 + abs(e) * p)
                rec.close(mot.q_me((a, b), e), [r.real, r.imag], "rotation with the mechanical angle", rtol=1e-10, atol=tl, angle=e, p=p)
                rec.close(mot.q_inv_me((a, b), e), [w.real, w.imag], "inverse rotation with the mechanical angle", rtol=1e-10, atol=tl, angle=e, p=p)
            rec.states.add(hash((a, b, e)))
    rec.trace()


def run_system(case, rec):
    """the transformations of the physical systems, with angles in rad and normed to pi"""
    ps = envs.physical_system(envs.spec(case["motor"], case["finite"]))
    vals = (0.0, 1.0, -0.37, 250.0) if not case["fine"] else (0.0, 1.0, -1.0, -0.37, 250.0, -1e-6)
    angles = [2.0 * k / 24 for k in range(-24, 25)] + [0.1, -0.999, 3.3]
    for a, b in itertools.product(vals, repeat=2):
        z = complex(a, b)
        tol = 1e-11 * (1 + abs(z))
        ph = list(simref.phases(z))
        for arg in ((a, b), np.array([a, b])):
            rec.close(ps.alphabeta_to_abc_space(arg), ph, "alpha-beta to phases", rtol=1e-11, atol=tol)
        rec.close(ps.abc_to_alphabeta_space(np.array(ph)), [a, b], "phases to alpha-beta", rtol=1e-11, atol=tol)
        for n in angles:
            e = n * math.pi
            r, w = z * cmath.exp(1j * e), z * cmath.exp(-1j * e)
            for kw, x in (({}, e), (dict(normed_epsilon=False), e), (dict(normed_epsilon=True), n), (dict(normed_epsilon=True), np.float64(n))):
                d = dict(angle=e, arg=(a, b), kw=kw)
                rec.close(ps.dq_to_alphabeta_space(np.array([a, b]), x, **kw), [r.real, r.imag], "system: dq to alpha-beta", rtol=1e-10, atol=10 * tol, **d)
                rec.close(ps.alphabeta_to_dq_space(np.array([a, b]), x, **kw), [w.real, w.imag], "system: alpha-beta to dq", rtol=1e-10, atol=10 * tol, **d)
                rec.close(ps.dq_to_abc_space(np.array([a, b]), x, **kw), list(simref.phases(r)), "system: dq to phases", rtol=1e-10, atol=10 * tol, **d)
                rec.close(ps.abc_to_dq_space(np.array(ph), x, **kw), [w.real, w.imag], "system: phases to dq", rtol=1e-10, atol=10 * tol, **d)
                rec.trans(4)
            rec.states.add(hash((case["motor"], case["finite"], a, b, n)))
    rec.trace()


def clipped(z):
    """phases of a space vector limited to +-1"""
    return [min(1.0, max(-1.0, v)) for v in simref.phases(z)]


def run_drive(case, rec):
    m = case["motor"]
    load = dict(kind="poly", a=0.01, b=0.01, c=1e-4, j_load=1e-3, omega0=70.0) if case["load"] == "poly" else dict(kind="const", omega0=case["load"])
    stack = case.get("stack", "").split(",") if case["kind"] == "wrap" else []
    ind = m in ("SCIM", "DFIM")
    ws = [dict(kind="flux")] if ind else []
    for w in stack:
        ws.append(dict(kind="dq") if w == "dq" else dict(kind="cossin") if w == "cs" else dict(kind="dead", steps=int(w[1])))
    tau = 1e-4
    s = envs.spec(m, False, load=load, wrap=ws, constraints=[], mp=build.MP[m][case["mp"]])
    if case["kind"] == "frame":
        s["frame"] = "dq"
    x0 = dict(PMSM=[-20.0, 25.0, 3.0], SynRM=[4.0, -5.0, -1.1], EESM=[20.0, -30.0, 40.0, -2.9], SCIM=[1.5, -1.0, 0.0, 0.0, 0.4], DFIM=[2.0, -3.0, 0.0, 0.0, -2.0])[m]
    s["x0"] = x0
    e = envs.env(s)
    ps = e.physical_system
    assert abs(ps.tau - tau) < 1e-15
    names = list(ps.state_names)
    lim = dict(zip(names, ps.limits.tolist()))
    p = s["mp"]["p"]
    usup = s["supply"]["u"]
    inner = sum(int(w[1]) for w in stack[: stack.index("dq")] if w[0] == "d" and w != "dq") if stack else 0
    outer = sum(int(w[1]) for w in stack[stack.index("dq"):] if w[0] == "d" and w != "dq") if stack else 0
    adv = 0.5 + inner if case["kind"] == "wrap" else 0.0
    n_a = e.action_space.shape[0]
    want_n = dict(PMSM=2, SynRM=2, EESM=3, SCIM=2, DFIM=4)[m]
    rec.expect(n_a == want_n and np.all(e.action_space.low == -1) and np.all(e.action_space.high == 1), "action space", got=str(e.action_space))
    base = [(0.5, -0.2), (-0.3, 0.8), (0.9, 0.9)]
    if m == "EESM":
        pick = [np.array(b + (x,)) for b, x in zip(base, (0.3, -0.6, 1.0))]
    elif m == "DFIM":
        pick = [np.array(b + x) for b, x in zip(base, ((0.1, 0.4), (-0.7, 0.2), (0.0, -0.9)))]
    else:
        pick = [np.array(b) for b in base]
    un = ("u_sa", "u_sb", "u_sc") if ind else ("u_a", "u_b", "u_c")
    for seq in itertools.product(range(3), repeat=case["depth"]):
        (ob, _), _ = e.reset()
        recd = [{n: v * lim[n] for n, v in zip(names, ob)}]
        full = list(seq) + [seq[-1]] * (inner + outer + 1)
        for a in full:
            was = pick[a].copy()
            (ob, _), *_ = e.step(pick[a])
            if not np.array_equal(pick[a], was):
                rec.fail("action changed", got=pick[a], want=was)
            recd.append({n: v * lim[n] for n, v in zip(names, ob)})
            rec.trans()
            rec.states.add(hash((m, case.get("stack"), str(case["load"]), ob.tobytes())))
        zero = np.zeros(n_a)
        for t in range(len(full)):
            # the action that is converted at step j, and applied at step t = j + inner
            j = t - inner
            src = j - outer
            z0 = pick[full[src]] if src >= 0 else zero
            got = simref.clarke([recd[t + 1][n] for n in un])
            if j < 0:
                want = 0j
                rot = 0j
            else:
                st = recd[j]
                ang = (st["psi_angle"] if ind else st["epsilon"]) + adv * tau * st["omega"] * p
                want = simref.clarke([0.5 * usup * v for v in clipped(complex(z0[0], z0[1]) * cmath.exp(1j * ang))])
                if m == "DFIM":
                    slip = st["psi_angle"] - st["epsilon"]
                    rot = simref.clarke([0.5 * usup * v for v in clipped(complex(z0[2], z0[3]) * cmath.exp(1j * slip))])
            if abs(got - want) > 1e-7 * usup:
                rec.fail("stator voltages differ from the commanded ones", step=t, got=[got.real, got.imag], want=[want.real, want.imag], actions=[pick[a] for a in full[: t + 1]])
            if m == "DFIM":
                g2 = simref.clarke([recd[t + 1][n] for n in ("u_ra", "u_rb", "u_rc")])
                if abs(g2 - rot) > 1e-7 * usup:
                    rec.fail("rotor voltages differ from the commanded ones", step=t, got=[g2.real, g2.imag], want=[rot.real, rot.imag])
            if m == "EESM":
                rec.close(recd[t + 1]["u_e"], (z0[2] if j >= 0 else 0.0) * usup, "excitation voltage", rtol=1e-9, atol=1e-9)
            if case["load"] != "poly" and not ind and j >= 0 and case["kind"] == "wrap" and abs(complex(z0[0], z0[1])) <= 1.0:
                # in rotor coordinates at the middle of the interval in which it acts the voltage is the commanded one
                mid = recd[t]["epsilon"] + 0.5 * tau * recd[t]["omega"] * p
                d = got * cmath.exp(-1j * mid) / (0.5 * usup) - complex(z0[0], z0[1])
                if abs(d) > 1e-6:
                    rec.fail("voltage in rotor coordinates at the middle of the interval differs from the command", step=t, error=abs(d))
        rec.trace()
    rec.sample(dict(inner_dead_time=inner, outer_dead_time=outer, last=recd[-1]))


def run(case, rec):
    dict(transform=run_transform, system=run_system).get(case["kind"], run_drive)(case, rec)
