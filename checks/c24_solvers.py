"""C24: ODE solvers integrate the given equation and are interchangeable."""
import itertools
import math
import warnings

import numpy as np

from gym_electric_motor.physical_systems import solvers as sv

from gemmc import build, engine, envs

ID = "C24"
LEVEL = "model_checking"
RULE = ("every solver (Euler with several sub-steps, every scipy.ode, solve_ivp and odeint integrator, with and without Jacobian) x test equation (linear, coupled, time dependent, "
        "stiff, nonlinear) x every sequence of inputs, step lengths and re-initialisations up to the depth, against the exact solution (for Euler: against the Euler "
        "recurrence and with first order convergence); and every action sequence up to the depth on complete drives with all solvers against each other")
ASSUMPTIONS = ["tolerances of the adaptive solvers are set to 1e-9 or smaller", "inputs are constant between two calls"]

SOLVERS = {"euler1": (sv.EulerSolver, dict()), "euler2": (sv.EulerSolver, dict(nsteps=2)), "euler7": (sv.EulerSolver, dict(nsteps=7)), "euler50": (sv.EulerSolver, dict(nsteps=50))}
for _m in ("dopri5", "dop853", "lsoda"):
    SOLVERS["ode-" + _m] = (sv.ScipyOdeSolver, dict(integrator=_m, rtol=1e-10, atol=1e-12, nsteps=20000))
for _k in ("bdf", "adams"):
    SOLVERS["ode-vode-" + _k] = (sv.ScipyOdeSolver, dict(integrator="vode", method=_k, rtol=1e-10, atol=1e-12, nsteps=20000))
for _m in ("RK45", "RK23", "DOP853", "Radau", "BDF", "LSODA"):
    SOLVERS["ivp-" + _m] = (sv.ScipySolveIvpSolver, dict(method=_m, rtol=1e-8 if _m in ("RK23", "BDF") else 1e-10, atol=1e-12))
SOLVERS["odeint"] = (sv.ScipyOdeIntSolver, dict(rtol=1e-10, atol=1e-12))
SLOW = ("ivp-BDF", "ivp-Radau", "ivp-RK23", "ivp-LSODA")

W = 30.0


def lin(t, y, u):
    return np.array([-3.0 * y[0] + u])


def lin_x(y, t0, t, u):
    s = u / 3.0
    return np.array([s + (y[0] - s) * math.exp(-3.0 * (t - t0))])


def rot(t, y, u, v):
    return np.array([-2.0 * y[0] - W * y[1] + u, W * y[0] - 2.0 * y[1] + v])


def rot_x(y, t0, t, u, v):
    a = complex(-2.0, W)
    f = complex(u, v)
    z = (complex(y[0], y[1]) + f / a) * np.exp(a * (t - t0)) - f / a
    return np.array([z.real, z.imag])


def timed(t, y, u):
    return np.array([math.cos(40.0 * t) + u])


def timed_x(y, t0, t, u):
    return np.array([y[0] + (math.sin(40.0 * t) - math.sin(40.0 * t0)) / 40.0 + u * (t - t0)])


def stiff(t, y, u):
    return np.array([-400.0 * (y[0] - u), y[0] - y[1]])


def stiff_x(y, t0, t, u):
    # y0 = u + c e^{-400 s}; y1' = y0 - y1
    s = t - t0
    c = y[0] - u
    e1, e2 = math.exp(-400.0 * s), math.exp(-s)
    return np.array([u + c * e1, u * (1 - e2) + y[1] * e2 + c * (e1 - e2) / (-399.0)])


def logi(t, y, u):
    return np.array([-y[0] * y[0] * u])


def logi_x(y, t0, t, u):
    return np.array([y[0] / (1.0 + u * y[0] * (t - t0))])


EQ = dict(lin=(lin, lin_x, lambda t, y, u: np.array([[-3.0]]), [(0.0,), (1.0,), (-2.0,)], [0.7]),
          rot=(rot, rot_x, lambda t, y, u, v: np.array([[-2.0, -W], [W, -2.0]]), [(0.0, 0.0), (5.0, -3.0), (-4.0, 20.0)], [1.0, -0.5]),
          timed=(timed, timed_x, lambda t, y, u: np.array([[0.0]]), [(0.0,), (1.0,), (-2.0,)], [-0.2]),
          stiff=(stiff, stiff_x, lambda t, y, u: np.array([[-400.0, 0.0], [1.0, -1.0]]), [(0.0,), (1.0,), (-2.0,)], [0.5, 0.5]),
          logi=(logi, logi_x, lambda t, y, u: np.array([[-2 * y[0] * u]]), [(0.5,), (1.0,), (3.0,)], [1.3]))
STEPS = (1e-2, 3.7e-3)


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in SOLVERS:
        for eq in EQ:
            if s.startswith("euler") and eq == "stiff" and s in ("euler1", "euler2"):
                continue
            for jac in (False, True):
                out.append(dict(kind="eq", solver=s, eq=eq, jac=jac, depth=(4 if s in SLOW else 5) if th else (2 if s in SLOW else 3)))
    for m in build.MOTOR:
        for fin in (True, False):
            out.append(dict(kind="drive", motor=m, finite=fin, depth=3 if th else 2))
    return out


def new(name, eq, jac):
    cls, kw = SOLVERS[name]
    s = cls(**kw)
    f, _, j, _, _ = EQ[eq]
    s.set_system_equation(f, j if jac else None)
    return s


def run_eq(case, rec):
    name, eq = case["solver"], case["eq"]
    f, exact, _, inputs, y0 = EQ[eq]
    euler = name.startswith("euler")
    n = SOLVERS[name][1].get("nsteps", 1) if euler else 0
    # operations: (input, step length) or a re-initialisation
    ops = [(i, h) for i in range(len(inputs)) for h in range(2)] + ["set"]
    shared = new(name, eq, case["jac"])
    T0 = 0.3
    for seq in itertools.product(ops, repeat=case["depth"]):
        if seq[0] == "set":
            continue
        fresh = new(name, eq, case["jac"])
        res = []
        for solver in (fresh, shared):
            start = np.array(y0)
            was = start.copy()
            solver.set_initial_value(start, 0.0)
            y, t = start.copy(), 0.0
            got = []
            kept = []
            n_set = 0
            for op in seq:
                if op == "set":
                    n_set += 1
                    y, t = np.array(y0) * (1.0 + 0.25 * n_set), T0 * n_set
                    solver.set_initial_value(y.copy(), t)
                    rec.expect(np.array_equal(solver.y, y) and solver.t == t, "initial value", got=(solver.y, solver.t), want=(y, t))
                    continue
                u = inputs[op[0]]
                t1 = t + STEPS[op[1]]
                solver.set_f_params(*u)
                r = solver.integrate(t1)
                if euler:
                    h = (t1 - t) / n
                    want, tt = y, t
                    for _ in range(n):
                        want = want + h * f(tt, want, *u)
                        tt += h
                    tol = 1e-11
                    # first order: local error bounded by the second derivative times h^2
                    ex = exact(y, t, t1, *u)
                    lip = dict(lin=30, rot=60000, timed=60, stiff=1e6, logi=60)[eq]
                    rec.expect(np.max(np.abs(r - ex)) <= lip * h * h * n, "Euler step is not of first order", got=r, want=ex)
                else:
                    want = exact(y, t, t1, *u)
                    tol = 2e-6 if name in ("ivp-RK23", "ivp-BDF") else 1e-7
                ok = isinstance(r, np.ndarray) and r.shape == want.shape and np.max(np.abs(r - want)) <= tol * (1 + np.max(np.abs(want)))
                if not ok:
                    rec.fail("integrated value differs from the exact solution", sequence=[str(o) for o in seq], got=r, want=want, time=t1)
                if abs(solver.t - t1) > 1e-15 * (1 + t1) or not np.array_equal(solver.y, r):
                    rec.fail("time or value of the solver after the integration", got=(solver.t, solver.y), want=(t1, r))
                kept.append((r, r.copy()))
                # continue from the integrated value
                y, t = np.array(r, copy=True), t1
                got.append(y.copy())
                rec.trans()
                rec.states.add(hash((name, eq, case["jac"], y.tobytes(), t)))
            for a, b in kept:
                if not np.array_equal(a, b):
                    rec.fail("a returned value was changed later", got=a, want=b)
            if not np.array_equal(start, was):
                rec.fail("the initial value of the caller was changed", got=start, want=was)
            res.append(got)
        if not engine.identical(res[0], res[1]):
            rec.fail("a reused solver differs from a new one after setting the initial value", sequence=[str(o) for o in seq], got=res[1], want=res[0])
        rec.trace(2)
    rec.sample(dict(solver=name, last=res[0][-1] if res[0] else None))


DRIVE_SOLVERS = ("dop853", "dopri5", "vode", "lsoda", "ivp-RK45", "ivp-Radau", "ivp-LSODA", "ivp-BDF", "odeint")


def run_drive(case, rec):
    m, fin = case["motor"], case["finite"]
    tau = 1e-5 if fin else 1e-4
    load = dict(kind="poly", a=0.01, b=0.01, c=1e-4, j_load=1e-3, omega0=12.0)
    base = envs.spec(m, fin, tau=tau, load=load, constraints=[], conv=build.default_conv(m, 0.0))
    es = {}
    for sname in DRIVE_SOLVERS:
        es[sname] = envs.env(dict(base, solver=sname))
    for k in (8, 16, 32):
        es["euler%d" % k] = envs.env(dict(base, solver="euler", nsteps=k))
    ref = es["dop853"]
    acts = envs.actions(ref)
    pick = [acts[1], acts[-1], acts[len(acts) // 3]]
    # the direction of a vanishing rotor flux is ill conditioned: the flux oriented entries of induction machines are left to
    # the check of the state consistency (C13), here their phase quantities are compared
    skip = [i for i, n in enumerate(ref.state_names) if m in ("SCIM", "DFIM") and n in ("u_sd", "u_sq", "i_sd", "i_sq", "i_rd", "i_rq", "u_rd", "u_rq")]
    for seq in itertools.product(range(3), repeat=case["depth"]):
        out = {}
        for sname, e in es.items():
            o = envs.play(e, [pick[a] for a in seq] + [pick[seq[0]]])
            out[sname] = np.array([x[1] for x in o])
            rec.trans(len(o))
            rec.expect(e.physical_system.k == len(o) - 1, "number of steps", got=e.physical_system.k, solver=sname)
        want = out["dop853"]
        # near angle wrap-arounds compare modulo 2
        ei = [i for i, n in enumerate(ref.state_names) if n == "epsilon"]
        for sname, got in out.items():
            d = got - want
            d[:, skip] = 0.0
            for i in ei:
                d[:, i] = (d[:, i] + 1) % 2 - 1
            err = np.max(np.abs(d))
            if sname.startswith("euler"):
                continue
            tol = 1e-5 if sname == "ivp-BDF" else 1e-6
            if not err <= tol:
                k = int(np.argmax(np.max(np.abs(d), axis=1)))
                rec.fail("solvers disagree on a drive", solver=sname, error=float(err), step=k, sequence=[str(pick[a]) for a in seq], got=got[k], want=want[k])
            rec.states.add(hash((m, fin, sname, seq)))
        errs = []
        for k in (8, 16, 32):
            d = out["euler%d" % k] - want
            d[:, skip] = 0.0
            for i in ei:
                d[:, i] = (d[:, i] + 1) % 2 - 1
            errs.append(float(np.max(np.abs(d))))
        # halving the sub-step halves the error
        if errs[0] > 1e-8 and not (errs[1] < 0.7 * errs[0] and errs[2] < 0.7 * errs[1]):
            rec.fail("Euler does not converge to the solution of the other solvers", errors=errs, sequence=[str(pick[a]) for a in seq])
        rec.trace(len(es))
    rec.sample(dict(motor=m, euler_errors=errs, sequence=list(seq)))


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        (run_eq if case["kind"] == "eq" else run_drive)(case, rec)
