"""C12: Jacobians of motors, loads and complete drives = derivatives of the real system equations, on the complete lattice."""
import itertools

import numpy as np

from gym_electric_motor.physical_systems import solvers as sv
from gemmc import build

ID = "C12"
LEVEL = "model_checking"
RULE = ("every machine x parameter set x load x lattice point of (states, inputs, speed): every entry of the motor, load and system Jacobian equals "
        "the central difference of the real system equation; states = distinct lattice points")
ASSUMPTIONS = ["the equations are polynomials of degree at most two between the documented kinks, so central differences are exact",
               "lattice points keep a distance from the kinks of the static load"]


class Probe(sv.OdeSolver):
    """A solver (public extension point) that only records what the system hands over."""

    def set_system_equation(self, system_equation, jac=None):
        super().set_system_equation(system_equation, jac)
        self.f, self.jac = system_equation, jac

    def integrate(self, t):
        return self.y


def cases(tier):
    th = tier == "thorough"
    out = []
    loads = [dict(kind="poly", a=0.4, b=0.03, c=2e-3, j_load=1e-3), dict(kind="poly", a=0.0, b=0.0, c=0.0, j_load=1e-5), dict(kind="const"),
             dict(kind="poly", a=0.0, b=0.5, c=0.0, j_load=0.3), dict(kind="poly", a=2.0, b=0.0, c=0.01, j_load=0.05)]
    for m in build.MOTOR:
        for mp in ("d", "x"):
            for ld in loads:
                out.append(dict(motor=m, mp=mp, load=ld, fine=th))
    return out


def run(case, rec):
    m = case["motor"]
    spec = dict(motor=m, mp=build.MP[m][case["mp"]], conv=build.default_conv(m), finite=False, tau=1e-4, x0=None, load=case["load"],
                supply=dict(kind="ideal", u=100.0))
    probe = Probe()
    ps = build.SYSTEM[m](converter=build.converter(spec["conv"], 1e-4, False), motor=build.motor(spec), load=build.load(spec["load"]),
                         supply=build.supply(spec["supply"]), ode_solver=probe, tau=1e-4)
    rec.expect(probe.jac is not None, "the system provides a Jacobian", motor=m)
    mot, load = ps.electrical_motor, ps.mechanical_load
    names = build.ODE_STATES[m]
    i_s = dict(PermExDc=100.0, SeriesDc=100.0, ShuntDc=80.0, ExtExDc=80.0, PMSM=120.0, SynRM=10.0, EESM=120.0, SCIM=4.0, DFIM=7.0)[m]
    sc = [0.9 if n.startswith("psi") else 2.0 if n == "epsilon" else i_s for n in names]
    lat = [(-1.0, 0.3, 0.8) if n != "epsilon" else (0.4,) for n in names]
    if case["fine"]:
        lat = [(-1.0, -0.2, 0.0, 0.3, 0.8) if n != "epsilon" else (0.4, -1.0) for n in names]
    us = {"dc": [[40.0] * len(mot.VOLTAGES), [-30.0] * len(mot.VOLTAGES)]}.get("dc" if "Dc" in m else "")
    if us is None:
        us = {"SCIM": [np.array([100.0, -20.0])], "DFIM": [np.array([[100.0, -20.0], [30.0, 10.0]])], "EESM": [[40.0, -10.0, 5.0]]}.get(m, [[40.0, -10.0]])
    t = 0.3
    speeds = [-150.0, -0.9, 0.0, 0.7, 40.0, 210.0]
    if case["load"].get("a"):
        border = case["load"]["a"] * load.tau_decay / load.j_total
        speeds += [0.2, -0.05, 3.0] + [q * border for q in ((0.4, -0.9, 1.2, -2.5, 8.0, -30.0) if not case["fine"] else (0.1, 0.4, -0.4, 0.9, -0.9, 1.1, -1.1, 1.2, 2.5, -2.5, 8.0, -8.0, 30.0, -30.0))]
        speeds = [w for w in speeds if abs(abs(w) - border) > 5e-4]
    for pt in itertools.product(*lat):
        x = np.array([a * b for a, b in zip(pt, sc)])
        for u in us:
            for w in speeds:
                # motor
                res = mot.electrical_jacobian(x, u, w)
                jx, jw, jt = [np.asarray(r, dtype=float) for r in res]
                n = len(x)
                fx = np.zeros((n, n))
                ft = np.zeros(n)
                for j in range(n):
                    h = 1e-3 * sc[j]
                    xp, xm = x.copy(), x.copy()
                    xp[j] += h
                    xm[j] -= h
                    fx[:, j] = (np.ravel(mot.electrical_ode(xp, u, w)).copy() - np.ravel(mot.electrical_ode(xm, u, w))) / (2 * h)
                    ft[j] = (float(np.squeeze(mot.torque(xp))) - float(np.squeeze(mot.torque(xm)))) / (2 * h)
                fw = (np.ravel(mot.electrical_ode(x, u, w + 1.0)).copy() - np.ravel(mot.electrical_ode(x, u, w - 1.0))) / 2
                cmp(rec, jx, fx, "motor states by motor states", x, u, w, m)
                cmp(rec, jw, fw, "motor states by speed", x, u, w, m)
                cmp(rec, jt, ft, "torque by motor states", x, u, w, m)
                # complete system (speed first, then motor states)
                y = np.concatenate(([w], x))
                sj = np.asarray(probe.jac(t, y, u), dtype=float)
                sf = np.zeros((n + 1, n + 1))
                for j in range(n + 1):
                    h = 1e-4 if j == 0 else 1e-3 * sc[j - 1]
                    yp, ym = y.copy(), y.copy()
                    yp[j] += h
                    ym[j] -= h
                    sf[:, j] = (np.ravel(probe.f(t, yp, u)).copy() - np.ravel(probe.f(t, ym, u))) / (2 * h)
                # known finding: at standstill the load without static friction returns the entry of a load with infinite friction
                key = "poly-jacobian-standstill-a0" if case["load"].get("a", 1.0) == 0.0 and w == 0.0 else None
                if key and abs(sj[0, 0] - sf[0, 0] + 1e3) < 1e-3:
                    rec.fail("Jacobian: complete drive, speed by speed at standstill", key=key, got=sj[0, 0], want=sf[0, 0])
                    sj[0, 0] = sf[0, 0]
                cmp(rec, sj, sf, "complete drive", x, u, w, m, y)
                tq = float(np.squeeze(mot.torque(x)))
                lj, lt = [np.asarray(r, dtype=float) for r in load.mechanical_jacobian(t, np.array([w]), tq)]
                lf = (np.ravel(load.mechanical_ode(t, np.array([w + 1e-4]), tq)).copy() - np.ravel(load.mechanical_ode(t, np.array([w - 1e-4]), tq))) / 2e-4
                lq = (np.ravel(load.mechanical_ode(t, np.array([w]), tq + 1.0)).copy() - np.ravel(load.mechanical_ode(t, np.array([w]), tq - 1.0))) / 2
                if key and abs(lj.ravel()[0] - lf.ravel()[0] + 1e3) < 1e-3:
                    rec.fail("Jacobian: load by speed at standstill", key=key, got=lj, want=lf)
                    lj = lf.reshape(1, 1)
                cmp(rec, lj, lf.reshape(1, 1), "load by speed", x, u, w, m)
                cmp(rec, lt, lq, "load by torque", x, u, w, m)
                rec.n_trans += 1
                rec.n_eval += jx.size + jw.size + jt.size + sj.size
                rec.states.add(hash((m, case["mp"], str(case["load"]), tuple(x), str(u), w)))
    rec.trace()
    rec.sample(dict(motor=m, x=x, omega=w, system_jacobian=sj))


def cmp(rec, got, want, what, x, u, w, m, y=None):
    if got.shape != want.shape:
        rec.fail("shape of the Jacobian: " + what, got=got.shape, want=want.shape)
        return
    # error of the difference quotient: rounding of function values relative to the size of the row
    sc = np.abs(want).max() if want.size else 0.0
    tol = 1e-6 * np.abs(want) + 1e-7 * sc + 1e-6
    if not np.all(np.abs(got - want) <= tol):
        rec.fail("Jacobian: " + what, motor=m, got=got, want=want, x=x, u=u, omega=w)
