"""Independent reference simulation of a complete drive (supply, converter, motor, load), textbook equations.

The machine equations are written as voltage equations  u = R i + d psi/dt + e  and solved for the derivative numerically, not
taken from the implementation.
"""
import cmath
import math

import numpy as np

from gemmc.convref import Ref

A = cmath.exp(2j * math.pi / 3)


def clarke(x):
    """three phase quantities -> complex space vector (amplitude invariant)"""
    return 2 / 3 * (x[0] + A * x[1] + A * A * x[2])


def phases(z):
    return [z.real, (z * A.conjugate()).real, (z * (A * A).conjugate()).real]


def wrap(e):
    return math.pi - (math.pi - e) % (2 * math.pi)


# ---------------------------------------------------------------------------------------------------------- machines
class Machine:
    """Electrical state x (list of floats), derivative, torque. omega is the mechanical speed."""

    kind = "dc"

    def __init__(self, mp):
        self.mp = mp


class PermEx(Machine):
    n = 1
    currents = ["i"]
    voltages = ["u"]

    def der(self, x, u, w):
        m = self.mp
        return [(u[0] - m["r_a"] * x[0] - m["psi_e"] * w) / m["l_a"]]

    def torque(self, x):
        return self.mp["psi_e"] * x[0]

    def i_in(self, x):
        return [x[0]]

    def losses(self, x):
        return self.mp["r_a"] * x[0] ** 2

    def energy(self, x):
        return 0.5 * self.mp["l_a"] * x[0] ** 2

    def p_el(self, x, u):
        return u[0] * x[0]


class Series(PermEx):
    def der(self, x, u, w):
        m = self.mp
        return [(u[0] - (m["r_a"] + m["r_e"]) * x[0] - m["l_e_prime"] * x[0] * w) / (m["l_a"] + m["l_e"])]

    def torque(self, x):
        return self.mp["l_e_prime"] * x[0] * x[0]

    def losses(self, x):
        return (self.mp["r_a"] + self.mp["r_e"]) * x[0] ** 2

    def energy(self, x):
        return 0.5 * (self.mp["l_a"] + self.mp["l_e"]) * x[0] ** 2


class ExtEx(Machine):
    n = 2
    currents = ["i_a", "i_e"]
    voltages = ["u_a", "u_e"]

    def der(self, x, u, w):
        m = self.mp
        ia, ie = x
        return [(u[0] - m["r_a"] * ia - m["l_e_prime"] * ie * w) / m["l_a"], (u[1] - m["r_e"] * ie) / m["l_e"]]

    def torque(self, x):
        return self.mp["l_e_prime"] * x[0] * x[1]

    def i_in(self, x):
        return list(x)

    def losses(self, x):
        return self.mp["r_a"] * x[0] ** 2 + self.mp["r_e"] * x[1] ** 2

    def energy(self, x):
        return 0.5 * self.mp["l_a"] * x[0] ** 2 + 0.5 * self.mp["l_e"] * x[1] ** 2

    def p_el(self, x, u):
        return u[0] * x[0] + u[1] * x[1]


class Shunt(ExtEx):
    voltages = ["u"]

    def der(self, x, u, w):
        return ExtEx.der(self, x, [u[0], u[0]], w)

    def i_in(self, x):
        return [x[0] + x[1]]

    def p_el(self, x, u):
        return u[0] * (x[0] + x[1])


class SynRM(Machine):
    """state i_d, i_q, eps; input u_d, u_q"""

    kind = "sync"
    n = 3

    def flux_d(self, x):
        return self.mp["l_d"] * x[0] + self.mp.get("psi_p", 0.0)

    def flux_q(self, x):
        return self.mp["l_q"] * x[1]

    def der(self, x, u, w):
        m = self.mp
        we = m["p"] * w
        return [(u[0] - m["r_s"] * x[0] + we * self.flux_q(x)) / m["l_d"],
                (u[1] - m["r_s"] * x[1] - we * self.flux_d(x)) / m["l_q"], we]

    def torque(self, x):
        return 1.5 * self.mp["p"] * (self.flux_d(x) * x[1] - self.flux_q(x) * x[0])

    def losses(self, x):
        return 1.5 * self.mp["r_s"] * (x[0] ** 2 + x[1] ** 2)

    def energy(self, x):
        return 0.75 * (self.mp["l_d"] * x[0] ** 2 + self.mp["l_q"] * x[1] ** 2)

    def p_el(self, x, u):
        return 1.5 * (u[0] * x[0] + u[1] * x[1])


class PMSM(SynRM):
    pass


class EESM(Machine):
    """state i_d, i_q, i_e, eps; input u_d, u_q, u_e (rotor quantities as measured at the rotor)"""

    kind = "eesm"
    n = 4

    def consts(self):
        m = self.mp
        k = m["k"]
        return 1.5 * k * m["l_m"], 1.5 * k * k * m["l_e"], 2 / (3 * k)

    def der(self, x, u, w):
        m = self.mp
        k = m["k"]
        lM, lE, r = self.consts()
        iE = r * x[2]
        rE = 1.5 * k * k * m["r_e"]
        we = m["p"] * w
        psi_d = m["l_d"] * x[0] + lM * iE
        psi_q = m["l_q"] * x[1]
        # d/dt [psi_d, psi_E] = [[l_d, lM], [lM, lE]] d/dt [i_d, i_E]
        rhs_d = u[0] - m["r_s"] * x[0] + we * psi_q
        rhs_e = k * u[2] - rE * iE
        det = m["l_d"] * lE - lM * lM
        did = (lE * rhs_d - lM * rhs_e) / det
        diE = (m["l_d"] * rhs_e - lM * rhs_d) / det
        return [did, (u[1] - m["r_s"] * x[1] - we * psi_d) / m["l_q"], diE / r, we]

    def torque(self, x):
        m = self.mp
        lM, lE, r = self.consts()
        psi_d = m["l_d"] * x[0] + lM * r * x[2]
        return 1.5 * m["p"] * (psi_d * x[1] - m["l_q"] * x[1] * x[0])

    def losses(self, x):
        return 1.5 * self.mp["r_s"] * (x[0] ** 2 + x[1] ** 2) + self.mp["r_e"] * x[2] ** 2

    def energy(self, x):
        m = self.mp
        lM, lE, r = self.consts()
        iE = r * x[2]
        return 0.75 * (m["l_d"] * x[0] ** 2 + m["l_q"] * x[1] ** 2 + lE * iE ** 2 + 2 * lM * x[0] * iE)

    def p_el(self, x, u):
        return 1.5 * (u[0] * x[0] + u[1] * x[1]) + u[2] * x[2]


class Induction(Machine):
    """state i_salpha, i_sbeta, psi_ralpha, psi_rbeta, eps; input complex (u_s, u_r) in stator coordinates"""

    kind = "scim"
    n = 5

    def par(self):
        m = self.mp
        return m["l_m"] + m["l_sigs"], m["l_m"] + m["l_sigr"], m["l_m"]

    def i_r(self, x):
        ls, lr, lm = self.par()
        return (complex(x[2], x[3]) - lm * complex(x[0], x[1])) / lr

    def der(self, x, u, w):
        m = self.mp
        ls, lr, lm = self.par()
        us, ur = u
        i_s, psi = complex(x[0], x[1]), complex(x[2], x[3])
        we = m["p"] * w
        dpsi_r = ur - m["r_r"] * self.i_r(x) + 1j * we * psi
        dpsi_s = us - m["r_s"] * i_s
        di = (dpsi_s - lm / lr * dpsi_r) / (ls - lm * lm / lr)
        return [di.real, di.imag, dpsi_r.real, dpsi_r.imag, we]

    def torque(self, x):
        ls, lr, lm = self.par()
        return 1.5 * self.mp["p"] * lm / lr * (complex(x[2], -x[3]) * complex(x[0], x[1])).imag

    def losses(self, x):
        return 1.5 * (self.mp["r_s"] * (x[0] ** 2 + x[1] ** 2) + self.mp["r_r"] * abs(self.i_r(x)) ** 2)

    def energy(self, x):
        ls, lr, lm = self.par()
        i_s, i_r = complex(x[0], x[1]), self.i_r(x)
        return 0.75 * (ls * abs(i_s) ** 2 + lr * abs(i_r) ** 2 + 2 * lm * (i_s * i_r.conjugate()).real)

    def p_el(self, x, u):
        return 1.5 * ((u[0] * complex(x[0], -x[1])).real + (u[1] * self.i_r(x).conjugate()).real)


class DFIM(Induction):
    kind = "dfim"


MACHINES = dict(PermExDc=PermEx, SeriesDc=Series, ShuntDc=Shunt, ExtExDc=ExtEx, PMSM=PMSM, SynRM=SynRM, EESM=EESM, SCIM=Induction,
                DFIM=DFIM)


# ------------------------------------------------------------------------------------------------------------- loads
class Load:
    def __init__(self, spec, j_rotor):
        self.spec = spec
        self.kind = spec["kind"]
        self.j = spec.get("j_load", 0.0) + j_rotor
        self.calls = 0

    def torque(self, w):
        s = self.spec
        a, b, c = s.get("a", 0.0), s.get("b", 0.0), s.get("c", 0.0)
        sg = (w > 0) - (w < 0)
        if a > 0:
            # constant part, linear around standstill
            t = a * max(-1.0, min(1.0, w / (a / self.j * 1e-3)))
        else:
            t = self.j / 1e-3 * w if w == 0 else 0.0
        return t + b * w + sg * c * w * w

    def der(self, t, w, torque):
        if self.kind == "const":
            return 0.0
        if self.kind == "profile":
            return (profile(self.spec, t + self.spec["tau"]) - w) / self.spec["tau"]
        return (torque - self.torque(w)) / self.j

    def initial(self):
        if self.kind == "profile":
            return profile(self.spec, 0.0)
        return self.spec.get("omega0", 0.0)


def profile(spec, t):
    return spec["amp"] * math.sin(2 * math.pi * spec["freq"] * t) + spec["off"]


# ---------------------------------------------------------------------------------------------------------- supplies
class Supply:
    def __init__(self, spec):
        self.spec = spec
        self.reset()

    def reset(self):
        self.u = float(self.spec["u"])
        self.t = 0.0
        k = self.spec["kind"]
        return self.u if k in ("ideal", "rc") else self.voltage(0.0, 0.0)

    def voltage(self, t, i):
        s = self.spec
        if s["kind"] == "ideal":
            return self.u
        if s["kind"] == "rc":
            self.u += (t - self.t) * (s["u"] - self.u - s["R"] * i) / (s["R"] * s["C"])
            self.t = t
            return self.u
        if s["kind"] == "ac1":
            return s["u"] * math.sqrt(2) * math.sin(2 * math.pi * s["f"] * t + s["phi"])
        raise ValueError


# --------------------------------------------------------------------------------------------------------- converters
def clip(x, lo, hi):
    return max(lo, min(hi, x))


class AvgConv:
    """averaged converter; spec like the switched ones. il0: interlocking time as fraction of tau"""

    def __init__(self, spec, tau):
        self.kind = spec[0]
        if self.kind == "Multi":
            self.subs = [AvgConv(s, tau) for s in spec[1]]
        else:
            self.f = spec[1] / tau
        self.n_cur = sum(s.n_cur for s in self.subs) if self.kind == "Multi" else (3 if self.kind == "B6" else 1)
        self.n_act = sum(s.n_act for s in self.subs) if self.kind == "Multi" else 0 if self.kind == "No" else self.n_cur
        self.reset()

    def reset(self):
        if self.kind == "Multi":
            for s in self.subs:
                s.reset()
        else:
            self.a = [0.0] * self.n_cur
        return None

    def command(self, a):
        if self.kind == "Multi":
            p = 0
            for s in self.subs:
                s.command(a[p:p + s.n_act])
                p += s.n_act
        else:
            self.a = [float(x) for x in a]
        return set()

    @staticmethod
    def _sg(i):
        return (i > 0) - (i < 0)

    def output(self, i, dt):
        if self.kind == "Multi":
            out, p = [], 0
            for s in self.subs:
                out += s.output(i[p:p + s.n_cur], dt)
                p += s.n_cur
            return out
        f = self.f
        if self.kind == "No":
            return [1.0]
        if self.kind == "1QC":
            return [clip(self.a[0], 0, 1) if i[0] >= 0 else 1.0]
        if self.kind == "2QC":
            return [clip(clip(self.a[0], 0, 1) - self._sg(i[0]) * f, 0, 1)]
        if self.kind == "4QC":
            d = 0.5 * (clip(self.a[0], -1, 1) + 1)
            # (recorded finding of C07: the blanking of both half bridges cancels)
            return [clip(d - self._sg(i[0]) * f, 0, 1) - clip(1 - d - self._sg(i[0]) * f, 0, 1)]
        return [clip(0.5 * (clip(x, -1, 1) + 1) - self._sg(y) * f, 0, 1) - 0.5 for x, y in zip(self.a, i)]

    def i_sup(self, i):
        if self.kind == "Multi":
            out, p = 0.0, 0
            for s in self.subs:
                out += s.i_sup(i[p:p + s.n_cur])
                p += s.n_cur
            return out
        f = self.f

        def leg(d, x):
            return clip(d - self._sg(x) * f, 0, 1) * x

        if self.kind == "No":
            return i[0]
        if self.kind == "1QC":
            return clip(self.a[0], 0, 1) * i[0]
        if self.kind == "2QC":
            return leg(clip(self.a[0], 0, 1), i[0])
        if self.kind == "4QC":
            d = 0.5 * (clip(self.a[0], -1, 1) + 1)
            return leg(d, i[0]) + leg(1 - d, -i[0])
        return sum(leg(0.5 * (clip(x, -1, 1) + 1), y) for x, y in zip(self.a, i))


# -------------------------------------------------------------------------------------------------------------- drive
class Drive:
    """spec: motor, mp (motor parameters), conv, finite, supply, load, tau, nsteps, frame ('abc'/'dq'), x0 (initial electrical state)"""

    def __init__(self, spec):
        self.s = spec
        self.m = MACHINES[spec["motor"]](spec["mp"])
        self.load = Load(spec["load"], spec["mp"]["j_rotor"])
        self.supply = Supply(spec["supply"])
        self.conv = Ref(spec["conv"]) if spec["finite"] else AvgConv(spec["conv"], spec["tau"])
        self.tau = spec["tau"]
        self.ns = spec.get("nsteps", 1)
        self.frame = spec.get("frame", "abc")
        self.rhs = 0

    def reset(self):
        self.x = [float(v) for v in self.s.get("x0") or [0.0] * self.m.n]
        self.w = float(self.load.initial())
        self.t = 0.0
        self.k = 0
        self.conv.reset()
        u = self.supply.reset()
        kinds = [c[0] for c in self.s["conv"][1]] if self.s["conv"][0] == "Multi" else [self.s["conv"][0]]
        lv = sum([[-0.5] * 3 if k == "B6" else [0.0] for k in kinds], [])
        volts = [v * u for v in lv]
        self._apply(volts)
        return self.report(volts, u)

    def field(self):
        return math.atan2(self.x[3], self.x[2])

    def currents(self):
        """currents as seen by the converter"""
        k = self.m.kind
        x = self.x
        if k == "dc":
            return self.m.i_in(x)
        if k == "sync":
            return phases(complex(x[0], x[1]) * cmath.exp(1j * x[2]))
        if k == "eesm":
            return phases(complex(x[0], x[1]) * cmath.exp(1j * x[3])) + [x[2]]
        if k == "scim":
            return phases(complex(x[0], x[1]))
        return phases(complex(x[0], x[1])) + phases(self.m.i_r(x) * cmath.exp(-1j * x[4]))

    def _apply(self, volts):
        """machine inputs (held during the segment) for converter voltages at the present angles"""
        k = self.m.kind
        x = self.x
        self.udq = None
        if k == "dc":
            return volts
        us = clarke(volts[:3])
        if k == "sync":
            z = us * cmath.exp(-1j * x[2])
            self.udq = [z.real, z.imag]
            return [z.real, z.imag]
        if k == "eesm":
            z = us * cmath.exp(-1j * x[3])
            self.udq = [z.real, z.imag]
            return [z.real, z.imag, volts[3]]
        e = self.field()
        z = us * cmath.exp(-1j * e)
        self.udq = [z.real, z.imag]
        if k == "scim":
            return [us, 0j]
        ur = clarke(volts[3:]) * cmath.exp(1j * x[4])
        zr = ur * cmath.exp(-1j * e)
        self.udq += [zr.real, zr.imag]
        return [us, ur]

    def _integrate(self, te, u):
        h = (te - self.t) / self.ns
        for _ in range(self.ns):
            dx = self.m.der(self.x, u, self.w)
            dw = self.load.der(self.t, self.w, self.m.torque(self.x))
            self.x = [a + h * b for a, b in zip(self.x, dx)]
            self.w += h * dw
            self.t += h
        self.t = te

    def step(self, action):
        k = self.m.kind
        if self.frame == "dq":
            e = self.x[2] if k == "sync" else self.field()
            action = phases(complex(action[0], action[1]) * cmath.exp(1j * e))
        cur = self.currents()
        t0 = self.k * self.tau
        blanks = sorted(self.conv.command(action))
        ends = [b for b in blanks if b < self.tau * (1 - 1e-9)] + [self.tau]
        for dt in ends:
            isup = self.conv.i_sup(cur)
            us = self.supply.voltage(self.t, isup)
            volts = [v * us for v in self.conv.output(cur, dt)]
            u = self._apply(volts)
            self._integrate(t0 + dt, u)
            cur = self.currents()
        self.k += 1
        return self.report(volts, us)

    def report(self, volts, usup):
        x, k = self.x, self.m.kind
        out = dict(omega=self.w, torque=self.m.torque(x), u_sup=usup)
        if k == "dc":
            out.update(zip(self.m.currents, x))
            out.update(zip(self.m.voltages, volts))
            return out
        if k in ("sync", "eesm"):
            eps = x[-1]
            out.update(zip(["i_a", "i_b", "i_c"], phases(complex(x[0], x[1]) * cmath.exp(1j * eps))))
            out.update(i_sd=x[0], i_sq=x[1], epsilon=wrap(eps), u_sd=self.udq[0], u_sq=self.udq[1])
            out.update(zip(["u_a", "u_b", "u_c"], volts))
            if k == "eesm":
                out.update(i_e=x[2], u_e=volts[3])
            return out
        e = self.field()
        i_s = complex(x[0], x[1])
        z = i_s * cmath.exp(-1j * e)
        out.update(zip(["i_sa", "i_sb", "i_sc"], phases(i_s)))
        out.update(i_sd=z.real, i_sq=z.imag, u_sd=self.udq[0], u_sq=self.udq[1], epsilon=wrap(x[4]))
        out.update(zip(["u_sa", "u_sb", "u_sc"], volts[:3]))
        if k == "dfim":
            ir = self.m.i_r(x)
            zr = ir * cmath.exp(-1j * e)
            out.update(zip(["i_ra", "i_rb", "i_rc"], phases(ir * cmath.exp(-1j * x[4]))))
            out.update(i_rd=zr.real, i_rq=zr.imag, u_rd=self.udq[2], u_rq=self.udq[3])
            out.update(zip(["u_ra", "u_rb", "u_rc"], volts[3:]))
        return out
