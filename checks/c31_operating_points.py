"""C31: the operating points of the torque controllers deliver the torque with minimal current within the voltage limit."""
import itertools
import math

import numpy as np

import gem_controllers as gc
import gym_electric_motor as gem
from gym_electric_motor.physical_system_wrappers import FluxObserver

ID = "C31"
LEVEL = "model_checking"
RULE = ("torque controllers of PMSM, SynRM, EESM and SCIM (several machines, margins, online and tabulated selection): every torque reference x speed (both signs) of a lattice from a reset, and every sequence of "
        "modulation levels up to the depth at field weakening operating points in lockstep with a model of the modulation controller; torque, currents and flux of the chosen point "
        "against a search over all currents within the current and flux limits")
ASSUMPTIONS = ["flux, torque and losses by the equations of the machine models; tolerances follow the resolution of the lookup tables (one percent of the greatest torque)",
               "SynRM: field weakening moves along the minimal current curve (the torque is limited to what that curve yields), salient machines with l_d > l_q and a permanent magnet and the mode 'interpolate' are not claimed",
               "EESM: minimality of the losses is not claimed; the constants of the modulation controller are those of the code"]


def cases(tier):
    th = tier == "thorough"
    fine = dict(nt=41 if th else 25, nw=21 if th else 11)
    out = []
    eesm = [(dict(l_m=0.8e-3), 0.2)] + ([(dict(l_m=0.8e-3), 0.4), (dict(l_m=0.5e-3, l_d=0.9e-3, l_q=0.7e-3), 0.1), (dict(l_m=0.6e-3, r_s=0.03), 0.2)] if th else [(dict(l_m=0.5e-3, l_d=0.9e-3, l_q=0.7e-3), 0.1)])
    for mp, margin in eesm:
        out.append(dict(kind="eesm", motor="EESM", mp=mp, margin=margin, mode="online", depth=4 if th else 3, **fine))
    for mp in ({}, dict(l_d=1e-3, l_q=1e-3), dict(l_d=1e-3, l_q=1.2e-3, psi_p=0.3), dict(l_d=0.4e-3, l_q=2.4e-3, psi_p=0.12, p=2)):
        for margin in (0.2, 0.0, 0.45):
            for mode in ("online", "analytical"):
                if mode == "analytical" and (margin == 0.45 or not th and margin == 0.0):
                    continue
                out.append(dict(kind="sync", motor="PMSM", mp=mp, margin=margin, mode=mode, depth=5 if th else 3, **fine))
    for mp in ({}, dict(l_d=20e-3, l_q=6e-3, p=2), dict(l_d=12e-3, l_q=3e-3, r_s=0.3)):
        for margin in (0.2, 0.05, 0.4):
            for mode in ("online", "analytical"):
                if mode == "analytical" and margin != 0.2:
                    continue
                out.append(dict(kind="sync", motor="SynRM", mp=mp, margin=margin, mode=mode, depth=5 if th else 3, **fine))
    for mp in ({}, dict(l_m=100e-3, r_r=2.0), dict(p=1, r_s=1.5)):
        for margin in (0.2, 0.0):
            out.append(dict(kind="scim", motor="SCIM", mp=mp, margin=margin, mode="online", **fine))
    return out


class Point:
    """builds the controller and asks it for operating points"""

    def __init__(self, case):
        m = self.m = case["motor"]
        self.margin = case["margin"]
        ws = (FluxObserver(),) if m == "SCIM" else ()
        i = "Cont-TC-%s-v0" % m
        self.e = e = gem.make(i, physical_system_wrappers=ws, visualization=(), motor=dict(motor_parameter=dict(case["mp"]))).unwrapped
        e.reset(seed=1)
        if case["mode"] == "online":
            c = gc.GemController.make(e, i, block_diagram=False, current_safety_margin=self.margin)
            self.ctrl, self.tc = c, c.controller
        else:
            ops = gc.stages.torque_to_current_function[m](torque_control=case["mode"])
            self.tc = gc.TorqueController(e, i, torque_to_current_stage=ops)
            self.tc.tune(e, i, current_safety_margin=self.margin)
            self.ctrl = self.tc
        self.names = list(e.state_names)
        self.lim = np.array(e.limits, float)
        self.mp = e.physical_system.electrical_motor.motor_parameter
        self.p = self.mp["p"]
        self.l = lambda n: self.lim[self.names.index(n)]
        self.i_lim = self.l("i_sd") * (1 - self.margin)
        self.t_lim = self.l("torque")
        self.u_lim = self.l("u_a" if "u_a" in self.names else "u_sa")
        self.tau = e.physical_system.tau
        self.mode = case["mode"]

    def reset(self):
        self.ctrl.reset()

    def ask(self, torque, omega, u=0.0, **st):
        s = np.zeros(len(self.names))
        s[self.names.index("omega")] = omega
        s[self.names.index("u_sd")] = -0.6 * u
        s[self.names.index("u_sq")] = 0.8 * u
        for k, v in st.items():
            s[self.names.index(k)] = v
        if self.mode == "online":
            self.ctrl.control(s / self.lim, np.array([torque / self.t_lim]))
        else:
            self.ctrl.control(s, np.array([torque]))
        r = self.tc.references
        return np.array([float(np.ravel(r[n])[0]) for n in ("i_sd", "i_sq") + (("i_e",) if self.m == "EESM" else ())])

    def magnet(self, i):
        return self.mp["l_m"] * i[2] if self.m == "EESM" else self.mp.get("psi_p", 0.0)

    def torque(self, i):
        mp = self.mp
        return 1.5 * self.p * (self.magnet(i) + (mp["l_d"] - mp["l_q"]) * i[0]) * i[1]

    def flux(self, i):
        return math.hypot(self.magnet(i) + self.mp["l_d"] * i[0], self.mp["l_q"] * i[1])

    def flux_limit(self, omega):
        return self.u_lim / (max(abs(omega), 1e-4) * self.p)


class Modulation:
    """reference model of the modulation controller"""

    def __init__(self, pt, k, i_gain, high, low, start):
        self.pt, self.k, self.i_gain, self.high, self.low, self.start = pt, k, i_gain, high, low, start
        self.a_max = 2 / math.sqrt(3)
        self.reset()

    def reset(self):
        self.sum, self.limited = self.start, False

    def __call__(self, omega, u):
        pt = self.pt
        udc = math.sqrt(3) * pt.u_lim
        a = 2 * u / udc
        if a > 1.1 * self.a_max:
            self.sum = self.start
        da = self.k * self.a_max - a
        w = max(abs(omega), 1e-4)
        d = self.i_gain / (2 * w * pt.p / udc) * (da * pt.tau + self.sum)
        if self.low <= d <= self.high:
            if self.limited:
                self.sum, self.limited = self.start, False
            self.sum += da * pt.tau
        else:
            d = min(max(d, self.low), self.high)
            self.limited = True
        return pt.flux_limit(omega) + d


def modulation(pt):
    mp = pt.mp
    alpha = 1.2 / (1.2 - math.sqrt(1.2**2 - 1))
    g = 1 / (mp["l_q"] / (1.25 * mp["r_s"])) * (alpha - 1) / alpha**2
    if pt.m == "EESM":
        high = 0.2 * abs(mp["l_m"] * pt.l("i_e") * (1 - pt.margin) * pt.margin + mp["l_d"] * pt.i_lim * pt.margin)
    else:
        high = 0.2 * math.hypot(mp.get("psi_p", 0.0) + mp["l_d"] * pt.i_lim, mp["l_q"] * pt.i_lim)
    return Modulation(pt, 0.953, g, high, -high, -0.01 * high)


def greatest(pt, psi):
    """greatest torque of all currents within the current limit and the flux psi"""
    mp = pt.mp
    n = 801
    best = 0.0
    for ie in (np.linspace(0, pt.l("i_e") * (1 - pt.margin), 41) if pt.m == "EESM" else (0.0,)):
        mag = mp["l_m"] * ie if pt.m == "EESM" else mp.get("psi_p", 0.0)
        d = np.linspace(-pt.i_lim, pt.i_lim, n)
        if pt.m == "SynRM":  # along the curve of minimal currents
            i = min(pt.i_lim, psi * math.sqrt(2) / math.hypot(mp["l_d"], mp["l_q"]))
            return 1.5 * pt.p * abs(mp["l_d"] - mp["l_q"]) * i * i / 2
        room = psi**2 - (mag + mp["l_d"] * d) ** 2
        q = np.sqrt(np.minimum(np.maximum(pt.i_lim**2 - d**2, 0), np.maximum(room, 0) / mp["l_q"] ** 2))
        t = 1.5 * pt.p * np.abs(mag + (mp["l_d"] - mp["l_q"]) * d) * q
        best = max(best, float(np.max(np.where(room >= 0, t, 0.0))))
    return best


def smallest(pt, t, psi):
    """smallest current amplitude that yields the torque t with a flux of at most psi"""
    mp = pt.mp
    d = np.linspace(-1.05 * pt.l("i_sd"), 1.05 * pt.l("i_sd"), 8001)
    mag = mp.get("psi_p", 0.0)
    with np.errstate(all="ignore"):
        q = t / (1.5 * pt.p * (mag + (mp["l_d"] - mp["l_q"]) * d))
        ok = np.isfinite(q) & (np.hypot(mag + mp["l_d"] * d, mp["l_q"] * q) <= psi * (1 + 1e-6))
        i = np.hypot(d, q)
    return float(np.min(i[ok])) if ok.any() else math.inf


def judge(pt, rec, i, T, psi, top, d, tol, psi_tol):
    """the chosen currents for the torque T with fluxes of at most psi and torques of at most top"""
    if not rec.expect(bool(np.all(np.isfinite(i))), "the operating point is not finite", got=i, **d):
        return
    d = dict(d, currents=i, torque=T, flux_limit=psi, greatest=top)
    lim = [pt.l("i_sd") * (1 - pt.margin), pt.l("i_sq") * (1 - pt.margin)]
    rec.expect(math.hypot(i[0] / lim[0], i[1] / lim[1]) <= 1 + 1e-9, "currents above the limit less the margin", **d)
    if pt.m == "EESM":
        rec.expect(abs(i[2]) <= pt.l("i_e") * (1 - pt.margin) * (1 + 1e-9), "exciting current above the limit less the margin", **d)
    t, f = pt.torque(i), pt.flux(i)
    rec.expect(t * T >= 0 or abs(t) <= tol, "the torque has the wrong sign", got=t, **d)
    if abs(T) <= 0.97 * top:
        rec.expect(abs(t - T) <= tol, "the demanded torque is reachable but not chosen", got=t, tolerance=tol, **d)
    else:
        rec.expect(abs(t) >= min(0.95 * top, abs(T)) - tol, "the chosen torque is not the greatest possible one", got=t, **d)
        rec.expect(abs(t) <= max(1.02 * top, abs(T)) + tol, "more torque than demanded", got=t, **d)
    rec.expect(f <= psi + psi_tol, "the flux does not fit to the voltage limit", got=f, **d)
    return t, f


def sync(case, rec):
    pt = Point(case)
    mod = modulation(pt)
    mp = pt.mp
    mag = mp.get("psi_p", 0.0)
    big = max(1.5 * pt.p * abs(mag - (mp["l_d"] - mp["l_q"]) * pt.i_lim) * pt.i_lim, pt.t_lim)
    tol = 0.01 * big
    psi_range = math.hypot(mag + mp["l_d"] * pt.i_lim, mp["l_q"] * pt.i_lim)
    psi_tol = 0.006 * psi_range
    tops = {}
    nom = pt.l("omega")

    def top(psi):
        k = round(psi, 6)
        if k not in tops:
            tops[k] = greatest(pt, psi)
        return tops[k]

    def point(T, w, u, psi, d):
        i = pt.ask(T, w, u)
        rec.trans()
        # the least flux of the minimal currents is the one without torque
        r = judge(pt, rec, i, T, max(psi, 0.0), top(max(psi, 0.0)), d, tol, psi_tol)
        if r is None:
            return i
        t, f = r
        if abs(T) > 2 * tol:
            # (close to the greatest torque the current grows steeply)
            want = smallest(pt, abs(t) * 1.005, psi)
            if want < math.inf:
                slack = 0.006 if case["mode"] == "online" else 0.01
                rec.expect(math.hypot(*i) <= want * (1 + slack) + slack * pt.i_lim, "the torque is possible with a smaller current", got=math.hypot(*i), want=want, currents=i, torque=T, **d)
        else:
            want = smallest(pt, abs(t) + tol, max(psi, 0.0))
            rec.expect(math.hypot(*i) <= max(want * 1.003, (mag / mp["l_d"]) if psi <= mag + psi_tol else 0.0) + 0.003 * pt.i_lim, "the torque is possible with a smaller current", got=math.hypot(*i), want=want, currents=i, torque=T, **d)
        return i

    for w in np.linspace(-1, 1, case["nw"]) * nom:
        for T in np.linspace(-1, 1, case["nt"]) * pt.t_lim:
            pt.reset()
            mod.reset()
            psi = mod(w, 0.0)
            i = point(T, w, 0.0, psi, dict(omega=w))
            rec.state(case["motor"], case["mp"], case["margin"], case["mode"], round(w, 6), round(T, 6))
            rec.outcome(tuple(np.round(i, 3)))
            rec.trace()
            if T > 0:
                pt.reset()
                j = pt.ask(-T, -w)
                rec.expect(abs(i[0] - j[0]) <= 0.02 * pt.i_lim and abs(i[1] + j[1]) <= 0.02 * pt.i_lim, "the operating points of opposite torques and speeds are not symmetrical", omega=w, torque=T, got=[i, j])
    # the modulation controller over time
    full = pt.u_lim
    us = [0.0, 0.953 * full, 1.05 * full, 1.3 * full]
    for w, T in itertools.product((0.55 * nom, -0.9 * nom), (0.3 * pt.t_lim, -0.9 * pt.t_lim)):
        for seq in itertools.product(us, repeat=case["depth"]):
            for hold in (1, 40):
                pt.reset()
                mod.reset()
                for k, u in enumerate(seq):
                    for h in range(hold):
                        psi = mod(w, u)
                        if h == hold - 1:
                            i = point(T, w, u, psi, dict(omega=w, modulation=seq[:k + 1], hold=hold))
                        else:
                            pt.ask(T, w, u)
                rec.trace()
                rec.state(case["motor"], case["mp"], case["margin"], case["mode"], w, T, seq, hold)
                rec.outcome(tuple(np.round(i, 3)))
    rec.sample(dict(motor=case["motor"], mp=dict(mp), last=i))


def eesm(case, rec):
    pt = Point(case)
    mod = modulation(pt)
    mp = pt.mp
    psi_range = mp["l_m"] * pt.l("i_e") * (1 - pt.margin) + mp["l_d"] * pt.i_lim
    tol, psi_tol = 0.012 * pt.t_lim, 0.008 * psi_range
    tops = {}

    def point(T, w, u, psi, d):
        k = round(max(psi, 0.0), 6)
        if k not in tops:
            tops[k] = greatest(pt, max(psi, 0.0))
        i = pt.ask(T, w, u)
        judge(pt, rec, i, T, max(psi, 0.0), tops[k], d, tol, psi_tol)
        rec.trans()
        return i

    for w in np.linspace(-1, 1, 2 * case["nw"] - 1) * pt.l("omega"):
        for T in np.linspace(-1, 1, case["nt"]) * pt.t_lim:
            pt.reset()
            mod.reset()
            i = point(T, w, 0.0, mod(w, 0.0), dict(omega=w))
            rec.state(case["mp"], case["margin"], round(w, 6), round(T, 6))
            rec.outcome(tuple(np.round(i, 3)))
            rec.trace()
            if T > 0:
                pt.reset()
                j = pt.ask(-T, -w)
                rec.close(i, [j[0], -j[1], j[2]], "the operating points of opposite torques and speeds are not symmetrical", rtol=1e-6, atol=1e-6, omega=w, torque=T)
    full = pt.u_lim
    for w, T in itertools.product((0.4 * pt.l("omega"), -0.8 * pt.l("omega")), (0.3 * pt.t_lim, -0.9 * pt.t_lim)):
        for seq in itertools.product([0.0, 0.953 * full, 1.05 * full, 1.3 * full], repeat=case["depth"]):
            pt.reset()
            mod.reset()
            for k, u in enumerate(seq):
                i = point(T, w, u, mod(w, u), dict(omega=w, modulation=seq[:k + 1]))
            rec.trace()
            rec.state(case["mp"], case["margin"], w, T, seq)
            rec.outcome(tuple(np.round(i, 3)))
    rec.sample(dict(mp=dict(mp), last=i))


def scim(case, rec):
    pt = Point(case)
    mp = pt.mp
    ls, lr, lm = mp["l_m"] + mp["l_sigs"], mp["l_m"] + mp["l_sigr"], mp["l_m"]
    kt = 1.5 * pt.p * lm / lr
    alpha = 1.2 / (1.2 - math.sqrt(1.2**2 - 1))
    g = 1 / (ls / (1.25 * mp["r_s"])) * (alpha - 1) / alpha**2
    sd = pt.l("i_sd")
    ratio = math.sqrt((mp["r_s"] + mp["r_r"] * lm**2 / lr**2) / mp["r_s"])
    opt = lambda t: lm * min(sd, math.sqrt(abs(t) / (kt * lm) * ratio))
    psi_max = opt(pt.t_lim)
    # the flux demand is read from the sign of the flux forming current right after a reset
    for w in np.linspace(-1, 1, case["nw"]) * pt.l("omega"):
        for T in np.linspace(-1, 1, case["nt"]) * pt.t_lim:
            low = pt.flux_limit(w) - psi_max - 1e-3 * psi_max
            high = pt.flux_limit(w) + 0.1 * psi_max + 1e-3 * psi_max
            want = opt(T)
            for x in (0.02, 0.2, 0.5, 0.8, 0.95, 1.05, 1.3):
                psi = x * max(want, 0.1 * psi_max)
                pt.reset()
                i = pt.ask(T, w, 0.0, psi_abs=psi, psi_angle=0.7)
                d = dict(omega=w, torque=T, flux=psi, optimal=want, got=i)
                rec.trans()
                rec.trace()
                rec.state(case["mp"], case["margin"], round(w, 6), round(T, 6), x)
                rec.outcome(tuple(np.round(i, 3)))
                if not rec.expect(bool(np.all(np.isfinite(i))), "the operating point is not finite", **d):
                    continue
                a = math.hypot(*i)
                rec.expect(a <= pt.i_lim * (1 + 1e-9), "currents above the limit less the margin", **d)
                t = kt * max(psi, 1e-3) * i[1]
                rec.expect(t * T >= 0 and abs(t) <= abs(T) * (1 + 1e-9), "the torque is not between zero and the demanded one", torque_=t, **d)
                if abs(w) < 0.05 * pt.l("omega") and abs(T) < 0.5 * pt.t_lim:
                    rec.expect(abs(t - T) <= 1e-9 * pt.t_lim or abs(a - pt.i_lim) <= 1e-6 * pt.i_lim, "the demanded torque is not chosen at the present flux", torque_=t, **d)
                step = lm * sd / 250
                if psi < min(want, low) - step and min(want, low) > 0:
                    rec.expect(i[0] > 0, "the flux is not raised to its optimum", **d)
                if psi > min(want, high) + step:
                    rec.expect(i[0] < 0, "the flux is not lowered to its optimum", **d)
    # the flux controller and the limits over time
    for T in (0.2 * pt.t_lim, -0.7 * pt.t_lim):
        want = opt(T)
        for seq in itertools.product((0.3 * want, want * 0.97, 1.2 * want), repeat=4):
            pt.reset()
            first = []
            for psi in seq:
                first.append(pt.ask(T, 0.0, 0.0, psi_abs=psi, psi_angle=-0.4))
                rec.trans()
                rec.expect(math.hypot(*first[-1]) <= pt.i_lim * (1 + 1e-9), "currents above the limit less the margin", torque=T, fluxes=seq, got=first)
            for k in range(60):
                pt.ask(T, 0.0, 0.0, psi_abs=(0.2 if k < 40 else 1.5) * want)
            pt.reset()
            again = [pt.ask(T, 0.0, 0.0, psi_abs=psi, psi_angle=-0.4) for psi in seq]
            rec.same(again, first, "the operating points after a reset depend on the history before", torque=T, fluxes=seq)
            rec.trace()
    rec.sample(dict(mp=dict(mp), optimal_flux=psi_max))


def run(case, rec):
    globals()[case["kind"]](case, rec)
