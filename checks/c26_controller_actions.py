"""C26: controllers of the library command admissible actions according to their control law."""
import itertools
import math

import numpy as np

import gym_electric_motor as gem
import gem_controllers as gc
from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, FluxObserver

ID = "C26"
LEVEL = "model_checking"
RULE = ("every controller that GemController.make builds for the registered current, torque and speed environments (motor types x continuous/finite x base current controller x base speed "
        "controller x decoupling x margin x design parameter): every sequence of observations of a lattice (currents, speeds, angles, fluxes, references including the corners) with and without a reset before the last call up to the "
        "depth, in lockstep with an independent model of the cascade (speed law, operating point of DC machines, current law, emf compensation, limits, anti-windup, transformation, output stage); "
        "two controllers interleaved; whole episodes in closed loop with the environment")
ASSUMPTIONS = ["the doubly fed induction machine and finite three-phase environments have no controllers",
               "the operating points of three-phase machines are checked against the current limits here and for the resulting torque in C27"]

DC = ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc")
AC = ("PMSM", "SynRM", "SCIM")
CUR = dict(PermExDc=["i"], SeriesDc=["i"], ShuntDc=["i_a"], ExtExDc=["i_a", "i_e"], PMSM=["i_sd", "i_sq"], SynRM=["i_sd", "i_sq"], SCIM=["i_sd", "i_sq"], EESM=["i_sd", "i_sq", "i_e"])
VOL = dict(PermExDc=["u"], SeriesDc=["u"], ShuntDc=["u"], ExtExDc=["u_a", "u_e"], PMSM=["u_sd", "u_sq"], SynRM=["u_sd", "u_sq"], SCIM=["u_sd", "u_sq"], EESM=["u_sd", "u_sq", "u_e"])
OUT = dict(PermExDc=["u"], SeriesDc=["u"], ShuntDc=["u"], ExtExDc=["u_a", "u_e"], PMSM=["u_a", "u_b", "u_c"], SynRM=["u_a", "u_b", "u_c"], SCIM=["u_sa", "u_sb", "u_sc"],
           EESM=["u_a", "u_b", "u_c", "u_sup"])


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in DC + AC + ("EESM",):
        for at in ("Cont", "Finite"):
            if at == "Finite" and m not in DC:
                continue
            for task in ("CC", "TC", "SC"):
                if m == "EESM" and task != "CC" and task != "SC":
                    continue
                for bc in ("PI", "PID", "P", "ThreePoint"):
                    for bs in (("PI", "PID", "P", "ThreePoint") if task == "SC" else ("-",)):
                        if task == "SC" and not th and bc != "PI" and bs != "PI":
                            continue
                        for dec in (True, False):
                            if not th and not dec and (task != "CC" or bc == "ThreePoint"):
                                continue
                            if m == "EESM" and task != "CC" and (bc, bs, dec) != ("PI", "PI", True):
                                continue
                            out.append(dict(kind="hist", motor=m, at=at, task=task, bc=bc, bs=bs, dec=dec, depth=4 if th else 3, wide=th))
                if m == "EESM" and task != "CC":
                    continue
                for a, margin, dt in ((8, 0.2, 0), (4, 0.0, 0), (4, 0.45, 1), (3, 0.1, 2)):
                    out.append(dict(kind="hist", motor=m, at=at, task=task, bc="PI", bs="PI", dec=True, a=a, margin=margin, dead=dt, depth=3, wide=False))
                out.append(dict(kind="pair", motor=m, at=at, task=task, bc="PID", bs="PID", dec=True, depth=3 if th else 2, wide=False))
                for bc, bs in itertools.product(("PI", "PID", "P", "ThreePoint"), ("PI", "P", "ThreePoint") if task == "SC" else ("PI",)):
                    if bc != "PI" and bs != "PI" and not th:
                        continue
                    out.append(dict(kind="loop", motor=m, at=at, task=task, bc=bc, bs=bs, dec=True, steps=3000 if th else 400))
    return out


def make_env(case, **kw):
    m = case["motor"]
    ws = [DeadTimeProcessor(case["dead"])] if case.get("dead") else []
    if m == "SCIM":
        ws.append(FluxObserver())
    if m == "EESM":
        kw["motor"] = dict(motor_parameter=dict(l_m=0.8e-3))
    i = "%s-%s-%s-v0" % (case["at"], case["task"], m)
    return i, gem.make(i, physical_system_wrappers=tuple(ws), **kw).unwrapped


def make_ctrl(case, i, e):
    kw = dict(base_current_controller=case["bc"], decoupling=case["dec"], block_diagram=False)
    if case["task"] == "SC":
        kw["base_speed_controller"] = case["bs"]
    if "a" in case:
        kw.update(a=case["a"], current_safety_margin=case["margin"])
    return gc.GemController.make(e, i, **kw)


class Law:
    """speed and current law: proportional, integral and differential parts"""

    def __init__(self, kind, p, i, tau):
        self.kind, self.p, self.i, self.tau = kind, np.array(p, float), np.array(i, float), tau
        self.reset()

    def reset(self):
        self.int = np.zeros_like(self.p)
        self.last = np.zeros_like(self.p)

    def __call__(self, err):
        out = self.p * err
        if self.kind in ("PI", "PID"):
            out = out + self.i * self.int
        if self.kind == "PID":
            out = out + self.p * (err - self.last)
            self.last = err
        return out

    def advance(self, err, clipped):
        if self.kind in ("PI", "PID"):
            self.int = self.int + np.where(clipped, 0.0, self.tau * err)


class Model:
    def __init__(self, case, e, ctrl):
        m = self.m = case["motor"]
        self.case = case
        mp = self.mp = e.physical_system.electrical_motor.motor_parameter
        self.names = list(e.state_names)
        self.ix = {n: k for k, n in enumerate(self.names)}
        self.lim = np.array(e.limits, float)
        low, high = e.observation_space[0].low.astype(float), e.observation_space[0].high.astype(float)
        self.refs = [self.ix[n] for n in e.reference_names]
        self.rng = lambda n, f=1.0: (np.array([low[self.ix[x]] * self.lim[self.ix[x]] * f for x in n]), np.array([high[self.ix[x]] * self.lim[self.ix[x]] * f for x in n]))
        self.tau = tau = e.physical_system.tau
        a = case.get("a", 4)
        self.margin = case.get("margin", 0.2)
        self.p = mp.get("p", 1)
        if m == "SCIM":
            ls, lr = mp["l_m"] + mp["l_sigs"], mp["l_m"] + mp["l_sigr"]
            sig = (ls * lr - mp["l_m"] ** 2) / (ls * lr)
            self.ls, self.lr, self.sig = ls, lr, sig
        L = dict(PermExDc=lambda: [mp["l_a"]], SeriesDc=lambda: [mp["l_a"] + mp["l_e"]], ShuntDc=lambda: [mp["l_a"]], ExtExDc=lambda: [mp["l_a"], mp["l_e"]],
                 PMSM=lambda: [mp["l_d"], mp["l_q"]], SynRM=lambda: [mp["l_d"], mp["l_q"]], SCIM=lambda: [sig * ls, sig * ls], EESM=lambda: [mp["l_d"], mp["l_q"], mp["l_e"]])[m]()
        pg = np.array(L) / (tau * a)
        self.cur = None
        if case["bc"] == "ThreePoint":
            self.hyst = 0.01 * (self.rng(VOL[m])[1] - self.rng(VOL[m])[0])
        else:
            if m in ("EESM", "SCIM"):  # the time constant in the current law of coupled windings is a matter of tuning
                cb = ctrl.controller
                while not hasattr(cb, "current_base_controller"):
                    cb = cb.torque_controller if hasattr(cb, "torque_controller") else cb.current_controller
                pg = np.array(cb.current_base_controller.p_gain, float)
            self.cur = Law(case["bc"], pg, pg / (tau * a**2), tau)
        self.spd = None
        if case["task"] == "SC":
            tn = tau * a**2
            if self.cur is None or case["bc"] == "P":
                tn = float(np.min(ctrl.controller.torque_controller.t_n))
            j = e.physical_system.mechanical_load.j_total
            if case["bs"] != "ThreePoint":
                self.spd = Law(case["bs"], [j / (a * tn)], [j / (a * tn) / (a * tn)], tau)
        self.adv = 0.5 + case.get("dead", 0)
        self.e = e

    def reset(self):
        for x in (self.cur, self.spd):
            if x is not None:
                x.reset()

    # the stages work on physical values
    def speed(self, x, ref):
        lo, hi = self.rng(["torque"])
        err = np.array([ref - x[self.ix["omega"]]])
        if self.spd is None:
            h = 0.01 * (hi - lo)
            return np.where(-err > h, lo, np.where(err > h, hi, 0.0)), err
        t = self.spd(err)
        c = np.clip(t, lo, hi)
        self.spd.advance(err, t != c)
        return c, err

    def operating_point(self, x, t):
        m, mp, ix = self.m, self.mp, self.ix
        lo, hi = self.rng(CUR[m], 1 - self.margin)
        if m == "PermExDc":
            w = x[ix["omega"]]
            top = max(self.lim[ix["u"]] - mp["psi_e"] * abs(w), 0.0) / mp["r_a"]
            i = [min(t / mp["psi_e"], top) if w > 0 else max(t / mp["psi_e"], -top)]
        elif m == "SeriesDc":
            i = [math.sqrt(t / mp["l_e_prime"])]
        elif m == "ShuntDc":
            ie = x[ix["i_e"]]
            mx = self.lim[ix["i_e"]] * (1 - self.margin)
            mag = math.copysign(max(abs(ie), 1e-4), ie if ie != 0 else 1.0)
            ia = self.lim[ix["i_a"]] * (1 - self.margin)
            i = [-ia if ie > mx else ia if ie < -mx else t / mp["l_e_prime"] / mag]
        elif m == "ExtExDc":
            i = [t / mp["l_e_prime"] / max(x[ix["i_e"]], 1e-4), math.sqrt(math.sqrt(mp["r_a"]) * abs(t) / (math.sqrt(mp["r_e"]) * mp["l_e_prime"]))]
        else:
            return None
        return np.clip(np.array(i, float), lo, hi)

    def emf(self, x):
        m, mp = self.m, self.mp
        g = lambda n: x[self.ix[n]]
        w = g("omega") * self.p
        if m == "PermExDc":
            return [mp["psi_e"] * w]
        if m == "SeriesDc":
            return [mp["l_e_prime"] * g("i") * w]
        if m == "ShuntDc":
            return [mp["l_e_prime"] * g("i_e") * w]
        if m == "ExtExDc":
            return [mp["l_e_prime"] * g("i_e") * w, 0.0]
        if m in ("PMSM", "SynRM"):
            return [-mp["l_q"] * g("i_sq") * w, (mp["l_d"] * g("i_sd") + mp.get("psi_p", 0.0)) * w]
        if m == "SCIM":
            psi = g("psi_abs")
            ws = w + mp["r_r"] * mp["l_m"] / self.lr * g("i_sq") / max(abs(psi), 1e-4) * (0 if psi == 0 else math.copysign(1, psi))
            return [-ws * self.sig * self.ls * g("i_sq") - mp["l_m"] * mp["r_r"] / self.lr**2 * psi, ws * self.sig * self.ls * g("i_sd") + w * mp["l_m"] / self.lr * psi]
        if m == "EESM":
            return [-mp["l_q"] * g("i_sq") * w - mp["l_m"] * mp["r_e"] / mp["l_e"] * g("i_e"), (mp["l_d"] * g("i_sd") + mp["l_m"] * g("i_e")) * w,
                    mp["l_m"] * mp["l_q"] / mp["l_d"] * g("i_sq") * w - mp["l_m"] * mp["r_s"] / mp["l_d"] * g("i_sd")]
        return None

    def voltage(self, x, iref):
        """(admissible voltages in the coordinates of the current controller)"""
        m = self.m
        i = np.array([x[self.ix[n]] for n in CUR[m]])
        err = iref - i
        lo, hi = self.rng(VOL[m])
        if self.cur is None:
            u = np.where(i - self.hyst > iref, lo, np.where(i + self.hyst < iref, hi, 0.0))
        else:
            u = self.cur(err)
        if self.case["dec"]:
            f = self.emf(x)
            if f is None:
                return None
            u = u + np.array(f)
            if m == "EESM":  # the windings of the d axis and the rotor induce voltages in each other
                u = u + np.array([self.mp["l_m"] / self.mp["l_e"] * u[2], 0.0, self.mp["l_m"] / self.mp["l_d"] * u[0]])
        if m in DC:
            c = np.clip(u, lo, hi)
        else:
            lim = np.array([self.lim[self.ix[n]] for n in VOL[m]])
            r = math.hypot(u[0] / lim[0], u[1] / lim[1])
            c = np.array(u, float)
            if r > 1:
                c[:2] = u[:2] / r
            if len(c) > 2:
                c[2] = min(max(u[2], lo[2]), hi[2])
        if self.cur is not None:
            self.cur.advance(err, c != u)
        self.margin_r = None
        return c

    def output(self, x, u):
        m = self.m
        if m in DC:
            v = u
        else:
            ang = x[self.ix["psi_angle" if m == "SCIM" else "epsilon"]] + self.adv * self.tau * x[self.ix["omega"]] * self.p
            z = complex(u[0], u[1]) * complex(math.cos(ang), math.sin(ang))
            v = np.array([z.real, -z.real / 2 + math.sqrt(3) / 2 * z.imag, -z.real / 2 - math.sqrt(3) / 2 * z.imag] + list(u[2:]))
        if self.case["at"] == "Cont":
            return v / np.array([self.lim[self.ix[n]] for n in OUT[m]])
        lo, hi = self.rng(OUT[m])
        sp = self.e.action_space
        ns = [sp.n] if hasattr(sp, "n") else list(sp.nvec)
        th = 0.33 * (hi - lo)
        return [int(1 if a >= t else (2 if n > 2 else 0) if a <= -t else 0) for a, t, n in zip(v, th, ns)]


def lattice(case, e, wide):
    """observations (state, reference) of the lattice"""
    m = case["motor"]
    names = list(e.state_names)
    low, high = e.observation_space[0].low.astype(float), e.observation_space[0].high.astype(float)
    lim = e.limits

    def st(**v):
        s = np.zeros(len(names))
        if "u_sup" in names:
            s[names.index("u_sup")] = 1.0
        for k, x in v.items():
            if k in names:
                j = names.index(k)
                s[j] = min(max(x, low[j]), high[j])
        return s

    cur = CUR[m]
    sts = []
    if m in DC:
        for w in (0.0, 0.31, -0.9) if not wide else (0.0, 0.31, 1.0, -0.9):
            for ia, ie in ((0.0, 0.5), (0.42, -0.3), (-1.0, 0.95)) + (((0.97, 0.0),) if wide else ()):
                v = dict(omega=w, i=ia, i_a=ia, i_e=ie)
                sts.append(st(**v))
    else:
        for w, ang, psi in ((0.0, 0.0, 0.0), (0.45, 0.61, 0.4), (-1.0, -0.999, 0.9)) + (((0.02, 0.25, -0.2),) if wide else ()):
            for d, q, u in ((0.0, 0.0, 0.0), (-0.3, 0.64, 0.4), (0.7, -0.7, 0.95)):
                v = dict(omega=w, epsilon=ang, psi_angle=ang, psi_abs=psi, i_sd=d, i_sq=q, u_sd=-u, u_sq=u * 0.7, i_e=abs(d))
                sts.append(st(**v))
    refs = []
    rn = e.reference_names
    vals = (0.0, 0.4, -0.25, 1.0, -1.0) if wide else (0.35, -1.0, 0.9)
    for k, v in enumerate(vals):
        r = [min(max(v * (1 if j == 0 else (-0.8 if j == 1 else 0.5)), low[names.index(n)]), high[names.index(n)]) for j, n in enumerate(rn)]
        refs.append(np.array(r))
    obs = list(itertools.product(sts, refs))
    if wide:
        return obs[::3]
    full = case["kind"] == "hist" and "a" not in case and (case["bc"], case["dec"]) == ("PI", True) and case["bs"] in ("-", "PI")
    return [o for k, o in enumerate(obs) if (k // len(refs) + k) % (2 if full else 3) == 0]


def call(ctrl, mod, e, o, rec, hist, outs):
    s, r = o[0].copy(), o[1].copy()
    x = o[0] * mod.lim
    rf = o[1] * mod.lim[mod.refs]
    act = ctrl.control(s, r)
    d = dict(hist=hist)
    rec.trans()
    rec.expect(np.array_equal(s, o[0]) and np.array_equal(r, o[1]), "the controller changed its arguments", **d)
    ok = e.action_space.contains(act) or (not isinstance(act, np.ndarray) and e.action_space.contains(np.asarray(act)))
    rec.expect(bool(np.all(np.isfinite(np.asarray(act, float)))), "action is not finite", got=act, **d)
    rec.expect(ok, "action outside of the action space", got=act, space=str(e.action_space), **d)
    got = ctrl.controller.references
    iref = rf
    task, m = mod.case["task"], mod.m
    if task == "SC":
        t, _ = mod.speed(x, rf[0])
        rec.close(float(np.ravel(got["torque"])[0]), float(t[0]), "torque reference of the speed controller", rtol=1e-9, atol=1e-9 * abs(mod.lim[mod.ix["torque"]]), **d)
        rf = np.ravel(got["torque"]).astype(float)
    if task in ("TC", "SC"):
        want = mod.operating_point(x, float(rf[0]))
        have = np.array([float(got[n]) for n in CUR[m]])
        rec.expect(bool(np.all(np.isfinite(have))), "current reference is not finite", got=have, **d)
        if want is not None:
            rec.close(have, want, "current reference of the torque controller", rtol=1e-9, atol=1e-9, **d)
        lim = np.array([mod.lim[mod.ix[n]] for n in CUR[m]]) * (1 - mod.margin)
        if m in DC:
            rec.expect(bool(np.all(np.abs(have) <= lim * (1 + 1e-9))), "current reference above the limit less the margin", got=have, limit=lim, **d)
        else:
            rec.expect(math.hypot(have[0] / lim[0], have[1] / lim[1]) <= 1 + 1e-9, "current reference above the limit less the margin", got=have, limit=lim, **d)
            if len(have) > 2:
                rec.expect(abs(have[2]) <= lim[2] * (1 + 1e-9), "current reference above the limit less the margin", got=have, limit=lim, **d)
        iref = have
    u = mod.voltage(x, iref)
    if u is not None:
        w = mod.output(x, u)
        if mod.case["at"] == "Cont":
            rec.close(np.asarray(act, float), w, "action of the control law", rtol=1e-8, atol=1e-8, **d)
        else:
            rec.expect([int(v) for v in np.ravel(act)] == w, "switching command of the control law", got=act, want=w, **d)
    outs.append(tuple(np.round(np.ravel(np.asarray(act, float)), 9)))


def run(case, rec):
    i, e = make_env(case)
    e.reset(seed=3)
    if case["kind"] == "loop":
        return run_loop(case, rec, i, e)
    ctrl = make_ctrl(case, i, e)
    mod = Model(case, e, ctrl)
    obs = lattice(case, e, case["wide"])
    rec.state((i, case["bc"], case["bs"], case["dec"]))
    R = len(obs)
    if case["kind"] == "hist":
        depth = case["depth"]
        # all sequences of observations up to the depth, with a reset in front of any call
        n = 0
        for size in range(1, depth + 1):
            for seq in itertools.product(range(R), repeat=min(size, 3)):
                # beyond three calls the history is continued by every fourth observation
                for ext in itertools.product(range(0, R, 4), repeat=max(0, size - 3)):
                    full = seq + ext
                    for rs in [()] + ([(size - 1,)] if 1 < size < 4 else []):
                        ctrl.reset()
                        mod.reset()
                        outs = []
                        for k, o in enumerate(full):
                            if k in rs:
                                ctrl.reset()
                                mod.reset()
                            call(ctrl, mod, e, obs[o], rec, dict(observations=full[:k + 1], resets=rs), outs)
                        rec.trace()
                        n += 1
                        if n % 97 == 0:
                            rec.state((i, outs[-1]))
                        rec.outcome(outs[-1])
        # integrators run far into the limits and out again
        for o in range(R):
            ctrl.reset()
            mod.reset()
            outs = []
            for k in range(30):
                call(ctrl, mod, e, obs[o] if k < 24 else obs[(o + 7) % R], rec, dict(observation=o, repeated=k), outs)
            rec.trace()
        rec.sample(dict(env=i, observations=R, last=outs[-1]))
    else:
        c2 = make_ctrl(case, i, e)
        m2 = Model(case, e, c2)
        for seq in itertools.product(range(0, R, 2), repeat=case["depth"]):
            for other in (seq[::-1], (seq[0],) * len(seq), tuple((o + 3) % R for o in seq)):
                for x in (ctrl, c2, mod, m2):
                    x.reset()
                for k, (o1, o2) in enumerate(zip(seq, other)):
                    call(ctrl, mod, e, obs[o1], rec, dict(first=seq[:k + 1], second=other[:k]), [])
                    if k == 1:
                        c2.reset()
                        m2.reset()
                    call(c2, m2, e, obs[o2], rec, dict(first=seq[:k + 1], second=other[:k + 1]), [])
                rec.trace()
        rec.sample(dict(env=i, observations=R))


def run_loop(case, rec, i, e):
    """whole episodes in closed loop, with the own references of the environment"""
    ctrl = make_ctrl(case, i, e)
    mod = Model(case, e, ctrl)
    for seed in (1, 2):
        (s, r), _ = e.reset(seed=seed)
        ctrl.reset()
        mod.reset()
        done = False
        for k in range(case["steps"]):
            outs = []
            o = (np.array(s, float), np.array(r, float))
            if case["motor"] == "SeriesDc" and case["task"] == "TC":
                o[1][:] = np.maximum(o[1], 0)
            call(ctrl, mod, e, o, rec, dict(seed=seed, step=k), outs)
            act = outs[-1]
            space = e.action_space
            a = np.array(act) if case["at"] == "Cont" else (int(act[0]) if hasattr(space, "n") else np.array(act, int))
            (s, r), _, done, _, _ = e.step(a)
            if done:
                (s, r), _ = e.reset()
                ctrl.reset()
                mod.reset()
        rec.trace()
        rec.state((i, case["bc"], case["bs"], tuple(np.round(s, 6))))
        rec.outcome(bool(done))
    rec.sample(dict(env=i, steps=case["steps"]))
