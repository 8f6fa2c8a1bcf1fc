"""C30: the control loop of the library couples controllers and environments correctly."""
import itertools
import math

import matplotlib

matplotlib.use("Agg")
import gymnasium
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.backends.backend_agg import FigureCanvasAgg

import gem_controllers as gc
import gym_electric_motor as gem
from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, FluxObserver
from gym_electric_motor.visualization import ConsolePrinter, MotorDashboard

ID = "C30"
LEVEL = "model_checking"
RULE = ("every sequence of {running, terminated, truncated} steps up to the depth x maximum episode lengths x numbers of steps x rendering, in one and in two consecutive calls of control_environment with "
        "other controllers made and used in between, for controllers of every kind: the log of the calls of the environment against the automaton of the loop, every action against an equal controller that is handed the logged "
        "observations and reset at the logged resets; making a controller at every point of an episode against the same episode without it; the drawn references for every combination of the plot options, rendering, plot width and position of the "
        "episode ends against the references of the equal controller")
ASSUMPTIONS = ["matplotlib with the Agg back end, no block diagrams (they need an installation of TeX)", "a reset after the last step of a call is optional",
               "the reference shown at the time of an observation is the one the controller chose at it; the last time (no control call yet) is unspecified; nothing is claimed without should_plot"]

plt.pause = lambda *a, **k: None
FigureCanvasAgg.draw = lambda self, *a, **k: None

INNER = dict(PermExDc=["i"], SeriesDc=["i"], ShuntDc=["i_a"], ExtExDc=["i_a", "i_e"], PMSM=["i_sd", "i_sq"], SynRM=["i_sd", "i_sq"], SCIM=["i_sd", "i_sq"], EESM=["i_sd", "i_sq", "i_e"])
DC = ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc")
LENGTHS = (1, 2, 3, math.inf)


def cases(tier):
    th = tier == "thorough"
    out = []
    loops = [("Cont-SC-PermExDc", "PI", "PI"), ("Finite-CC-PermExDc", "PI", "-"), ("Cont-TC-ExtExDc", "PID", "-"), ("Cont-CC-PMSM", "PI", "-"), ("Finite-SC-ShuntDc", "ThreePoint", "PI"),
             ("Cont-CC-SCIM", "PID", "-"), ("Cont-CC-SynRM", "PI", "-"), ("Cont-SC-SeriesDc", "P", "PID")]
    if th:
        loops += [("Cont-CC-EESM", "PI", "-"), ("Cont-SC-SynRM", "PI", "PI"), ("Finite-TC-ExtExDc", "PI", "-"), ("Cont-SC-SCIM", "PI", "PID"), ("Finite-SC-ExtExDc", "PID", "ThreePoint")]
    for env, bc, bs in loops:
        for first in "gvt":
            out.append(dict(kind="loop", env=env, bc=bc, bs=bs, first=first, depth=6 if th else 5))
        out.append(dict(kind="twice", env=env, bc=bc, bs=bs, depth=3 if th else 2))
    for m in DC + ("PMSM", "SynRM", "SCIM", "EESM"):
        for at in ("Cont", "Finite") if m in DC else ("Cont",):
            for task in ("CC", "TC", "SC"):
                if m == "EESM" and task != "CC":
                    continue
                out.append(dict(kind="make", env="%s-%s-%s" % (at, task, m), steps=6 if th else 4))
                if m not in ("PMSM", "SynRM", "SCIM") or task != "TC" or th:
                    out.append(dict(kind="plot", env="%s-%s-%s" % (at, task, m), depth=4 if th else 3))
    return out


class Script(gymnasium.Wrapper):
    """ends the episodes as scripted and logs every call"""

    def __init__(self, env, real=False):
        super().__init__(env)
        self.log, self.flags, self.real = [], (), real

    def script(self, flags):
        self.flags, self.pos, self.log = flags, 0, []

    def reset(self, **kw):
        obs, info = self.env.reset(**kw)
        self.log.append(("R", np.copy(obs[0]), np.copy(obs[1])))
        return obs, info

    def step(self, action):
        obs, rew, term, trunc, info = self.env.step(action)
        f = self.flags[self.pos % len(self.flags)] if self.flags else "g"
        self.pos += 1
        term, trunc = bool(term) or f == "v", bool(trunc) or f == "t"
        self.log.append(("S", np.copy(obs[0]), np.copy(obs[1]), np.copy(action), term or trunc))
        return obs, rew, term, trunc, info

    def render(self):
        self.log.append(("D",))
        if self.real:
            self.env.render()


def make_env(name, **kw):
    m = name.split("-")[2]
    ws = (FluxObserver(),) if m == "SCIM" else ()
    if m == "EESM":
        kw["motor"] = dict(motor_parameter=dict(l_m=0.8e-3))
    return gem.make(name + "-v0", physical_system_wrappers=ws, **kw)


def make_ctrl(e, name, bc="PI", bs="PI", **kw):
    if "-SC-" in name:
        kw["base_speed_controller"] = bs
    return gc.GemController.make(e, name + "-v0", base_current_controller=bc, block_diagram=False, **kw)


def replay(rec, log, twin, n_steps, max_len, render, d, note=None):
    """the log of one call of control_environment against the automaton, the actions against the twin"""
    obs, length, steps, draws, due = None, 0, 0, 0, True
    for k, ev in enumerate(log):
        d_ = dict(d, events="".join(x[0] for x in log), event=k)
        if ev[0] == "R":
            if not rec.expect(due, "the environment is reset within an episode", **d_):
                return
            obs, length, due = ev[1:3], 0, False
            twin.reset()
            rec.trans()
        elif ev[0] == "D":
            draws += 1
            rec.expect(steps <= draws <= steps + 1, "rendering is not once per step", **d_)
        else:
            if not rec.expect(not due, "the environment is stepped without a reset after the end of an episode", **d_):
                return
            want = twin.control(obs[0].copy(), obs[1].copy())
            rec.same(np.asarray(ev[3], float), np.asarray(want, float), "action of the controller for the latest observation", **d_)
            if note:
                note(twin)
            steps += 1
            length += 1
            obs = ev[1:3]
            due = ev[4] or length >= max_len
            rec.trans()
    rec.expect(steps == n_steps, "number of steps", got=steps, want=n_steps, **d)
    rec.expect(bool(log) and log[0][0] in "RD" and any(x[0] == "R" for x in log), "no reset at the begin", **d)
    rec.expect(draws == (n_steps if render else 0), "number of renderings", got=draws, want=n_steps if render else 0, **d)
    rec.trace()


def loop(case, rec):
    name = case["env"]
    e, e2 = Script(make_env(name)), make_env(name)
    ctrl, twin = (make_ctrl(x, name, case["bc"], case["bs"]) for x in (e, e2))
    e.env.reset(seed=4)
    for rest in itertools.product("gvt", repeat=case["depth"] - 1):
        flags = (case["first"],) + rest
        for max_len in LENGTHS:
            for render in (False, True):
                e.script(flags)
                kw = {} if max_len == math.inf else dict(max_episode_length=max_len)
                if render:
                    kw["render_env"] = True
                ctrl.control_environment(e, case["depth"], **kw)
                replay(rec, e.log, twin, case["depth"], max_len, render, dict(flags="".join(flags), max_len=max_len, render=render))
                rec.state(name, "".join(x[0] for x in e.log))
                rec.outcome(tuple(np.round(np.ravel(e.log[-1][1] if len(e.log[-1]) > 1 else 0.0), 6)))
    rec.sample(dict(env=name, flags="".join(flags), events="".join(x[0] for x in e.log)))


def twice(case, rec):
    name = case["env"]
    e, e2, e3 = Script(make_env(name)), make_env(name), make_env(name)
    e.env.reset(seed=4)
    ctrl, twin = (make_ctrl(x, name, case["bc"], case["bs"]) for x in (e, e2))
    for f in itertools.product("gvt", repeat=case["depth"]):
        for n1, n2 in itertools.product((0, 1, 3), (0, 1, 4)):
            for l1, l2 in itertools.product((2, math.inf), (2, math.inf)):
                e.script(f)
                ctrl.control_environment(e, n1, max_episode_length=l1)
                d = dict(flags="".join(f), calls=[[n1, l1], [n2, l2]])
                replay(rec, e.log, twin, n1, l1, False, dict(d, call=1))
                # somebody else uses a controller in between
                other = make_ctrl(e3, name, "P", "P", a=7, decoupling=False, should_plot=l1 == 2) if n1 == 1 else None
                if other is not None:
                    other.control_environment(e3, 2)
                    if n2 == 1:
                        other.control_environment(e, 1)
                e.script(f)
                ctrl.control_environment(e, n2, max_episode_length=l2)
                replay(rec, e.log, twin, n2, l2, False, dict(d, call=2))
                rec.state(name, n1, n2, "".join(x[0] for x in e.log))
    rec.sample(dict(env=name, last="".join(x[0] for x in e.log)))


def actions(e, n):
    sp = e.action_space
    if isinstance(sp, gymnasium.spaces.Box):
        return [np.clip(0.3 * np.cos(np.arange(sp.shape[0]) * 2.1 + k), sp.low, sp.high).astype(sp.dtype) for k in range(n)]
    if isinstance(sp, gymnasium.spaces.Discrete):
        return [int(k % sp.n) for k in range(n)]
    return [np.array([(k + j) % m for j, m in enumerate(sp.nvec)]) for k in range(n)]


def episode(name, vis, n, at, opts, wrapped):
    e = make_env(name, **({} if vis is None else dict(visualization=vis())))
    out = []

    def make(k):
        if opts is not None and at == k:
            make_ctrl(e if wrapped else e.unwrapped, name, **opts)

    make(-1)
    (s, r), _ = e.reset(seed=11)
    out.append((s.copy(), r.copy()))
    acts = actions(e, 2 * n)
    for k in range(2 * n):
        make(k)
        if k == n:
            (s, r), _ = e.reset()
            out.append((s.copy(), r.copy()))
        (s, r), rew, term, trunc, _ = e.step(acts[k])
        out.append((s.copy(), r.copy(), float(rew), bool(term), bool(trunc)))
        if term:
            (s, r), _ = e.reset()
            out.append((s.copy(), r.copy()))
    return out


VIS = dict(default=None, console=lambda: ConsolePrinter(verbose=0), none=lambda: (), dashboard=lambda: MotorDashboard(state_plots="all"))


def make(case, rec):
    """making a controller does not change what the environment does"""
    name, n = case["env"], case["steps"]
    ref = {v: episode(name, VIS[v], n, None, None, True) for v in VIS}
    for v in VIS:
        for at in (-1, 0, 1, n, n + 1):
            for wrapped in (True, False):
                for opts in (dict(), dict(should_plot=True, decoupling=False, a=8)) if at in (-1, 1) else (dict(plot_references=False),):
                    d = dict(visualization=v, at=at, wrapped=wrapped, options=opts)
                    got = episode(name, VIS[v], n, at, opts, wrapped)
                    rec.expect(len(got) == len(ref[v]), "making a controller changes the episodes", **d)
                    for k, (g, w) in enumerate(zip(got, ref[v])):
                        rec.same(g, w, "making a controller changes the behaviour of the environment", step=k, **d)
                        rec.trans()
                    rec.trace()
                    rec.state(name, v, at, wrapped, opts)
                    rec.outcome(tuple(np.round(got[-1][0], 6)))
    rec.sample(dict(env=name, last=ref["default"][-1]))


def points(ax):
    """the drawn lines with data over time: the state and (if there) the reference"""
    out = []
    for ln in ax.get_lines():
        x, y = (np.asarray(v, float) for v in ln.get_data(orig=True))
        if x.shape == y.shape and len(x) > 2:
            out.append({round(t, 9): v for t, v in zip(x, y) if not np.isnan(v)})
    return out


def plot(case, rec):
    name = case["env"]
    inner = list(INNER[name.split("-")[2]]) if "-CC-" not in name else []
    if "-SC-" in name:
        inner.append("torque")
    depth = case["depth"]
    patterns = sorted({"".join(p) for p in itertools.product("gv", repeat=depth)})
    for should, refs, render, width in itertools.product((True, False), (True, False), (True, False), (50, 4)):
        if not should and (render or width == 4):
            continue
        for flags in patterns if should and refs else patterns[:2]:
            d = dict(should_plot=should, plot_references=refs, render=render, width=width, flags=flags)
            plt.close("all")
            names = inner + (["omega"] if "omega" not in inner else [])
            dash = MotorDashboard(state_plots=names, time_plot_width=width, update_interval=1)
            e = Script(make_env(name, visualization=dash), real=True)
            e2 = make_env(name, visualization=())
            env = e.unwrapped
            env.reset(seed=4)
            ctrl = make_ctrl(e, name, should_plot=should, plot_references=refs)
            if flags[0] == "v":  # somebody else makes a controller with the opposite options
                make_ctrl(e2, name, should_plot=not should, plot_references=not refs)
            twin = make_ctrl(e2, name)
            chosen = []
            n = depth + 3
            e.script(flags)
            ctrl.control_environment(e, n, render_env=render)
            replay(rec, e.log, twin, n, math.inf, render, d, note=lambda t: chosen.append({k: float(np.ravel(v)[0]) for k, v in t.controller.references.items()}))
            env.render()
            by = list(zip(names, [ax for f in dash._figures for ax in f.axes] if hasattr(dash, "_figures") else [ax for i in plt.get_fignums() for ax in plt.figure(i).axes]))
            rec.expect(len(by) == len(names), "one axis per state", **d)
            tau = env.physical_system.tau
            referenced = [s for s, x in zip(env.physical_system.state_names, env.reference_generator.referenced_states) if x]
            for s, ax in by:
                lines = points(ax)
                if s in inner and s not in referenced:
                    if should and refs:
                        if rec.expect(len(lines) == 2, "the reference of the controller is drawn", got=len(lines), state=s, **d):
                            got = lines[1]
                            for j in range(max(0, n - width + 1), n):
                                t = min(got, key=lambda t: abs(t - j * tau), default=None)
                                ok = t is not None and abs(t - j * tau) < 0.01 * tau and abs(got[t] - chosen[j][s]) <= 1e-9 * (1 + abs(chosen[j][s]))
                                rec.expect(ok, "drawn reference of the controller", state=s, time=j, got=None if t is None else [t, got[t]], want=[j * tau, chosen[j][s]], **d)
                                rec.trans()
                            rec.expect(all(abs(t / tau - round(t / tau)) < 0.01 and -0.01 < t / tau < n + 0.01 for t in got), "times of the drawn references", got=sorted(got), state=s, **d)
                    elif should:
                        rec.expect(len(lines) == 1, "a reference is drawn though plot_references is not set", got=len(lines), state=s, **d)
                elif s in referenced:
                    # the own references of the environment stay as they are
                    j = env.physical_system.state_names.index(s)
                    k = referenced.index(s)
                    lim = env.physical_system.limits[j]
                    # (a step is judged by the reference that was there before)
                    evs = [x for x in e.log if x[0] != "D"]
                    want = [evs[q - 1][2][k] * lim for q in range(1, len(evs)) if evs[q][0] == "S"]
                    got = lines[1] if len(lines) > 1 else {}
                    ok = len(lines) == 2 and all(any(abs(t - (q + 1) * tau) < 0.01 * tau and abs(v - w) <= 1e-9 * (1 + abs(w)) for t, v in got.items())
                                                 for q, w in enumerate(want) if q >= n - width + 1)
                    rec.expect(ok, "the drawn reference of the environment", state=s, got=sorted(got.items()), want=want, **d)
                else:
                    rec.expect(len(lines) == 1, "a reference is drawn for a state without one", state=s, got=len(lines), **d)
            rec.state(name, should, refs, render, width, flags)
            rec.outcome(repr(chosen[-1]))
    plt.close("all")
    rec.sample(dict(env=name, inner=inner, chosen=chosen[-1]))


def run(case, rec):
    globals()[case["kind"]](case, rec)
