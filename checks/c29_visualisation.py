"""C29: visualisations never influence the environment, and what they show are the true data of the episodes."""
import contextlib
import copy
import io
import itertools
import re

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.backends.backend_agg import FigureCanvasAgg

from gym_electric_motor import core
from gym_electric_motor.constraints import Constraint
from gym_electric_motor.visualization import ConsolePrinter, MotorDashboard
from gym_electric_motor.visualization.motor_dashboard_plots import (
    CumulativeConstraintViolationPlot, EpisodeLengthPlot, MeanEpisodeRewardPlot)
from gym_electric_motor.visualization.render_modes import RenderMode

from gemmc import envs

ID = "C29"
LEVEL = "model_checking"
RULE = ("every sequence over {step, violating step, reset, render, reset of the figures} up to the depth (without an immediately repeated rendering or figure reset) x window widths (wrapping inside the history) x sets of plots "
        "(states by name and all, actions, reward, episode length, mean reward, violations) x scaling x 4 environments with discrete, multi-discrete and continuous "
        "actions: after a final rendering the data of every drawn line and of every vertical marker against the log of the history; every such history with every "
        "visualisation against the environment without one (all outputs and the random state of the process); what is drawn after every event of a history in every render mode "
        "and update interval; every printed line of the console printer against the log")
ASSUMPTIONS = ["matplotlib with the Agg back end and without the waiting time of plt.pause; a line is what matplotlib was handed (Line2D data), most draws are replaced by the "
               "shape check a draw would do and one per case is real",
               "a plot shows the last `width` steps; state at the end, action at the begin of its step, reward at either",
               "after reset_figures the running episode counts as not recorded by the episode plots and markers at the new time zero are allowed"]

plt.pause = lambda *a, **k: None
REAL = FigureCanvasAgg.draw
BACKEND = plt.get_backend, matplotlib.get_backend


def light(self, *a, **k):
    for ax in self.figure.axes:
        for ln in ax.get_lines():
            x, y = ln.get_data(orig=True)
            if np.shape(x) != np.shape(y):
                raise ValueError("x and y of a line have different shapes: %r and %r" % (np.shape(x), np.shape(y)))


class Trip(Constraint):
    def __init__(self):
        super().__init__()
        self.on = False

    def __call__(self, state):
        return 1.0 if self.on else 0.0


class Log(core.Callback):
    def __init__(self):
        super().__init__()
        self.last = None

    def on_step_end(self, k, state, reference, reward, terminated):
        self.last = (state.copy(), reference.copy(), float(reward))


SPECS = dict(
    permex=lambda: envs.spec("PermExDc", True, limit_values=dict(torque=0.5, omega=0.2), ref=dict(kind="wiener", state="omega", episode_lengths=[2, 4], sigma_range=[1e-2, 1e-1])),
    pmsm=lambda: envs.spec("PMSM", False, ref=dict(kind="multi", subs=[dict(kind="const", state="i_sd", reference_value=0.1), dict(kind="const", state="omega", reference_value=-0.2)])),
    dfim=lambda: envs.spec("DFIM", True, ref=dict(kind="const", state="i_sq", reference_value=-0.3), wrap=[dict(kind="cossin")]),
    series=lambda: envs.spec("SeriesDc", False, filter=["i"], ref=dict(kind="sinus", state="i", amplitude_range=[0.1, 0.4], frequency_range=[50.0, 500.0])),
)
SETS = dict(
    time=dict(state_plots="all", action_plots="all", reward_plot=True),
    some=dict(state_plots=["omega"], action_plots=(), reward_plot=True, extra=("len",)),
    epi=dict(extra=("len", "mean", "viol")),
    mix=dict(state_plots=("omega", "u_sup"), action_plots=[0], reward_plot=True, extra=("len", "mean", "viol")),
)
EXTRA = dict(len=EpisodeLengthPlot, mean=MeanEpisodeRewardPlot, viol=CumulativeConstraintViolationPlot)


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in SPECS:
        out.append(dict(kind="passive", spec=s, depth=6 if th else 5))
    firsts = ["".join(x) for x in itertools.product("svrdf", repeat=2)]
    for s, st, width, scale, dep in (("permex", "mix", 3, False, 5), ("permex", "mix", 2, True, 4), ("pmsm", "some", 2, True, 3), ("dfim", "epi", 50, False, 4),
                                     ("series", "mix", 3, True, 4), ("pmsm", "mix", 2, False, 3)):
        for f in (firsts if dep + th > 4 else ["s", "v", "r", "d", "f"]):
            out.append(dict(kind="data", spec=s, set=st, width=width, scale=scale, first=f, depth=dep + th))
    # all plots below each other in one figure (notebooks)
    for s, st in (("permex", "mix"), ("pmsm", "some"), ("dfim", "epi"), ("series", "time")):
        for f in "svrdf":
            out.append(dict(kind="data", spec=s, set=st, width=3, scale=s == "pmsm", first=f, depth=3 + th, notebook=True))
    for s in SPECS:
        for scale in (False, True):
            if s != "dfim" or scale:
                out.append(dict(kind="long", spec=s, set="time", scale=scale))
            out.append(dict(kind="long", spec=s, set="mix", scale=scale))
    for mode in ("none", "figure", "once"):
        for interval in (1, 2, 3):
            out.append(dict(kind="modes", spec="permex", mode=mode, interval=interval, depth=5 if th else 4))
    for verbose in (0, 1, 2):
        for freq in (1, 2):
            out.append(dict(kind="console", verbose=verbose, freq=freq, depth=7 if th else 5))
    return out


def dashboard(st, width, mode=None, interval=1):
    kw = {k: v for k, v in SETS[st].items() if k != "extra"}
    return MotorDashboard(render_mode=mode, additional_plots=[EXTRA[x]() for x in SETS[st].get("extra", ())], update_interval=interval, time_plot_width=width, **kw)


def make(name, visus, scale=False):
    s = SPECS[name]()
    trip = Trip()
    log = Log()
    s = dict(s)
    s["constraints"] = []
    cm = core.ConstraintMonitor([], [trip])
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    e = core.ElectricMotorEnvironment(physical_system=envs.physical_system(s), reference_generator=envs.generator(s["ref"]), reward_function=WeightedSumOfErrors(),
                                      visualization=visus, state_filter=s.get("filter"), callbacks=[log], constraints=cm, scale_plots=scale,
                                      physical_system_wrappers=[envs.wrapper(w, s["motor"]) for w in s.get("wrap", [])])
    return e, trip, log


class Model:
    """what the plots have to show"""

    def __init__(self, tau):
        self.tau = tau
        self.clear()
        self.t0_ok = False
        self.ep = None

    def clear(self):
        self.steps = []
        self.red, self.blue = set(), set()
        self.episodes = []
        self.recording = False
        self.viol = []
        self.t0_ok = True

    def reset(self):
        n = len(self.steps)
        if self.ep is not None:
            (self.red if self.ep["done"] else self.blue).add(n)
            if self.recording:
                self.episodes.append((self.ep["n"], self.ep["sum"]))
        self.recording = True
        self.ep = dict(n=0, sum=0.0, done=False)

    def step(self, action, s, r, rew, done):
        self.steps.append((action, s, r, rew))
        self.ep["n"] += 1
        self.ep["sum"] += rew
        self.ep["done"] = done
        if done:
            self.viol.append(len(self.steps))


def drive(e, trip, log, dash, seq, model, rec, hist):
    acts = envs.actions(e, 3)
    i = 0
    e.reset()
    model.reset()
    done = False
    for op in seq:
        hist.append(op)
        if op in "sv":
            if done:
                e.reset()
                model.reset()
                hist.append("(reset)")
            trip.on = op == "v"
            a = acts[i % len(acts)]
            i += 1
            out = e.step(a)
            done = out[2]
            rec.trans()
            model.step(a, *log.last, done)
        elif op == "r":
            e.reset()
            model.reset()
            done = False
        elif op == "d":
            e.render()
        elif op == "f":
            dash.reset_figures()
            model.clear()


def visible(ax, i):
    x, y = ax.get_lines()[i].get_data(orig=True)
    x, y = np.asarray(x, float), np.asarray(y, float)
    if x.shape != y.shape:
        return None
    keep = ~np.isnan(y)
    o = np.argsort(x[keep], kind="stable")
    return x[keep][o], y[keep][o]


def cmp(rec, got, wx, wy, what, tau, alt=None, **kw):
    """points of a line against the expected ones"""
    if not rec.expect(got is not None, what + ": x and y data of the line do not fit", **kw):
        return
    gx, gy = got
    ok = len(gx) == len(wx)
    if ok and len(wx):
        wx, wy = np.asarray(wx, float), np.asarray(wy, float)
        okx = np.all(np.abs(gx - wx) <= 1e-3 * tau) or (alt is not None and np.all(np.abs(gx - np.asarray(alt)) <= 1e-3 * tau))
        ok = okx and np.all(np.abs(gy - wy) <= 1e-9 * (1 + np.abs(wy)))
    rec.expect(ok, what, got=[list(gx), list(gy)], want=[list(wx), list(wy)], **kw)


def check(rec, e, dash, st, model, width, scale, hist):
    kw = dict(hist="".join(hist))
    plt_figs = list(dash._figures) if hasattr(dash, "_figures") else [plt.figure(n) for n in plt.get_fignums()]
    axes = [ax for f in plt_figs for ax in f.axes]
    by = {ax.get_ylabel(): ax for ax in axes}
    ps = e.physical_system
    cfg = SETS[st]
    names = cfg.get("state_plots", ())
    names = list(ps.state_names) if names == "all" else list(names)
    n_act = cfg.get("action_plots", ())
    if n_act == "all":
        n_act = range(len(ps.action_space.shape and np.zeros(ps.action_space.shape)) or 1)
    tau, n = model.tau, len(model.steps)
    last = list(range(max(0, n - width), n))
    # axes in the order of the plots
    time_axes = [ax for ax in axes if ax.get_ylabel() not in ("Episode Length", "Mean Reward Per Step", "Cum. No. of Constraint Violations")]
    rec.expect(len(time_axes) == len(names) + len(list(n_act)) + bool(cfg.get("reward_plot")), "one axis per plot", **kw)
    it = iter(time_axes)
    t_end = [(k + 1) * tau for k in last]
    t_beg = [k * tau for k in last]
    for name in names:
        ax = next(it)
        j = ps.state_names.index(name)
        lim = ps.limits[j]
        cmp(rec, visible(ax, 0), t_end, [model.steps[k][1][j] * lim for k in last], "state " + name, tau, **kw)
        if e.reference_generator.referenced_states[j]:
            cmp(rec, visible(ax, 1), t_end, [model.steps[k][2][j] * lim for k in last], "reference of " + name, tau, **kw)
        hl = [ln.get_ydata()[0] for ln in ax.get_lines() if len(ln.get_ydata()) == 2 and ln.get_ydata()[0] == ln.get_ydata()[1] and list(ln.get_xdata()) == [0, 1]]
        want = [lim] + ([ps.state_space.low[j] * lim] if ps.state_space.low[j] < 0 else [])
        rec.expect(len(hl) == len(want) and np.allclose(sorted(hl), sorted(want)), "limit lines of " + name, got=hl, want=want, **kw)
        if scale and n and dash_scaled(ax, model, j, last):
            lo, hi = ax.get_ylim()
            vals = [model.steps[k][1][j] * lim for k in last]
            if e.reference_generator.referenced_states[j]:
                vals += [model.steps[k][2][j] * lim for k in last]
                rec.expect(lo <= min(vals) + 1e-9 * (1 + abs(min(vals))) and hi >= max(vals) - 1e-9 * (1 + abs(max(vals))), "scaled axis of %s shows all data" % name, got=[lo, hi],
                           want=[min(vals), max(vals)], **kw)
        if not scale:
            lo, hi = ax.get_ylim()
            rec.expect(lo <= min(want) and hi >= lim, "the axis of %s covers the limits" % name, got=[lo, hi], **kw)
        marks(rec, ax, model, width, kw)
    for a in n_act:
        ax = next(it)
        vals = [np.atleast_1d(model.steps[k][0])[a] for k in last]
        cmp(rec, visible(ax, 0), t_beg, vals, "action %d" % a, tau, **kw)
        marks(rec, ax, model, width, kw)
    if cfg.get("reward_plot"):
        ax = next(it)
        cmp(rec, visible(ax, 0), t_beg, [model.steps[k][3] for k in last], "reward", tau, alt=t_end, **kw)
        marks(rec, ax, model, width, kw)
    extra = cfg.get("extra", ())
    m = len(model.episodes)
    if "len" in extra:
        cmp(rec, visible(by["Episode Length"], 0), range(m), [x[0] for x in model.episodes], "episode lengths", 1.0, **kw)
    if "mean" in extra:
        # an episode without steps has no mean: it may be left out, or shown as missing or zero
        x, y = by["Mean Reward Per Step"].get_lines()[0].get_data(orig=True)
        ok = np.shape(x) == np.shape(y)
        if ok:
            have = dict(zip(np.asarray(x, float), np.asarray(y, float)))
            for i, (cnt, s) in enumerate(model.episodes):
                g = have.pop(float(i), np.nan)
                ok = ok and (abs(g - s / cnt) <= 1e-9 * (1 + abs(s)) if cnt else (np.isnan(g) or g == 0))
            ok = ok and not have
        rec.expect(ok, "mean rewards of the episodes", got=[list(x), list(y)], want=model.episodes, **kw)
    if "viol" in extra:
        wx, wy = [0], [0]
        for i, k in enumerate(model.viol):
            wx += [k - 1, k]
            wy += [i, i + 1]
        x, y = by["Cum. No. of Constraint Violations"].get_lines()[0].get_data(orig=True)
        rec.expect(list(x) == wx and list(y) == wy, "cumulative violations", got=[list(x), list(y)], want=[wx, wy], **kw)
    for key, label in (("len", "Episode Length"), ("mean", "Mean Reward Per Step"), ("viol", "Cum. No. of Constraint Violations")):
        if key in extra:
            (x, y), (lo, hi), (dn, up) = by[label].get_lines()[0].get_data(orig=True), by[label].get_xlim(), by[label].get_ylim()
            eps = 1e-9 * (1 + abs(dn) + abs(up))
            out = [(float(a), float(b)) for a, b in zip(x, y) if np.isfinite(b) and not (lo <= a <= hi and dn - eps <= b <= up + eps)]
            rec.expect(len(x) < 2 or not out, "the window shows all %s" % label.lower(), got=dict(x=[lo, hi], y=[dn, up]), want=out, **kw)
    if last:
        for ax in time_axes:
            lo, hi = ax.get_xlim()
            rec.expect(lo <= t_beg[0] + 1e-3 * tau and hi >= t_end[-1] - 1e-3 * tau, "the window shows the last steps", got=[lo, hi], want=[t_beg[0], t_end[-1]], **kw)


def dash_scaled(ax, model, j, last):
    return len(last) > 0


def marks(rec, ax, model, width, kw):
    for color, want in (("red", model.red), ("blue", model.blue)):
        got = set()
        for ln in ax.get_lines():
            x, y = ln.get_data(orig=True)
            if ln.get_color() == color and len(x) == 2 and x[0] == x[1] and list(y) == [0, 1]:
                got.add(round(x[0] / model.tau, 3))
        w = set(float(k) for k in want)
        rec.expect(got - {0.0} == w - {0.0} and (model.t0_ok or got == w), "%s markers" % color, got=sorted(got), want=sorted(w), **kw)


@contextlib.contextmanager
def drawing(real, notebook=False):
    FigureCanvasAgg.draw = REAL if real else light
    if notebook:
        plt.get_backend = matplotlib.get_backend = lambda *a, **k: "nbAgg"
    try:
        yield
    finally:
        FigureCanvasAgg.draw = REAL
        plt.get_backend, matplotlib.get_backend = BACKEND
        plt.close("all")


def data(case, rec):
    depth = case["depth"]
    f = case["first"]
    for m in range(len(f) if len(f) == 1 else 2, depth + 1):
        for tail in itertools.product("svrdf", repeat=m - len(f)):
            seq = f + "".join(tail)
            if "dd" in seq or "ff" in seq or "rrr" in seq or (len(seq) > 4 and seq[-1] == "d"):
                continue
            one(case, rec, seq, real=False)


def one(case, rec, seq, real):
    hist = []
    with drawing(real, case.get("notebook", False)):
        dash = dashboard(case["set"], case["width"])
        e, trip, log = make(case["spec"], [dash], case["scale"])
        model = Model(e.physical_system.tau)
        model.t0_ok = False
        try:
            drive(e, trip, log, dash, seq, model, rec, hist)
            dash.force_render()
        except Exception as ex:
            rec.expect(False, "the visualisation raises: " + repr(ex)[:150], hist="".join(hist))
            return
        rec.trace()
        rec.state(case["set"], tuple(len(x[1]) for x in model.steps), model.red, model.blue, len(model.episodes), len(model.viol))
        check(rec, e, dash, case["set"], model, case["width"], case["scale"], hist)


def long(case, rec):
    for width in (2, 4, 7, 100):
        for i, seq in enumerate(("s" * 3 + "d" + "s" * 6, "ssvd" * 3 + "s", "sssrsd" * 2, "d" + "s" * 9 + "v", "svfsd" + "ssvs")):
            one(dict(case, width=width), rec, seq, real=(i, width) == (4, 4))


def passive(case, rec):
    """every history with and without the visualisations"""
    choices = [("none", lambda: ()), ("all", lambda: [dashboard("time", 5)]), ("mix fig", lambda: [dashboard("mix", 4, mode=RenderMode.Figure)]),
               ("two", lambda: [dashboard("some", 4), dashboard("epi", 4)]), ("once", lambda: dashboard("mix", 4, mode=RenderMode.FigureOnce)),
               ("console2", lambda: [ConsolePrinter(verbose=2)]), ("console1", lambda: ConsolePrinter(verbose=1)), ("class", lambda: [ConsolePrinter]), ("None", lambda: None),
               ("interval", lambda: [dashboard("mix", 4, interval=3)])]
    runs = {}
    for name, mk in choices:
        for scale in (False, True):
            with drawing(False), contextlib.redirect_stdout(io.StringIO()):
                v = mk()
                e, trip, log = make(case["spec"], v, scale)
                acts = envs.actions(e, 3)
                out = []
                for si, seq in enumerate(itertools.product("svrd", repeat=case["depth"] if name in ("none", "console2", "console1") else 3)):
                    np.random.seed(si)
                    tr = [envs.flat(e.reset(seed=si))]
                    done = False
                    for i, op in enumerate(seq):
                        if op in "sv":
                            if done:
                                tr.append(envs.flat(e.reset()))
                            trip.on = op == "v"
                            tr.append(envs.flat(e.step(acts[i % len(acts)])))
                            done = tr[-1][4]
                            rec.trans()
                        elif op == "r":
                            tr.append(envs.flat(e.reset()))
                            done = False
                        else:
                            e.render()
                    tr.append(np.random.get_state()[1][:5].tolist() + [np.random.get_state()[2]])
                    out.append((seq, tr))
                    rec.trace()
                e.close()
            if name == "none" and not scale:
                # references for both depths
                runs[case["depth"]] = {i: t for i, t in enumerate(out)}
                with drawing(False):
                    e2, trip, log = make(case["spec"], (), False)
                    ref = []
                    for si, seq in enumerate(itertools.product("svrd", repeat=3)):
                        np.random.seed(si)
                        tr = [envs.flat(e2.reset(seed=si))]
                        done = False
                        for i, op in enumerate(seq):
                            if op in "sv":
                                if done:
                                    tr.append(envs.flat(e2.reset()))
                                trip.on = op == "v"
                                tr.append(envs.flat(e2.step(acts[i % len(acts)])))
                                done = tr[-1][4]
                            elif op == "r":
                                tr.append(envs.flat(e2.reset()))
                                done = False
                        tr.append(np.random.get_state()[1][:5].tolist() + [np.random.get_state()[2]])
                        ref.append((seq, tr))
                    runs[3] = {i: t for i, t in enumerate(ref)}
            else:
                base = runs[len(out[0][0])]
                for i, t in enumerate(out):
                    rec.same(t[1], base[i][1], "the outputs with visualisation", visu=name, scale=scale, seq="".join(t[0]))


def modes(case, rec):
    """what is drawn when: on demand, by itself in every update interval, or once when the environment is closed"""
    mode = dict(none=None, figure=RenderMode.Figure, once=RenderMode.FigureOnce)[case["mode"]]
    for seq in itertools.product("svrd", repeat=case["depth"]):
        with drawing(False):
            dash = dashboard("mix", 3, mode=mode, interval=case["interval"])
            e, trip, log = make(case["spec"], [dash], False)
            model, shown, due, opened = Model(e.physical_system.tau), None, False, False
            hist = []

            def draw():
                nonlocal shown, due, opened
                opened = True
                if due:
                    shown, due = copy.deepcopy(model), False

            for op in [None] + list(seq):
                n = len(model.steps)
                if op is None:
                    e.reset()
                    model.reset()
                    model.t0_ok = done = False
                else:
                    if op in "sv" and done:
                        e.reset()
                        model.reset()
                        done = False
                    hist.append(op)
                    if op in "sv":
                        trip.on = op == "v"
                        a = envs.actions(e, 3)[n % 3]
                        done = e.step(a)[2]
                        rec.trans()
                        model.step(a, *log.last, done)
                        due = due or (n + 1) % case["interval"] == 0
                        if case["mode"] == "figure":
                            draw()
                    elif op == "r":
                        e.reset()
                        model.reset()
                        done = False
                    else:
                        e.render()
                        draw()
                rec.expect(bool(plt.get_fignums()) == opened, "figures are opened by a rendering only", got=plt.get_fignums(), want=opened, hist="".join(hist))
                if shown is not None:
                    check(rec, e, dash, "mix", shown, 3, False, hist)
            e.close()
            if case["mode"] == "once":
                draw()
                hist.append("(close)")
                rec.expect(bool(plt.get_fignums()), "a figure is shown once at the end", hist="".join(hist))
                if shown is not None:
                    check(rec, e, dash, "mix", shown, 3, False, hist)
            rec.trace()
            rec.state(case["mode"], case["interval"], len(model.steps), due, opened, shown and len(shown.steps))


LINE = re.compile(r"Episode (\d+)\s+(Constraint Violation!|External Reset\.)\s+Number of steps:\s*(\d+)\s+Cumulative Reward:\s*([-\d.]+|nan)")
STEP = re.compile(r"Episode (\d+) Step\s+(\d+) State \[(.*?)\] Reference \[(.*?)\] Reward\s+([-\d.]+|nan) Cumulative Reward\s+([-\d.]+|nan)", re.S)


def console(case, rec):
    v = case["verbose"]
    for seq in itertools.product("svrd", repeat=case["depth"]):
        cp = ConsolePrinter(verbose=v, update_freq=case["freq"])
        e, trip, log = make("permex", [cp])
        acts = envs.actions(e, 3)
        lim = e.physical_system.limits
        buf = io.StringIO()
        hist = []
        with contextlib.redirect_stdout(buf):
            e.reset(seed=1)
            ep = dict(n=0, sum=0.0, done=False)
            finished, done, count = None, False, 0
            fresh = True
            for i, op in enumerate(seq):
                hist.append(op)
                kw = dict(hist="".join(hist))
                if op == "r" or (op in "sv" and done):
                    e.reset()
                    finished, ep, done = ep, dict(n=0, sum=0.0, done=False), False
                    count += 1
                    fresh = True
                if op in "sv":
                    trip.on = op == "v"
                    done = e.step(acts[i % len(acts)])[2]
                    ep["n"] += 1
                    ep["sum"] += log.last[2]
                    ep["done"] = done
                    rec.trans()
                if op == "d":
                    buf.seek(0)
                    buf.truncate()
                    e.render()
                    text = buf.getvalue()
                    ls = LINE.findall(text)
                    sts = STEP.findall(text)
                    if v == 0:
                        rec.expect(text == "", "output without verbosity", got=text, **kw)
                    elif fresh and finished is not None:
                        ok = len(ls) == 1
                        if ok:
                            want = ("Constraint Violation!" if finished["done"] else "External Reset.", finished["n"], finished["sum"])
                            ok = ls[0][1] == want[0] and int(ls[0][2]) == want[1] and abs(float(ls[0][3]) - want[2]) <= 6e-4
                            rec.expect(ok, "summary of the finished episode", got=ls[0], want=want, **kw)
                        else:
                            rec.expect(False, "one summary per finished episode", got=text[:200], **kw)
                    elif not fresh:
                        rec.expect(not ls, "summary although no episode ended", got=text[:200], **kw)
                    fresh = False
                    if v == 2 and ep["n"] % case["freq"] == 0 and ep["n"]:
                        if rec.expect(len(sts) == 1, "one line per printed step", got=text[:300], **kw):
                            _, k, s, r, rew, cum = sts[0]
                            gs, gr = np.array(s.split(), float), np.array(r.split(), float)
                            ws, wr = log.last[0] * lim, log.last[1] * lim
                            ok = int(k) == ep["n"] and np.all(np.abs(gs - ws) <= 6e-4) and np.all(np.abs(gr - wr) <= 6e-4) and abs(float(rew) - log.last[2]) <= 6e-4
                            rec.expect(ok and abs(float(cum) - ep["sum"]) <= 6e-4, "printed step", got=sts[0], want=[ep["n"], ws, wr, log.last[2], ep["sum"]], **kw)
                    elif v == 2 and ep["n"] % case["freq"]:
                        rec.expect(not sts, "a step between the update steps is printed", got=text[:200], **kw)
                    elif v == 1:
                        rec.expect(not sts, "steps are printed at verbosity 1", got=text[:200], **kw)
        rec.trace()
        rec.state(tuple(seq), v, count)


def run(case, rec):
    globals()[case["kind"]](case, rec)
