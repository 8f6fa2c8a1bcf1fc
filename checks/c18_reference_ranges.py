"""C18: references stay inside their announced range and follow their announced shape."""
import itertools
import math

import numpy as np

from gym_electric_motor import reference_generators as rgs

from gemmc import build, envs, script

ID = "C18"
LEVEL = "model_checking"
RULE = ("every generator x state (bipolar, unipolar) x margin form x range configuration x every outcome of the first random draws of a lattice with the extreme values "
        "(lengths, amplitudes, frequencies, offsets, phases, increments, choices), through several sub-episodes and a reset in between: every reference is inside margin and "
        "space; and the trajectory can be cut into sub-episodes of admissible length each of which is an admissible waveform (sinusoid, sawtooth, triangle, two level signal, "
        "bounded increments, constant), decided by an exhaustive search over all cuts")
ASSUMPTIONS = ["draws after the enumerated ones take their middle outcome", "custom limit margins given as a tuple are factors of the lower and the upper bound of the state space"]

KINDS = ("wiener", "laplace", "sinus", "step", "saw", "triangle")
STATES = dict(bi=("PermExDc", ["4QC", 0.0], "i"), uni=("PermExDc", ["1QC", 0.0], "omega"), sync=("PMSM", None, "torque"), ind=("SCIM", None, "i_sq"), ser=("SeriesDc", ["2QC", 0.0], "i"))
MARGINS = dict(none=None, num=0.6, one=1.0, tup=(0.3, 0.8), full=(1.0, 1.0), lo=(1.0, 0.05))
WAVES = dict(default={}, wide=dict(amplitude_range=(0.0, 5.0), offset_range=(-5.0, 5.0), frequency_range=(1.0, 3000.0)),
             narrow=dict(amplitude_range=(0.05, 0.1), offset_range=(-0.02, 0.02), frequency_range=(300.0, 400.0)),
             big=dict(amplitude_range=(0.5, 0.9), offset_range=(0.4, 0.6), frequency_range=(900.0, 1000.0)),
             zero=dict(amplitude_range=(0.0, 0.0), offset_range=(0.1, 0.2), frequency_range=(50.0, 60.0)))
PROCS = dict(default={}, coarse=dict(sigma_range=(0.3, 3.0)), fine=dict(sigma_range=(1e-5, 1e-4)), init=dict(sigma_range=(1e-2, 1e-1), initial_range=(0.1, 0.2)))


def cases(tier):
    th = tier == "thorough"
    out = []
    for k in KINDS:
        for st in STATES:
            for mg in MARGINS:
                for cfg in (PROCS if k in ("wiener", "laplace") else WAVES):
                    if k == "laplace" and cfg == "init":
                        continue
                    out.append(dict(what="range", kind=k, state=st, margin=mg, cfg=cfg, limit=6 if th else 4, lens=[3, 6]))
    for k in KINDS:
        for lens in ([8, 8], [5, 11], [12, 15]) + (([20, 40],) if th else ()):
            for st in (("bi", "uni", "sync") if th else ("bi", "uni")):
                out.append(dict(what="shape", kind=k, state=st, lens=lens, limit=6 if th else 5))
    for k in ("saw", "triangle", "step", "sinus"):
        for a in (0.1, 0.45):
            for f in (200.0, 500.0, 1000.0):
                for o in (0.0, -0.3, 0.25):
                    out.append(dict(what="fixed", kind=k, a=a, f=f, o=o))
    for k in ("sinus", "saw", "triangle"):
        for st in STATES:
            for mg in MARGINS:
                for cfg in ("default", "wide"):
                    out.append(dict(what="whole", kind=k, state=st, margin=mg, cfg=cfg, limit=5 if th else 4))
    for n, p in ((2, None), (3, None), (3, [0.5, 0.0, 0.5]), (2, [1.0, 0.0]), (1, None)):
        for sl in ([2, 4], [3, 4], [1, 3], [4, 8], 3):
            out.append(dict(what="switched", n=n, p=p, len=sl, limit=8 if th else 7))
    for k in KINDS:
        out.append(dict(what="initial", kind=k))
    for st in STATES:
        for ln in (4, 7):
            out.append(dict(what="lengths", state=st, length=ln))
    return out


def make(case, **kw):
    m, conv, st = STATES[case["state"]]
    s = envs.spec(m, False, **({"conv": conv} if conv else {}))
    ps = envs.physical_system(s)
    rg = envs.GEN[case["kind"]](reference_state=st, **kw)
    rg.set_modules(ps)
    return ps, st, rg


def bounds(ps, st, margin):
    i = list(ps.state_names).index(st)
    lo, hi = float(ps.state_space.low[i]), float(ps.state_space.high[i])
    if margin is None:
        q = float(ps.nominal_state[i]) / float(ps.limits[i])
        return q * lo, q * hi
    if isinstance(margin, tuple):
        return margin[0] * lo, margin[1] * hi
    return margin * lo, margin * hi


def trajectory(rg, steps, resets=()):
    """what the agent is shown: list of episodes"""
    state = np.zeros(rg.referenced_states.shape if rg.referenced_states is not None else 1)
    eps = []
    ref0, obs, _ = rg.reset(state)
    eps.append([float(obs[0])])
    first = [ref0]
    for k in range(steps):
        if k in resets:
            ref0, obs, _ = rg.reset(state)
            first.append(ref0)
            eps.append([float(obs[0])])
            continue
        rg.get_reference(state)
        obs = rg.get_reference_observation(state)
        eps[-1].append(float(obs[0]))
    return eps, first


def run_range(case, rec):
    cfg = dict((PROCS if case["kind"] in ("wiener", "laplace") else WAVES)[case["cfg"]])
    margin = MARGINS[case["margin"]]
    if margin is not None:
        cfg["limit_margin"] = margin
    ps, st, rg = make(case, episode_lengths=tuple(case["lens"]), **cfg)
    lo, hi = bounds(ps, st, margin)
    rec.close([rg.reference_space.low[0], rg.reference_space.high[0]], [lo, hi], "announced reference space", rtol=1e-12, atol=1e-12)
    rec.expect(rg.reference_space.shape == (1,), "shape of the reference space")
    i = list(ps.state_names).index(st)

    def play(tape):
        rg.seed(np.random.SeedSequence(5))
        eps, first = trajectory(rg, 13, resets=(7,))
        for ep, f0 in zip(eps, first):
            for k, v in enumerate(ep):
                if not lo - 1e-12 <= v <= hi + 1e-12:
                    rec.fail("reference outside its margin", value=v, margin=(lo, hi), step=k, draws=tape.draws[:12])
                rec.states.add(hash((case["kind"], case["state"], v)))
                rec.trans()
            if not all(f0[j] == 0.0 for j in range(len(f0)) if j != i):
                rec.fail("initial reference of another state", got=f0)
            if case["cfg"] == "init":
                continue  # a configured initial range may exceed the margin of the references
            # the reference at the reset is an admissible one if zero is (zero is the documented default)
            if not min(lo, 0.0) - 1e-12 <= f0[i] <= max(hi, 0.0) + 1e-12:
                rec.fail("initial reference outside the margin", got=f0[i], margin=(lo, hi))
        if case["kind"] == "wiener" and case["cfg"] == "init":
            for f0 in first:
                rec.expect(0.1 - 1e-12 <= f0[i] <= 0.2 + 1e-12, "initial value of a Wiener reference outside the initial range", got=f0[i])
        rec.trace()

    n = script.explore(play, limit=case["limit"])
    rec.sample(dict(margin=(lo, hi), executions=n))


def run_initial(case, rec):
    """the reference of a reset is the one passed to it, otherwise zero, also through combined and switched generators"""
    ps = envs.physical_system(envs.spec("PermExDc", False))
    names = list(ps.state_names)
    r0s = [None] + [np.array([(-1) ** (j + q) * (0.1 + 0.07 * j + 0.2 * q) for j in range(len(names))]) for q in (0, 1)]
    s0s = [np.zeros(len(names)), np.array([0.5 - 0.2 * j for j in range(len(names))])]

    def gen(k, st, **kw):
        return envs.GEN[k](reference_state=st, episode_lengths=(3, 6), **kw)

    for other in KINDS:
        for how in ("plain", "first", "second", "switched"):
            a = gen(case["kind"], "i")
            b = gen(other, "omega") if how in ("first", "second") else gen(other, "i")
            g = (a if how == "plain" else rgs.MultipleReferenceGenerator([a, b] if how == "first" else [b, a]) if how != "switched" else rgs.SwitchedReferenceGenerator([a, b], super_episode_length=(2, 4)))
            g.set_modules(ps)
            own = ["i", "omega"] if how in ("first", "second") else ["i"]
            for seed in range(3):
                g.seed(np.random.SeedSequence(seed))
                for r0, s0, k in itertools.product(r0s, s0s, (0, 5)):
                    f0, obs, _ = g.reset(s0.copy(), None if r0 is None else r0.copy())
                    want = np.array([0.0 if r0 is None or n not in own else r0[j] for j, n in enumerate(names)])
                    if r0 is None:
                        # a Wiener process starts at a random value of its initial range
                        for n, kk in zip(own, (case["kind"], other)):
                            if kk == "wiener" or how == "switched" and "wiener" in (other, case["kind"]):
                                want[names.index(n)] = f0[names.index(n)]
                                rec.expect(-1 <= f0[names.index(n)] <= 1, "initial reference inside the state space", got=f0)
                    rec.close(f0, want, "reference of a reset", rtol=0, atol=1e-12, how=how, other=other, given=r0, state=s0)
                    for _ in range(k):
                        g.get_reference(s0)
                        g.get_reference_observation(s0)
                    rec.trans()
                    rec.state(how, other, np.round(obs, 9))
                rec.trace()


# ---- shapes -----------------------------------------------------------------------------------------------------
def fit_sinus(x, a, f, o, tau, margin):
    """can x be a sinusoid with parameters inside the given ranges?"""
    x = np.asarray(x)
    n = len(x)
    if n < 6:
        return True
    d = np.diff(x)
    den = float(np.dot(d[1:-1], d[1:-1]))
    if den < 1e-18:
        return bool(np.max(np.abs(d)) < 1e-9) and a[0] <= 1e-9
    c = float(np.dot(d[1:-1], d[2:] + d[:-2])) / den / 2
    if np.max(np.abs(d[2:] + d[:-2] - 2 * c * d[1:-1])) > 1e-7:
        return False
    if not -1 <= c <= 1:
        return False
    th = math.acos(c)
    t = np.arange(n)
    if th < 1e-6:
        return True
    A = np.stack([np.sin(th * t), np.cos(th * t), np.ones(n)], axis=1)
    co, *_ = np.linalg.lstsq(A, x, rcond=None)
    if np.max(np.abs(A @ co - x)) > 1e-7:
        return False
    amp, off, fr = math.hypot(co[0], co[1]), co[2], th / (2 * math.pi * tau)
    e = 1e-5
    return a[0] - e <= amp <= a[1] + e and f[0] * (1 - e) <= fr <= f[1] * (1 + e) and o[0] - e <= off <= o[1] + e


def fit_levels(x, a, f, o, tau, margin):
    """two levels offset +- amplitude (the middle one only in single samples)"""
    lv = sorted(set(round(v, 9) for v in x))
    if len(lv) == 1:
        return o[0] - a[1] - 1e-9 <= lv[0] <= o[1] + a[1] + 1e-9
    if len(lv) == 3:
        mid = [v for v in lv[1:2]]
        if abs(mid[0] - (lv[0] + lv[2]) / 2) > 1e-8:
            return False
        lv = [lv[0], lv[2]]
    if len(lv) > 2:
        return False
    amp, off = (lv[1] - lv[0]) / 2, (lv[1] + lv[0]) / 2
    e = 1e-8
    # a sample exactly on the edge takes the middle level: then one level is the offset itself
    return any(a[0] - e <= A <= a[1] + e and o[0] - e <= O <= o[1] + e for A, O in ((amp, off), (2 * amp, lv[0]), (2 * amp, lv[1])))


def fit_saw(x, a, f, o, tau, margin, sym=False):
    """piecewise linear with constant slopes inside the band, at most the slopes of the frequency range"""
    x = np.asarray(x)
    if np.max(x) > o[1] + a[1] + 1e-9 or np.min(x) < o[0] - a[1] - 1e-9:
        return False
    d = np.diff(x)
    if sym:
        return True
    # sawtooth: rising with 2 A f tau per sample except for the jumps
    up = d[d > 1e-12]
    if len(up) == 0:
        return len(d) <= 1 or a[0] == 0
    s = float(np.max(up)) if f[1] * tau < 0.5 else None
    if s is None:
        return True
    if np.any(np.abs(up - s) > 1e-9):
        return False
    amp_f = s / (2 * tau)
    return a[0] * f[0] * (1 - 1e-6) <= amp_f <= a[1] * f[1] * (1 + 1e-6)


def fit_proc(x, prev, sig, margin):
    """increments 3 sigma, 0 or -3 sigma with one sigma of the range, clipped at the margin"""
    s = None
    p = prev
    for v in x:
        d = abs(v - p)
        at = abs(v - margin[0]) < 1e-12 or abs(v - margin[1]) < 1e-12
        if d > 3 * sig[1] * (1 + 1e-9):
            return False
        if d > 1e-15 and not at:
            if d < 3 * sig[0] * (1 - 1e-9):
                return False
            if s is None:
                s = d
            elif abs(d - s) > 1e-9:
                return False
        p = v
    return True


SHAPE = dict(amplitude_range=(0.1, 0.3), offset_range=(0.35, 0.45), frequency_range=(300.0, 900.0))
SIGMA = (1e-2, 1e-1)


def cut(ep, lo, hi, ok):
    """is there a cut of the episode into sub-episodes of lo..hi samples (the last may be unfinished), each accepted by ok(start, end)?"""
    n = len(ep)
    reach = {0}
    memo = {}
    for s in range(n):
        if s not in reach:
            continue
        for ln in range(lo, hi + 1):
            e = min(s + ln, n)
            if e in reach and e < n:
                continue
            if (s, e) not in memo:
                memo[(s, e)] = ok(s, e)
            if memo[(s, e)]:
                reach.add(e)
    return n in reach


def run_shape(case, rec):
    k = case["kind"]
    proc = k in ("wiener", "laplace")
    lens = case["lens"]
    cfg = dict(sigma_range=SIGMA) if proc else dict(SHAPE)
    ps, st, rg = make(case, episode_lengths=tuple(lens) if lens[0] != lens[1] else lens[0], limit_margin=0.8, **cfg)
    lo, hi = bounds(ps, st, 0.8)
    i = list(ps.state_names).index(st)
    a, f, o = SHAPE["amplitude_range"], SHAPE["frequency_range"], SHAPE["offset_range"]
    tau = ps.tau

    def play(tape):
        rg.seed(np.random.SeedSequence(5))
        eps, first = trajectory(rg, 3 * lens[1] + 3, resets=(lens[1] + 3,))
        for ep, f0 in zip(eps, first):
            if proc:
                ok = lambda s, e: fit_proc(ep[s:e], ep[s - 1] if s else float(f0[i]), SIGMA, (lo, hi))
            elif k == "sinus":
                ok = lambda s, e: fit_sinus(ep[s:e], a, f, o, tau, (lo, hi))
            elif k == "step":
                ok = lambda s, e: fit_levels(ep[s:e], a, f, o, tau, (lo, hi))
            else:
                ok = lambda s, e: fit_saw(ep[s:e], a, f, o, tau, (lo, hi), k == "triangle")
            if not cut(ep, lens[0], lens[1], ok):
                rec.fail("trajectory is no sequence of admissible sub-episodes", kind=k, episode=ep, draws=tape.draws[:20])
            rec.trans(len(ep))
            rec.states.add(hash((k, case["state"], tuple(ep))))
        rec.trace()

    # asymmetries of the triangle within rounding errors of one are a numerical corner of scipy.signal.sawtooth
    script.explore(play, limit=case["limit"], u=(0.0, 0.5, script.TOP if k != "triangle" else 0.999))
    rec.sample(dict(kind=k, lengths=lens))


def run_fixed(case, rec):
    """fixed parameters, long sub-episode, all phases: amplitude, offset and period are seen exactly"""
    k, A, f, O = case["kind"], case["a"], case["f"], case["o"]
    tau = 1e-4
    P = int(round(1 / (f * tau)))
    n = 4 * P + 3
    c = dict(case, state="bi")
    ps, st, rg = make(c, episode_lengths=(n, n + 2), limit_margin=0.9, amplitude_range=(A, A), frequency_range=(f, f), offset_range=(O, O))
    assert abs(ps.tau - tau) < 1e-12

    def play(tape):
        rg.seed(np.random.SeedSequence(5))
        eps, _ = trajectory(rg, n - 2)
        x = np.array(eps[0])
        rec.states.add(hash((k, x.tobytes())))
        rec.trace()
        rec.trans(len(x))
        bad = lambda what, **d: rec.fail(what, kind=k, amplitude=A, frequency=f, offset=O, x=x[: 2 * P], draws=tape.draws[:8], **d)
        if np.max(x) > O + A + 1e-9 or np.min(x) < O - A - 1e-9:
            bad("waveform leaves offset +- amplitude")
        if k == "step":
            # a two level signal; duty cycle and phase are random, the wave is rolled over the end of the sub-episode
            lv = np.unique(np.round(x - O, 9))
            if not all(min(abs(v - A), abs(v + A), abs(v)) < 1e-8 for v in lv):
                bad("step waveform has other levels than offset +- amplitude", levels=lv)
            return
        if np.max(np.abs(x[P:] - x[:-P])) > 1e-6 and not (k in ("saw", "triangle") and np.sum(np.abs(x[P:] - x[:-P]) > 1e-6) <= 4):
            bad("waveform is not periodic with the configured frequency", period=P)
        if k == "sinus" and not fit_sinus(x, (A, A), (f, f), (O, O), tau, None):
            bad("no sinusoid with the configured parameters")
        if k == "saw":
            d = np.diff(x[:P + 1])
            up = d > 0
            if not 1 <= np.sum(~up) <= 2 or np.max(np.abs(d[up] - 2 * A * f * tau)) > 1e-9:
                bad("sawtooth does not rise with its slope and fall once in a period")
        if k == "triangle":
            d = np.diff(x[:P + 1])
            slopes = np.unique(np.round(d, 9))
            # a rising and a falling slope (and the samples at the two corners); with width w: 2A/(w P) and -2A/((1-w) P)
            up, down = d[d > 1e-12], d[d < -1e-12]
            if len(up) == 0 or len(down) == 0 or len(slopes) > 4:
                bad("no triangle", slopes=slopes)
            elif len(up) > 2 and len(down) > 2:
                w = 2 * A / (np.max(up) * P)
                if abs(2 * A / ((1 - w) * P) + np.min(down)) > 1e-6 * P:
                    bad("slopes of the triangle do not belong to its amplitude and period", slopes=slopes)

    script.explore(play, limit=5, u=(0.0, 0.13, 0.25, 0.5, 0.77, script.TOP) if k != "triangle" else (0.0, 0.3, 0.5, 0.8))
    rec.sample(dict(kind=k, amplitude=A, frequency=f, offset=O))


def run_whole(case, rec):
    """without (or with too wide) amplitude and offset ranges the waveforms still fit between the margins: none of them is cut off there"""
    k, margin = case["kind"], MARGINS[case["margin"]]
    cfg = dict(amplitude_range=(0.0, 5.0), offset_range=(-5.0, 5.0)) if case["cfg"] == "wide" else {}
    if margin is not None:
        cfg["limit_margin"] = margin
    n = 26
    ps, st, rg = make(case, episode_lengths=n, frequency_range=(300.0, 900.0), **cfg)
    lo, hi = bounds(ps, st, margin)
    top = set()

    def play(tape):
        rg.seed(np.random.SeedSequence(5))
        eps, _ = trajectory(rg, n - 1)
        x = np.array(eps[0])
        width = float(np.max(x) - np.min(x))
        rec.trans(len(x))
        rec.states.add(hash((k, case["state"], case["margin"], x.tobytes())))
        rec.trace()
        top.add(width)
        if width < 1e-9:
            return
        if k == "sinus":
            ok = fit_sinus(x, (0.0, (hi - lo) / 2), (300.0, 900.0), (lo, hi), ps.tau, (lo, hi))
        else:
            flat = np.abs(np.diff(x)) < 1e-9 * width
            ok = not np.any(flat[1:] & flat[:-1])
        if not ok:
            rec.fail("waveform is cut off at the margin", kind=k, x=x, margin=(lo, hi), draws=tape.draws[:8])

    script.explore(play, limit=case["limit"], u=(0.0, 0.5, script.TOP if k != "triangle" else 0.999))
    rec.expect(max(top) > 0.7 * (hi - lo), "amplitudes up to half of the admissible range occur", got=max(top), want=hi - lo)
    rec.sample(dict(case=case, widths=[min(top), max(top)]))


def run_switched(case, rec):
    vals = [0.1, 0.2, 0.3][: case["n"]]
    kw = dict(p=list(case["p"])) if case["p"] else {}
    ref = dict(kind="switched", super_episode_length=case["len"], subs=[dict(kind="const", state="i", reference_value=v) for v in vals], **kw)
    ps = envs.physical_system(envs.spec("PermExDc", False))
    rg = envs.generator(ref)
    rg.set_modules(ps)
    lo, hi = case["len"] if isinstance(case["len"], list) else (case["len"], case["len"] + 1)
    allowed = [v for i, v in enumerate(vals) if not case["p"] or case["p"][i] > 0]
    rec.close([rg.reference_space.low[0], rg.reference_space.high[0]], [vals[0], vals[-1]], "reference space of a switched generator", rtol=0, atol=1e-12)
    seen = set()

    def play(tape):
        rg.seed(np.random.SeedSequence(5))
        eps, _ = trajectory(rg, 3 * hi + 3, resets=(hi + 2,))
        for ep in eps:
            if not set(ep) <= set(allowed):
                rec.fail("a sub generator with probability zero was used", got=ep)
            if not cut(ep, lo, hi, lambda s, e: len(set(ep[s:e])) == 1):
                rec.fail("a sub generator is not used for an admissible number of steps", episode=ep, lengths=case["len"])
            seen.update(ep)
            rec.states.add(hash(("sw", case["n"], str(case["p"]), tuple(ep))))
            rec.trans(len(ep))
        rec.trace()

    script.explore(play, limit=case["limit"])
    rec.expect(seen == set(allowed), "every sub generator with positive probability can be chosen", got=seen, want=allowed)
    rec.sample(dict(sub_generators=allowed, lengths=case["len"]))


def run_lengths(case, rec):
    """fixed sub-episode lengths: the parameters change exactly after this many steps"""
    for kind in ("sinus", "saw", "triangle"):
        c = dict(case, kind=kind)
        ps, st, rg = make(c, episode_lengths=case["length"], limit_margin=1.0, amplitude_range=(0.0, 0.0), offset_range=(0.1, 0.9), frequency_range=(10.0, 20.0))
        changes = set()

        def play(tape):
            rg.seed(np.random.SeedSequence(5))
            eps, _ = trajectory(rg, 4 * case["length"])
            x = eps[0]
            for k in range(1, len(x)):
                if abs(x[k] - x[k - 1]) > 1e-9:
                    changes.add(k)
                    if k % case["length"]:
                        rec.fail("offset changes inside a sub-episode", kind=kind, step=k, length=case["length"], x=x)
            rec.trace()
            rec.trans(len(x))
            rec.states.add(hash((kind, case["state"], tuple(x))))

        script.explore(play, limit=8, u=(0.0, script.TOP))
        rec.expect(case["length"] in changes, "new parameters are drawn after the sub-episode", kind=kind, got=sorted(changes))
    rec.sample(dict(length=case["length"], changes=sorted(changes)))


def run(case, rec):
    dict(range=run_range, shape=run_shape, fixed=run_fixed, whole=run_whole, switched=run_switched, lengths=run_lengths, initial=run_initial)[case["what"]](case, rec)
