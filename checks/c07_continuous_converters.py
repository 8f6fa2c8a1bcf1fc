"""C07: continuous (averaged) converters: duty cycle -> voltage / supply current, saturation, blanking, no memory."""
import itertools

import numpy as np
from gym_electric_motor.physical_systems import converters as cv

ID = "C07"
LEVEL = "model_checking"
RULE = ("all action sequences over a duty cycle lattice (including the bounds and values beyond them) x current sign "
        "patterns x blanking fractions x sampling times, replayed on the real converter in lockstep with the averaged "
        "converter model; states = (converter, blanking, duty cycle, current signs)")
ASSUMPTIONS = ["duty cycles and currents on a finite lattice (the model is piecewise linear between lattice points)"]

CLS = {"1QC": cv.ContOneQuadrantConverter, "2QC": cv.ContTwoQuadrantConverter, "4QC": cv.ContFourQuadrantConverter,
       "B6": cv.ContB6BridgeConverter}
NA = {"1QC": 1, "2QC": 1, "4QC": 1, "B6": 3}


def sgn(x):
    return (x > 0) - (x < 0)


def clip(x, lo, hi):
    return max(lo, min(hi, x))


def leg(a, i, f):
    """averaged half bridge with duty cycle a, blanking fraction f of the sampling time"""
    return clip(clip(a, 0, 1) - sgn(i) * f, 0.0, 1.0)


def leg_sup(a, i, f):
    """an ideal half bridge takes the power from its supply that it delivers"""
    return leg(a, i, f) * i


def model(kind, a, i, f):
    if kind == "1QC":
        d = clip(a[0], 0, 1)
        return [d if i[0] >= 0 else 1.0], d * i[0]
    if kind == "2QC":
        return [leg(a[0], i[0], f)], leg_sup(a[0], i[0], f)
    if kind == "4QC":
        d = 0.5 * (clip(a[0], -1, 1) + 1)
        return ([leg(d, i[0], f) - leg(1 - d, -i[0], f)], leg_sup(d, i[0], f) + leg_sup(1 - d, -i[0], f))
    ds = [0.5 * (clip(x, -1, 1) + 1) for x in a]
    return [leg(d, x, f) - 0.5 for d, x in zip(ds, i)], sum(leg_sup(d, x, f) for d, x in zip(ds, i))


def cases(tier):
    th = tier == "thorough"
    out = []
    for tau in (1e-4, 2.5e-5):
        for setter in (False, True):
            for f in (0.0, 0.05, 0.25):
                for kind in ("1QC", "2QC", "4QC", "B6"):
                    for fa in range(9 if th or kind == "B6" else 1):
                        out.append(dict(kind=kind, tau=tau, setter=setter, f=f, depth=3 if th and kind != "B6" else 2,
                                        slice=fa if th or kind == "B6" else -1))
                for pair in itertools.product(("1QC", "2QC", "4QC"), repeat=2):
                    out.append(dict(kind="Multi", subs=list(pair), tau=tau, setter=setter, f=f, depth=2 if th else 1,
                                    slice=-1))
                for pair in (("B6", "4QC"), ("B6", "B6"), ("2QC", "B6")):
                    out.append(dict(kind="Multi", subs=list(pair), tau=tau, setter=setter, f=f, depth=1, slice=-1))
    return out


def run(case, rec):
    tau, f, kind = case["tau"], case["f"], case["kind"]
    tau0 = 13 * tau if case["setter"] else tau
    subs = case.get("subs") or [kind]
    if kind == "Multi":
        conv = cv.ContMultiConverter([CLS[s](tau=tau0, interlocking_time=f * tau) for s in subs], tau=tau0)
    else:
        conv = CLS[kind](tau=tau0, interlocking_time=f * tau)
    if case["setter"]:
        conv.tau = tau
    lows = [0.0 if s in ("1QC", "2QC") else -1.0 for s in subs for _ in range(NA[s])]
    rec.close(conv.action_space.low, lows, "action space lower bound")
    rec.close(conv.action_space.high, [1.0] * len(lows), "action space upper bound")
    n = len(lows)
    lat = [-1.5, -1.0, -0.6, 0.0, 0.03, 0.5, 0.97, 1.0, 1.25]
    if n == 1:
        acts = [[x] for x in lat]
        curs = [[x] for x in (-2.5, 0.0, 1.5)]
    elif n <= 3:
        acts = [list(x) for x in itertools.product(lat[1:8:2] + [0.0, 1.5], repeat=n)]
        curs = [list(x) for x in itertools.product((-2.5, 0.0, 1.5), repeat=n)]
    else:
        acts = [list(x) for x in itertools.product((-1.0, 0.3, 1.25), repeat=n)]
        curs = [[-2.5, 1.0, 1.5, -0.5, 0.75, -0.25][:n], [2.5, -1.0, -1.5, 0.5, -0.75, 0.25][:n], [0.0] * n]
    ncur = {s: (3 if s == "B6" else 1) for s in subs}
    first = acts if case["slice"] < 0 else acts[case["slice"]::9]
    rest = acts if len(acts) <= 40 else acts[::37]
    for seq in itertools.product(first, *([rest] * (case["depth"] - 1))):
        conv.reset()
        for k, a in enumerate(seq):
            t = k * tau
            times = conv.set_action(np.array(a), t)
            rec.close(times, [t + tau], "switching times of an averaged converter", rtol=1e-9, atol=1e-12)
            last = k == len(seq) - 1
            for i in curs if last else curs[:1]:
                u = [float(np.asarray(x).squeeze()) for x in conv.convert(list(i), t)]
                isup = float(np.asarray(conv.i_sup(list(i))).squeeze())
                wu, wi, pa, pi, ideal4 = [], 0.0, 0, 0, []
                for s in subs:
                    uu, ii = model(s, a[pa:pa + NA[s]], i[pi:pi + ncur[s]], f)
                    if s == "4QC" and f > 0 and i[pi] != 0:
                        ideal4.append(len(wu))
                        # voltages when the blanking of both half bridges is taken with the same current sign
                        d = 0.5 * (clip(a[pa], -1, 1) + 1)
                        alt = leg(d, i[pi], f) - leg(1 - d, i[pi], f)
                    wu += uu
                    wi += ii
                    pa += NA[s]
                    pi += ncur[s]
                for j, (x, y) in enumerate(zip(u, wu)):
                    if not abs(x - y) <= 1e-9:
                        d = None
                        if j in ideal4:
                            # recorded finding: both half bridges use the sign of the same current
                            pp = [sum(NA[s] for s in subs[:m]) for m in range(len(subs))]
                            m = [q for q, s in enumerate(subs) if s == "4QC" and sum(ncur[z] for z in subs[:q]) == j][0]
                            dd = 0.5 * (clip(a[pp[m]], -1, 1) + 1)
                            alt = leg(dd, i[j], f) - leg(1 - dd, i[j], f)
                            d = "cont-4qc-blanking-cancels" if abs(x - alt) <= 1e-9 else None
                        rec.fail("averaged output voltage", key=d, got=u, want=wu, action=a, current=i, history=seq[:k])
                rec.expect(len(u) == len(wu), "number of voltages")
                if not abs(isup - wi) <= 1e-9 * max(1, abs(wi)):
                    rec.fail("averaged supply current", got=isup, want=wi, action=a, current=i, history=seq[:k])
                for x, lo, hi in zip(u, conv.voltages.low, conv.voltages.high):
                    rec.expect(lo - 1e-12 <= x <= hi + 1e-12, "voltage outside of the declared range", got=u, action=a)
                rec.states.add(hash((str(subs), f, tau, case["setter"], tuple(a), tuple(map(sgn, i)))))
                rec.n_eval += 2
                rec.trans()
        rec.trace()
    rec.sample(dict(action=a, current=i, voltage=u, supply_current=isup))
