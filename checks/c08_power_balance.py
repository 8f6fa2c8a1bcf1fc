"""C08: ideal converters neither create nor destroy power, and averaged and switched converters agree."""
import itertools

import numpy as np
from gym_electric_motor.physical_systems import converters as cv

from gemmc.convref import Ref, build

ID = "C08"
LEVEL = "model_checking"
RULE = ("part 1: every action history up to the depth on every finite converter (with and without blanking) and every "
        "lattice duty cycle on every averaged converter: supplied power equals delivered power in every reached switching "
        "state; part 2: every periodic switching pattern with one upper interval in N slots: mean of the switched "
        "converter equals the averaged converter at the same duty cycle")
ASSUMPTIONS = ["phase currents of three phase outputs sum up to zero (star connection)",
               "one quadrant converters carry no negative current"]
TAU = 1e-5


def cases(tier):
    th = tier == "thorough"
    out = []
    for il in (0.0, 0.2e-5, 0.7e-5):
        for spec, d in ((["1QC", il], 4), (["2QC", il], 4), (["4QC", il], 4), (["B6", il], 2),
                        (["Multi", [["B6", il], ["4QC", 0.4e-5]]], 2), (["Multi", [["2QC", il], ["1QC", 0.0]]], 3),
                        (["Multi", [["B6", il], ["B6", 0.4e-5]]], 1), (["Multi", [["4QC", il], ["4QC", il]]], 2)):
            out.append(dict(part="finite", spec=spec, depth=d + (1 if th and spec[0] != "Multi" else 0)))
    for kind in ("1QC", "2QC", "4QC", "B6", "2QC+B6", "B6+4QC", "B6+B6"):
        for il in (0.0, 0.1, 0.4):
            out.append(dict(part="cont", kind=kind, il=il))
    for n in range(2, 13 if th else 9):
        for kind in ("1QC", "2QC", "4QC", "4QCuni", "B6"):
            for il in (0.0, 0.1, 0.4):
                out.append(dict(part="mean", kind=kind, n=n, il=il))
    return out


def run(case, rec):
    {"finite": finite, "cont": cont, "mean": mean}[case["part"]](case, rec)


def cur_sets(spec):
    kinds = [s[0] for s in spec[1]] if spec[0] == "Multi" else [spec[0]]
    opts = []
    for k in kinds:
        if k == "1QC":
            opts.append([[0.0], [2.5]])
        elif k == "B6":
            opts.append([[2.0, -0.5, -1.5], [-2.0, 0.5, 1.5], [0.0, 1.0, -1.0]])
        else:
            opts.append([[2.5], [-1.75], [0.0]])
    return [sum(c, []) for c in itertools.product(*opts)]


def finite(case, rec):
    spec = case["spec"]
    ref = Ref(spec)
    conv = build(spec, TAU, True)
    acts = ref.actions()
    curs = cur_sets(spec)
    multi = spec[0] == "Multi"
    for seq in itertools.product(acts, repeat=case["depth"]):
        conv.reset()
        for k, a in enumerate(seq):
            times = conv.set_action(np.array(a) if multi else a, k * TAU)
            for te in times:
                for i in (curs if k == len(seq) - 1 else curs[:1]):
                    u = conv.convert(list(i), te)
                    p_out = float(sum(x * y for x, y in zip(u, i)))
                    p_in = float(conv.i_sup(list(i)))
                    if not abs(p_in - p_out) <= 1e-9:
                        rec.fail("power balance of a switching state", p_in=p_in, p_out=p_out, u=u, i=i, seq=seq[:k + 1])
                    rec.states.add(hash((str(spec), tuple(float(x) for x in u), tuple(i))))
                    rec.n_eval += 1
            rec.trans()
        rec.trace()
    rec.sample(dict(sequence=seq, u=u, i=i, p=p_in))


CLS = {"1QC": cv.ContOneQuadrantConverter, "2QC": cv.ContTwoQuadrantConverter, "4QC": cv.ContFourQuadrantConverter,
       "B6": cv.ContB6BridgeConverter}


def off_4qc(kinds, dp, a, i, f):
    """is this unbalance the one of the recorded finding: the blanking voltages of the half bridges of the 4QCs cancel"""
    want, p = 0.0, 0
    for k in kinds:
        if k == "4QC":
            d, sg = 0.5 * (a[p] + 1), np.sign(i[p])
            leg = [min(max(d - sg * f, 0), 1), min(max(1 - d + sg * f, 0), 1), min(max(1 - d - sg * f, 0), 1)]
            want += (leg[2] - leg[1]) * i[p]
        p += 3 if k == "B6" else 1
    return abs(dp - want) <= 1e-9


def cont(case, rec):
    kinds = case["kind"].split("+")
    spec = ["Multi", [[k, 0] for k in kinds]]
    il = case.get("il", 0.0) * TAU
    conv = (cv.ContMultiConverter([CLS[k] for k in kinds], tau=TAU, interlocking_time=il) if len(kinds) > 1
            else CLS[kinds[0]](tau=TAU, interlocking_time=il))
    lat = (-1.0, -0.4, 0.0, 0.3, 1.0)
    n = sum(3 if k == "B6" else 1 for k in kinds)
    acts = list(itertools.product(lat, repeat=n))
    if len(acts) > 4000:
        acts = [a for a in acts if len(set(a)) <= 3]
    for a in acts:
        conv.reset()
        conv.set_action(np.array(a), 0.0)
        for i in cur_sets(spec):
            u = conv.convert(list(i), 0.0)
            p_out = float(sum(np.asarray(x).squeeze() * y for x, y in zip(u, i)))
            p_in = float(np.asarray(conv.i_sup(list(i))).squeeze())
            if not abs(p_in - p_out) <= 1e-9:
                known = "cont-4qc-blanking-cancels" if il > 0 and "4QC" in kinds and off_4qc(kinds, p_in - p_out, a, i, case["il"]) else None
                rec.fail("power balance of an averaged converter", key=known, p_in=p_in, p_out=p_out, u=u, i=i, action=a, il=il)
            rec.states.add(hash((case["kind"], a, tuple(i))))
            rec.n_eval += 1
            rec.trans()
        rec.trace()
    rec.sample(dict(action=a, i=i, p=p_in))


def mean(case, rec):
    n, kind = case["n"], case["kind"]
    T = n * TAU
    il = case["il"] * TAU
    for m in range(0, n + 1):
        for off in range(n):
            for i0 in ([2.5, -1.75] if kind != "1QC" else [2.5]):
                if kind == "B6":
                    spec, i = ["B6", il], [i0, -0.25 * i0, -0.75 * i0]
                    # phase a modulated, b constant upper, c constant lower
                    pat = [(7 - 1 if (k - off) % n < m else 2) for k in range(n)]
                    cconv, act = cv.ContB6BridgeConverter(tau=T, interlocking_time=il), [2 * m / n - 1, 1.0, -1.0]
                elif kind == "4QC":
                    spec, i = ["4QC", il], [i0]
                    pat = [(1 if (k - off) % n < m else 2) for k in range(n)]
                    cconv, act = cv.ContFourQuadrantConverter(tau=T, interlocking_time=il), [2 * m / n - 1]
                elif kind == "4QCuni":
                    spec, i = ["4QC", il], [i0]
                    # first half bridge always upper, second modulated: duty of the voltage = m/n in [0, 1]
                    pat = [(1 if (k - off) % n < m else 0) for k in range(n)]
                    cconv, act = None, None
                elif kind == "2QC":
                    spec, i = ["2QC", il], [i0]
                    pat = [(1 if (k - off) % n < m else 2) for k in range(n)]
                    cconv, act = cv.ContTwoQuadrantConverter(tau=T, interlocking_time=il), [m / n]
                else:
                    spec, i = ["1QC", 0.0], [i0]
                    pat = [(1 if (k - off) % n < m else 0) for k in range(n)]
                    cconv, act = cv.ContOneQuadrantConverter(tau=T), [m / n]
                conv = build(spec, TAU, False)
                conv.reset()
                acc = np.zeros(len(i))
                acs = 0.0
                for k in range(2 * n):
                    t = k * TAU
                    last = t
                    for te in conv.set_action(pat[k % n], t):
                        u = conv.convert(list(i), te)
                        s = conv.i_sup(list(i))
                        if k >= n:
                            acc += np.array(u, dtype=float) * (te - last)
                            acs += float(s) * (te - last)
                        last = te
                    rec.trans()
                acc /= T
                acs /= T
                rec.trace()
                rec.states.add(hash((kind, n, m, off, i0, il)))
                rec.n_eval += 2
                sg = 1 if i0 > 0 else -1
                if cconv is None:
                    f = il / T if 0 < m < n else 0.0
                    w = [m / n - sg * f if True else 0]
                    rec.close(acc, w, "mean voltage of a switched 4QC (one half bridge modulated)", rtol=1e-6, atol=1e-8,
                              m=m, n=n, il=il)
                    continue
                if m in (0, n) and il > 0:
                    # no switching at all: no blanking loss
                    want = {"2QC": [m / n], "4QC": [2 * m / n - 1], "1QC": [m / n],
                            "B6": [m / n - 0.5, 0.5, -0.5]}[kind]
                    rec.close(acc, want, "voltage without switching", m=m, n=n)
                    continue
                cconv.reset()
                cconv.set_action(np.array(act), 0.0)
                u = [float(np.asarray(x).squeeze()) for x in cconv.convert(list(i), 0.0)]
                if kind == "B6" and il > 0:
                    u[1:] = [0.5, -0.5]  # unmodulated phases: no blanking loss in the switched converter
                key = "cont-4qc-blanking-cancels" if kind == "4QC" and il > 0 and abs(u[0] - (2 * m / n - 1)) < 1e-9 else None
                rec.close(acc, u, "mean voltage of the switched converter = averaged converter", rtol=1e-6, atol=1e-8,
                          key=key, kind=kind, m=m, n=n, il=il, i=i)
                if il == 0 or kind != "B6":
                    rec.close(acs, float(np.asarray(cconv.i_sup(list(i))).squeeze()),
                              "mean supply current of the switched converter = averaged converter", rtol=1e-6, atol=1e-8,
                              kind=kind, m=m, n=n)
    rec.sample(dict(n=n, mean_voltage=acc))
