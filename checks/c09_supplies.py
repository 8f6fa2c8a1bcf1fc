"""C09: voltage supplies against closed-form sources and the RC circuit."""
import itertools
import math

import numpy as np

from gym_electric_motor.physical_systems import voltage_supplies as vs

from gemmc import engine

ID = "C09"
LEVEL = "model_checking"
RULE = ("RC supply: every sequence of (time step, load current) pairs over a 3x4 alphabet and resets up to the depth, for a lattice of circuit parameters, two instances "
        "interleaved, compared with the recursion of the circuit and its exact solution; AC supplies: every sequence of resets and reads over a lattice of times, "
        "frequencies, voltages and phases (fixed and drawn, seeded and unseeded); ideal supply: every reading of the lattice; states = (parameters, history)")
ASSUMPTIONS = ["the RC circuit is integrated by one Euler step per reading (the method the supply documents as its solver), which is compared with the exact "
               "solution up to the error of that method"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for u, p in itertools.product((60.0, 600.0), (None, dict(R=1.0, C=4e-3), dict(R=0.2, C=1e-2), dict(R=5.0, C=2e-3), dict(C=2.0, R=0.01))):
        for first in range(13):
            out.append(dict(kind="rc", u=u, p=p, first=first, depth=5 if th else 4))
    for kind in ("ac1", "ac3"):
        for u in (None, 100.0, 325.0):
            for f in (50, 16.7, 400.0, None):
                for phi in (None, 0.0, 0.4, 2.2, 5.9) if f is not None else (None,):
                    out.append(dict(kind=kind, u=u, f=f, phi=phi, depth=5 if th else 4))
    for u in (12.0, 600.0, None):
        out.append(dict(kind="ideal", u=u))
    return out


def run_rc(case, rec):
    u = case["u"]
    p = case["p"]
    given = dict(p) if p is not None else None
    a, b = vs.RCVoltageSupply(u, given) if given is not None else vs.RCVoltageSupply(u), vs.RCVoltageSupply(u * 0.5, dict(R=0.7, C=5e-3))
    r, c = (p["R"], p["C"]) if p else (1.0, 4e-3)
    rec.expect(given == p, "the parameter dictionary is not changed", got=given)
    rec.expect(a.u_nominal == u and tuple(a.supply_range) == (0, u) and a.voltage_len == 1, "attributes of the RC supply", got=(a.u_nominal, a.supply_range))
    i_max = u / r
    ops = [("r",)] + [(dt, i) for dt in (0.0, 1e-5, 4e-4) for i in (0.0, 0.3 * i_max, i_max, -0.2 * i_max)]
    b.reset()
    tb, ub = 0.0, 0.5 * u
    for hist in itertools.product(*([[case["first"]]] + [range(len(ops))] * (case["depth"] - 1))):
        v = a.reset()
        rec.close(v, [u], "voltage after a reset", rtol=1e-12, hist=hist)
        t, x, exact, low = 0.0, u, u, True
        err = 0.0
        for n, o in enumerate(hist):
            if ops[o][0] == "r":
                v = a.reset()
                rec.close(v, [u], "voltage after a reset", rtol=1e-12, hist=hist[:n + 1])
                t, x, exact, low, err = 0.0, u, u, True, 0.0
                continue
            dt, i = ops[o]
            t += dt
            got = a.get_voltage(t, i)
            keep = np.array(got, copy=True)
            x = x + dt / (r * c) * (u - x - r * i)
            k = math.exp(-dt / (r * c))
            err = err * 1.0 + 0.51 * (dt / (r * c)) ** 2 * abs(u - exact - r * i)
            exact = (u - r * i) + (exact - u + r * i) * k
            low = low and i >= 0
            rec.expect(np.shape(got) == (1,), "shape of the voltage", got=got)
            rec.close(got, [x], "voltage of the RC circuit", rtol=1e-9, atol=1e-9 * u, hist=hist[:n + 1])
            if dt <= r * c:
                rec.expect(abs(got[0] - exact) <= 3 * err + 1e-9 * u, "deviation from the exact solution", got=got, want=exact, hist=hist[:n + 1])
            if low and dt <= r * c:
                rec.expect(-1e-9 * u <= got[0] <= u * (1 + 1e-9), "voltage inside the declared range", got=got, hist=hist[:n + 1])
            # a second supply is used in between and must follow its own circuit
            tb += 1e-5
            ub = ub + 1e-5 / (0.7 * 5e-3) * (0.5 * u - ub - 0.7 * 2.0)
            rec.close(b.get_voltage(tb, 2.0), [ub], "voltage of another supply used in between", rtol=1e-7, hist=hist[:n + 1])
            rec.same(np.array(got), keep, "a returned voltage is changed by the use of another supply")
            rec.trans()
        rec.states.add(hash((u, str(p), hist)))
        rec.trace()
        if tb > 1e-2:
            b.reset()
            tb, ub = 0.0, 0.5 * u
    rec.sample(dict(parameters=p, u=u, history=[ops[o] for o in hist], voltage=got if ops[hist[-1]][0] != "r" else v))


def run_ac(case, rec):
    three = case["kind"] == "ac3"
    cls = vs.AC3PhaseSupply if three else vs.AC1PhaseSupply
    kw = {}
    if case["u"] is not None:
        kw["u_nominal"] = case["u"]
    if case["f"] is not None:
        kw["supply_parameter"] = dict(frequency=case["f"])
        if case["phi"] is not None:
            kw["supply_parameter"]["phase"] = case["phi"]
    given = dict(kw.get("supply_parameter", {}))
    s = cls(**kw)
    rec.expect(kw.get("supply_parameter", {}) == given, "the parameter dictionary is not changed", got=kw)
    u = case["u"] if case["u"] is not None else (400.0 if three else 230.0)
    f = case["f"] if case["f"] is not None else 50.0
    amp = u * math.sqrt(2) / (math.sqrt(3) if three else 1.0)
    n = 3 if three else 1
    rec.expect(s.u_nominal == u and s.voltage_len == n, "nominal voltage and number of voltages", got=(s.u_nominal, s.voltage_len))
    rec.close(s.supply_range, [-amp, amp], "declared range", rtol=1e-12)
    times = [0.0, 1e-5, 0.25 / f, 0.37 / f, 1.0 / f, 17.3 / f]
    ops = ["r", "s1", "s2"] + times
    fresh = {}
    phases = set()

    def law(t, phi):
        return [amp * math.sin(2 * math.pi * f * t + phi + 2 * math.pi / 3 * i) for i in range(n)]

    def phase_of(v0):
        """phase from the voltages at t = 0 and a quarter period later"""
        v1 = s.get_voltage(0.25 / f, 0.0)
        return math.atan2(v0[0], v1[0])

    for hist in itertools.product(range(len(ops)), repeat=case["depth"]):
        s.seed(np.random.SeedSequence(11))
        s.reset()
        seeded = (11, 1)
        phi = None
        for k, o in enumerate((0,) + hist):
            op = ops[o]
            if isinstance(op, str):
                if op != "r":
                    s.seed(np.random.SeedSequence(int(op[1])))
                    seeded = (op, 0)
                v0 = s.reset()
                seeded = (seeded[0], seeded[1] + 1)
                rec.expect(len(v0) == n, "number of voltages", got=v0)
                phi = phase_of(v0)
                if case["phi"] is not None:
                    rec.expect(abs((phi - case["phi"] + math.pi) % (2 * math.pi) - math.pi) < 1e-9, "fixed phase", got=phi, hist=hist[:k])
                    phi = case["phi"]
                else:
                    want = fresh.setdefault(seeded, phi)
                    rec.expect(phi == want, "phase drawn from the seed and the episode number only", got=phi, want=want, hist=hist[:k])
                    phases.add(round(phi, 9))
                rec.close(v0, law(0.0, phi), "voltage at the reset", atol=1e-9 * amp, hist=hist[:k])
            else:
                v = s.get_voltage(op, [0.0, 12.0, -3.0][k % 3])
                keep = list(v)
                rec.close(v, law(op, phi), "sinusoid of the documented amplitude, frequency and phase", rtol=1e-9, atol=1e-8 * amp, hist=hist[:k])
                rec.expect(all(abs(x) <= amp * (1 + 1e-12) for x in v), "voltage inside the declared range", got=v)
                if three:
                    rec.expect(abs(sum(v)) < 1e-9 * amp, "the three voltages sum up to zero", got=v)
                s.get_voltage(op * 0.5, 0.0)
                rec.expect(list(v) == keep, "a returned voltage is changed by a later call")
            rec.trans()
        rec.states.add(hash((str(case), hist)))
        rec.trace()
    if case["phi"] is None:
        rec.expect(len(phases) > 3, "the phase is drawn again at resets", got=sorted(phases))
    rec.sample(dict(parameters=kw, history=[ops[o] for o in hist], voltages=s.get_voltage(times[3], 0.0)))


def run(case, rec):
    if case["kind"] == "rc":
        return run_rc(case, rec)
    if case["kind"] != "ideal":
        return run_ac(case, rec)
    s = vs.IdealVoltageSupply(case["u"]) if case["u"] else vs.IdealVoltageSupply()
    u = case["u"] or 600.0
    o = vs.IdealVoltageSupply(77.0)
    rec.expect(s.u_nominal == u and tuple(s.supply_range) == (u, u) and s.voltage_len == 1, "attributes of the ideal supply", got=s.supply_range)
    for hist in itertools.product([("r",)] + list(itertools.product((0.0, 1e-4, 7.0), (0.0, 50.0, -1e6))), repeat=3):
        for h in hist:
            v = s.reset() if h[0] == "r" else s.get_voltage(*h)
            rec.expect(list(v) == [u], "ideal supply returns the nominal voltage", got=v, hist=hist)
            rec.expect(list(o.get_voltage(0.0, 3.0)) == [77.0], "other ideal supply")
            rec.trans()
        rec.states.add(hash((u, hist)))
        rec.trace()
    rec.sample(dict(u=u, history=hist, voltage=v))
