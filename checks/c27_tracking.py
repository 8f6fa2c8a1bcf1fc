"""C27: controllers of the library drive the machine to the reference in closed loop."""
import itertools

import numpy as np

import gym_electric_motor as gem
import gem_controllers as gc
from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, FluxObserver
from gym_electric_motor.physical_systems.mechanical_loads import ConstantSpeedLoad

ID = "C27"
LEVEL = "model_checking"
RULE = ("closed loop of environment and controller: for the registered current, torque and speed environments with their default motors, all ordered pairs of reference values of a lattice (steps "
        "between any two of them, starting from the reset), constant speeds in both directions for current and torque control, with and without decoupling (at low speed), PI and (where it does not amplify the discretisation) PID current laws; no limit "
        "violation at any step, and the tail of every step within the tolerance")
ASSUMPTIONS = ["references that the voltage and current limits of the default machine can reach in steady state", "the machine parameters are known exactly",
               "the lattices are one-sided for series and shunt machines and for the flux-forming current of induction machines",
               "the EESM is used with a main inductance that is physically possible together with its other default parameters"]

T5 = (-0.5, -0.2, 0.1, 0.3, 0.5)
POS = (0.1, 0.3, 0.5)
VEC = tuple(itertools.product((-0.5, 0.1, 0.5), repeat=2))
# env -> (lattice, speeds relative to the limit, steps per reference, tolerance)
SPEC = {
    "Cont-CC-PermExDc": (T5, (-0.3, 0.02, 0.3), 300, 2e-3),
    "Cont-CC-SeriesDc": (POS, (0.02, 0.3), 300, 2e-3),
    "Cont-CC-ShuntDc": (POS, (0.02, 0.3), 300, 2e-3),
    "Cont-CC-ExtExDc": (tuple(itertools.product((-0.4, 0.1, 0.4), (0.1, 0.4))), (-0.3, 0.02, 0.3), 400, 2e-3),
    "Cont-CC-PMSM": (VEC, (-0.3, 0.02, 0.3), 300, 2e-3),
    "Cont-CC-SynRM": (VEC, (-0.1, 0.02, 0.1), 300, 2e-3),
    "Cont-CC-SCIM": (((0.2, -0.5), (0.2, 0.3), (0.5, -0.2), (0.5, 0.5)), (-0.1, 0.02, 0.2), 400, 2e-3),
    "Cont-CC-EESM": (((-0.3, -0.3, 0.3), (0.0, 0.4, 0.1), (0.2, -0.1, 0.5), (-0.1, 0.3, 0.2)), (-0.1, 0.02, 0.1), 600, 3e-3),
    "Cont-TC-PermExDc": (T5, (-0.3, 0.02, 0.3), 300, 2e-3),
    "Cont-TC-SeriesDc": (POS, (0.02, 0.3), 300, 2e-3),
    "Cont-TC-ShuntDc": (POS, (None,), 3000, 2e-3),
    "Cont-TC-ExtExDc": ((-0.4, -0.1, 0.1, 0.3, 0.4), (-0.3, 0.02, 0.3), 1500, 5e-3),
    "Cont-TC-PMSM": (T5, (-0.2, 0.02, 0.2), 400, 0.015),
    "Cont-TC-SynRM": (T5, (-0.05, 0.02, 0.1), 600, 0.02),
    "Cont-TC-SCIM": ((-0.4, 0.4), (-0.02, 0.02), 10000, 5e-3),
    "Cont-SC-PermExDc": (T5, (None,), 6000, 5e-3),
    "Cont-SC-SeriesDc": (POS, (None,), 4000, 5e-3),
    "Cont-SC-ShuntDc": (POS, (None,), 8000, 5e-3),
    "Cont-SC-ExtExDc": (T5, (None,), 4000, 5e-3),
    "Cont-SC-PMSM": (T5, (None,), 4000, 5e-3),
    "Cont-SC-SynRM": ((-0.2, 0.05, 0.2), (None,), 6000, 5e-3),
    "Cont-SC-SCIM": ((-0.15, 0.2), (None,), 14000, 5e-3),
    "Finite-CC-PermExDc": (T5, (0.02, 0.3), 400, 0.06),
    "Finite-CC-SeriesDc": (POS, (0.02, 0.3), 3000, 0.06),
    "Finite-CC-ShuntDc": (POS, (0.02, 0.3), 400, 0.06),
    "Finite-CC-ExtExDc": (tuple(itertools.product((-0.4, 0.4), (0.1, 0.4))), (0.02, 0.3), 1500, 0.06),
    "Finite-TC-PermExDc": (T5, (0.02, 0.3), 400, 0.06),
    "Finite-TC-SeriesDc": (POS, (0.02, 0.3), 3000, 0.06),
}
SLOW = {
    "Finite-TC-ExtExDc": ((-0.3, 0.1, 0.3), (0.02,), 10000, 0.06),
    "Finite-SC-SeriesDc": ((0.1, 0.4), (None,), 40000, 0.03),
    "Finite-SC-PermExDc": ((0.1, -0.3), (None,), 15000, 0.03),
    "Cont-TC-EESM": ((-0.3, 0.05, 0.3), (0.02, 0.1), 1500, 0.01),
}


def cases(tier):
    th = tier == "thorough"
    out = []
    for i, (lat, speeds, n, tol) in list(SPEC.items()) + (list(SLOW.items()) if th else []):
        if i == "Finite-SC-PermExDc":
            continue
        for w in speeds:
            for k in range(len(lat)):
                base = dict(id=i + "-v0", speed=w, first=k)
                out.append(base)
                if n <= 1500 and w == 0.02 and not i.startswith("Finite") and i != "Cont-TC-EESM":
                    out.append(dict(base, dec=False))
                    if i.split("-")[2] not in ("SynRM", "SCIM"):
                        out.append(dict(base, bc="PID"))
                    if th and i.split("-")[2] in ("PMSM", "SynRM", "EESM"):
                        out.append(dict(base, dead=1, a=6))
    for key, i, kw in (("eesm-negative-leakage", "Cont-CC-EESM", {}), ("scim-flux-observer", "Cont-TC-SCIM", dict(speed=0.25)),
                       ("finite-speed-reversal", "Finite-SC-PermExDc", dict(speed=None, first=0))):
        out.append(dict(dict(id=i + "-v0", speed=0.02, first=1, known=key), **kw))
    return out


def run(case, rec):
    key = case["id"][:-3]
    lat, _, n, tol = (SPEC.get(key) or SLOW[key])
    m = key.split("-")[2]
    ws = [DeadTimeProcessor(case["dead"])] if case.get("dead") else []
    if m == "SCIM":
        ws.append(FluxObserver())
    kw = {}
    if m == "EESM" and case.get("known") is None:
        kw["motor"] = dict(motor_parameter=dict(l_m=0.8e-3))
    e = gem.make(case["id"], physical_system_wrappers=tuple(ws)).unwrapped
    w = e.limits[list(e.state_names).index("omega")]
    if case["speed"] is not None:
        kw["load"] = ConstantSpeedLoad(omega_fixed=case["speed"] * w)
    e = gem.make(case["id"], physical_system_wrappers=tuple(ws), **kw).unwrapped
    ck = dict(block_diagram=False, decoupling=case.get("dec", True), base_current_controller=case.get("bc", "PI"))
    if "a" in case:
        ck["a"] = case["a"]
    c = gc.GemController.make(e, case["id"], **ck)
    js = [list(e.state_names).index(x) for x in e.reference_names]
    fin = key.startswith("Finite")
    kk = case.get("known")
    (s, _), _ = e.reset(seed=1)
    c.reset()
    v = lat[case["first"]]
    path = [v]
    for o in lat:
        if o is not v:
            path += [o, v]
    if kk:
        path = path[:3]
    worst = 0.0
    for num, r in enumerate(path):
        r = np.atleast_1d(np.array(r, float))
        errs = []
        d = dict(path=path[:num + 1])
        for k in range(n):
            a = c.control(s, r)
            (s, _), _, done, _, _ = e.step(a)
            rec.trans()
            errs.append(s[js] - r)
            if done:
                rec.fail("limit violation in closed loop", key=kk, step=k, state=s, names=list(e.state_names), **d)
                return
        tail = np.array(errs[-max(n // 5, 1):])
        if fin:
            dev = float(np.max(np.abs(tail.mean(axis=0))))
            ripple = float(np.max(np.abs(tail - tail.mean(axis=0))))
            rec.expect(ripple <= 0.2, "ripple around the reference", key=kk, ripple=ripple, **d)
        else:
            dev = float(np.max(np.abs(tail)))
        worst = max(worst, dev)
        rec.expect(dev <= tol, "reference not reached", key=kk, deviation=dev, tolerance=tol, state=s[js], **d)
        rec.trace()
        rec.state((case["id"], case["speed"], tuple(np.round(s, 4))))
    rec.outcome((case["id"], round(worst, 4)))
    rec.sample(dict(env=case["id"], speed=case["speed"], path=path[:3], worst_deviation=worst, tolerance=tol))
