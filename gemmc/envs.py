"""Builds complete environments from JSON-able specs (public constructors only) and drives them."""
import itertools

import numpy as np

from gym_electric_motor import core, physical_system_wrappers as pw, reference_generators as rg
from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint
from gym_electric_motor.core import ConstraintMonitor
from gym_electric_motor.physical_systems import mechanical_loads as ml, voltage_supplies as vs
from gym_electric_motor.reward_functions import WeightedSumOfErrors

from gemmc import build

DC = ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc")
U = dict(PMSM=300.0, SynRM=80.0, EESM=320.0, SCIM=560.0, DFIM=720.0)
CUR = dict(PermExDc=["i"], SeriesDc=["i"], ShuntDc=["i_a", "i_e"], ExtExDc=["i_a", "i_e"], PMSM=["i_sd", "i_sq"], SynRM=["i_sd", "i_sq"],
           EESM=["i_sd", "i_sq", "i_e"], SCIM=["i_sd", "i_sq"], DFIM=["i_sd", "i_sq"])

GEN = dict(wiener=rg.WienerProcessReferenceGenerator, laplace=rg.LaplaceProcessReferenceGenerator, sinus=rg.SinusoidalReferenceGenerator,
           step=rg.StepReferenceGenerator, saw=rg.SawtoothReferenceGenerator, triangle=rg.TriangularReferenceGenerator)


def generator(s):
    k = s["kind"]
    kw = {n: (tuple(v) if isinstance(v, list) else v) for n, v in s.items() if n not in ("kind", "subs", "state")}
    if k == "const":
        return rg.ConstReferenceGenerator(reference_state=s["state"], reference_value=s.get("reference_value", 0.5))
    if k == "zero":
        return rg.ZeroReferenceGenerator()
    if k == "multi" and "classes" in kw:
        # generators by class, arguments as a list of dictionaries
        return rg.MultipleReferenceGenerator([GEN[x["kind"]] for x in s["subs"]], sub_args=[
            dict({n: (tuple(v) if isinstance(v, list) else v) for n, v in x.items() if n not in ("kind", "state")}, reference_state=x["state"]) for x in s["subs"]])
    if k == "multi":
        return rg.MultipleReferenceGenerator([generator(x) for x in s["subs"]])
    if k == "switched":
        if "p" in kw:
            kw["p"] = list(kw["p"])
        return rg.SwitchedReferenceGenerator([generator(x) for x in s["subs"]], **kw)
    return GEN[k](reference_state=s["state"], **kw)


def wrapper(s, motor):
    k = s["kind"]
    if k == "cossin":
        return pw.CosSinProcessor(angle=s.get("angle", "epsilon"), remove_angle=s.get("remove", False))
    if k == "cursum":
        return pw.CurrentSumProcessor(list(s["currents"]), limit=s.get("limit", "max"))
    if k == "dead":
        return pw.DeadTimeProcessor(steps=s.get("steps", 1))
    if k == "dq":
        return pw.DqToAbcActionProcessor.make(motor)
    if k == "flux":
        return pw.FluxObserver()
    if k == "noise":
        return pw.StateNoiseProcessor(states=s["states"], random_dist=s.get("dist", "normal"), random_kwargs=dict(s.get("kwargs", {})),
                                      random_length=s.get("length", 1000))
    raise ValueError(k)


def load(spec):
    s = spec["load"]
    if "init" in s:
        kw = dict(load_parameter={n: s[n] for n in ("a", "b", "c", "j_load") if n in s}, load_initializer=initializer(s["init"]))
        return ml.PolynomialStaticLoad(**kw)
    return build.load(s)


def supply(spec):
    s = spec["supply"]
    if s["kind"] == "ac1rnd":
        return vs.AC1PhaseSupply(s["u"], dict(frequency=s["f"]))
    return build.supply(s)


def initializer(s):
    out = dict(interval=s.get("interval"), random_init=s.get("random_init"), random_params=tuple(s.get("random_params", (None, None))))
    if "states" in s:
        out["states"] = dict(s["states"])
    return out


def motor(spec):
    if "motor_init" in spec:
        i = initializer(spec["motor_init"])
        return build.MOTOR[spec["motor"]](motor_parameter=dict(spec["mp"]), motor_initializer=i)
    return build.motor(spec)


def physical_system(spec):
    kw = {}
    if spec.get("frame", "abc") != "abc":
        kw["control_space"] = spec["frame"]
    return build.SYSTEM[spec["motor"]](converter=build.converter(spec["conv"], spec["tau"], spec["finite"]), motor=motor(spec), load=load(spec),
                                       supply=supply(spec), ode_solver=build.solver(spec), tau=spec["tau"], **kw)


def constraints(spec):
    out = []
    for c in spec.get("constraints", []):
        out.append(SquaredConstraint(tuple(c)) if isinstance(c, list) else c)
    return out


def env(spec, callbacks=(), constraint_monitor=None, reward_function=None, reference_generator=None, visualization=(), system=None):
    return core.ElectricMotorEnvironment(
        physical_system=system if system is not None else physical_system(spec),
        reference_generator=reference_generator if reference_generator is not None else generator(spec["ref"]),
        reward_function=reward_function if reward_function is not None else WeightedSumOfErrors(**spec.get("reward", {})),
        visualization=visualization, state_filter=spec.get("filter"), callbacks=callbacks,
        constraints=constraint_monitor if constraint_monitor is not None else constraints(spec),
        physical_system_wrappers=[wrapper(w, spec["motor"]) for w in spec.get("wrap", [])])


def spec(motor_, finite, **kw):
    """a complete default spec"""
    m = motor_
    s = dict(motor=m, finite=finite, mp=build.MP[m]["d"], tau=1e-5 if finite else 1e-4, conv=None, x0=None,
             load=dict(kind="poly", a=0.01, b=0.01, c=1e-4, j_load=1e-3, omega0=3.0), supply=dict(kind="ideal", u=U.get(m, 60.0)),
             ref=dict(kind="const", state=CUR[m][0], reference_value=0.4), constraints=list(CUR[m][:1]))
    s.update(kw)
    if s["conv"] is None:
        s["conv"] = build.default_conv(m, s.pop("il", 0.0) * s["tau"])
    s.pop("il", None)
    return s


def actions(e, n=None):
    """corner actions of an action space (numpy / int), at most n of them, spread"""
    sp = getattr(e, "action_space", e)
    k = type(sp).__name__
    if k == "Discrete":
        out = list(range(sp.n))
    elif k == "MultiDiscrete":
        out = [np.array(a) for a in itertools.product(*[range(v) for v in sp.nvec])]
    else:
        lo, hi = sp.low, sp.high
        out = []
        for f in (0.9, 0.1, 0.55):
            out += [np.array([(l * f if b else h * f) for l, h, b in zip(lo, hi, bits)]) for bits in itertools.product((0, 1), repeat=len(lo))]
    if n is not None and len(out) > n:
        # spread over the list, keep it deterministic
        out = [out[(i * len(out)) // n] for i in range(n)]
    return out


def flat(out):
    """reset / step results -> comparable tuple"""
    if len(out) == 2 and isinstance(out[1], dict):
        (s, r), info = out
        return ("reset", np.array(s, copy=True), np.array(r, copy=True))
    (s, r), rew, term, trunc, info = out
    return ("step", np.array(s, copy=True), np.array(r, copy=True), float(rew), bool(term), bool(trunc))


def play(e, acts, start=True, seed=None):
    """one episode: reset (optionally) and the actions until termination; list of comparable outputs"""
    out = []
    if start:
        out.append(flat(e.reset(seed=seed)))
    for a in acts:
        out.append(flat(e.step(a)))
        if out[-1][4]:
            break
    return out


def ids():
    """all registered environment ids"""
    import gymnasium
    import gym_electric_motor  # noqa: F401

    return sorted(i for i, sp in gymnasium.registry.items() if str(sp.entry_point).startswith("gym_electric_motor."))
