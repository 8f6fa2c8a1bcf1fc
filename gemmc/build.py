"""Builds the real components from JSON-able specs (public constructors only)."""
import math

from gym_electric_motor import physical_systems as psys
from gym_electric_motor.physical_systems import converters as cv
from gym_electric_motor.physical_systems import electric_motors as em
from gym_electric_motor.physical_systems import mechanical_loads as ml
from gym_electric_motor.physical_systems import solvers as sv
from gym_electric_motor.physical_systems import voltage_supplies as vs

from gemmc import convref, simref

MOTOR = dict(PermExDc=em.DcPermanentlyExcitedMotor, SeriesDc=em.DcSeriesMotor, ShuntDc=em.DcShuntMotor, ExtExDc=em.DcExternallyExcitedMotor,
             PMSM=em.PermanentMagnetSynchronousMotor, SynRM=em.SynchronousReluctanceMotor, EESM=em.ExternallyExcitedSynchronousMotor,
             SCIM=em.SquirrelCageInductionMotor, DFIM=em.DoublyFedInductionMotor)
SYSTEM = dict(PermExDc=psys.DcMotorSystem, SeriesDc=psys.DcMotorSystem, ShuntDc=psys.DcMotorSystem, ExtExDc=psys.DcMotorSystem,
              PMSM=psys.SynchronousMotorSystem, SynRM=psys.SynchronousMotorSystem, EESM=psys.ExternallyExcitedSynchronousMotorSystem,
              SCIM=psys.SquirrelCageInductionMotorSystem, DFIM=psys.DoublyFedInductionMotorSystem)
# electrical ODE states in the order of the reference machines
ODE_STATES = dict(PermExDc=["i"], SeriesDc=["i"], ShuntDc=["i_a", "i_e"], ExtExDc=["i_a", "i_e"], PMSM=["i_sd", "i_sq", "epsilon"],
                  SynRM=["i_sd", "i_sq", "epsilon"], EESM=["i_sd", "i_sq", "i_e", "epsilon"],
                  SCIM=["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"],
                  DFIM=["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"])

# parameter sets of the machines: documented defaults ("d") and a second one ("x")
MP = dict(
    PermExDc=dict(d=dict(r_a=16e-3, l_a=19e-6, psi_e=0.165, j_rotor=0.025), x=dict(r_a=0.11, l_a=210e-6, psi_e=0.07, j_rotor=0.004)),
    SeriesDc=dict(d=dict(r_a=16e-3, r_e=48e-3, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
                  x=dict(r_a=0.2, r_e=0.05, l_a=3e-4, l_e_prime=2.9e-3, l_e=1.1e-3, j_rotor=0.004)),
    ShuntDc=dict(d=dict(r_a=16e-3, r_e=4e-1, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
                 x=dict(r_a=0.2, r_e=1.7, l_a=3e-4, l_e_prime=2.9e-3, l_e=1.1e-3, j_rotor=0.004)),
    ExtExDc=dict(d=dict(r_a=16e-3, r_e=16e-2, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
                 x=dict(r_a=0.2, r_e=1.7, l_a=3e-4, l_e_prime=2.9e-3, l_e=1.1e-3, j_rotor=0.004)),
    PMSM=dict(d=dict(p=3, l_d=0.37e-3, l_q=1.2e-3, j_rotor=0.03883, r_s=18e-3, psi_p=66e-3),
              x=dict(p=4, l_d=2.1e-3, l_q=1.3e-3, j_rotor=0.011, r_s=0.4, psi_p=0.12)),
    SynRM=dict(d=dict(p=4, l_d=10.1e-3, l_q=4.1e-3, j_rotor=0.8e-3, r_s=0.57), x=dict(p=3, l_d=3.3e-3, l_q=5.5e-3, j_rotor=2e-3, r_s=0.2)),
    EESM=dict(d=dict(p=3, l_d=1.66e-3, l_q=0.35e-3, l_m=1.589e-3, l_e=1.74e-3, j_rotor=0.3883, r_s=15.55e-3, r_e=7.2e-3, k=65.21),
              x=dict(p=2, l_d=2.2e-3, l_q=0.9e-3, l_m=1.1e-3, l_e=4.0e-3, j_rotor=0.02, r_s=0.05, r_e=0.3, k=1.2)),
    SCIM=dict(d=dict(p=2, l_m=143.75e-3, l_sigs=5.87e-3, l_sigr=5.87e-3, j_rotor=1.1e-3, r_s=2.9338, r_r=1.355),
              x=dict(p=3, l_m=90e-3, l_sigs=4e-3, l_sigr=7e-3, j_rotor=4e-3, r_s=1.7, r_r=2.4)),
    DFIM=dict(d=dict(p=2, l_m=297.5e-3, l_sigs=25.71e-3, l_sigr=25.71e-3, j_rotor=13.695e-3, r_s=4.42, r_r=3.51),
              x=dict(p=3, l_m=90e-3, l_sigs=4e-3, l_sigr=7e-3, j_rotor=4e-3, r_s=1.7, r_r=2.4)),
)

CONT = {"1QC": cv.ContOneQuadrantConverter, "2QC": cv.ContTwoQuadrantConverter, "4QC": cv.ContFourQuadrantConverter,
        "B6": cv.ContB6BridgeConverter}


def converter(spec, tau, finite):
    if finite:
        return convref.build(spec, tau, False)
    if spec[0] == "Multi":
        return cv.ContMultiConverter([converter(s, tau, False) for s in spec[1]], tau=tau)
    if spec[0] == "No":
        return cv.NoConverter(tau=tau)
    return CONT[spec[0]](tau=tau, interlocking_time=spec[1])


def default_conv(motor, il=0.0):
    return dict(ExtExDc=["Multi", [["4QC", il], ["4QC", il]]], PMSM=["B6", il], SynRM=["B6", il], SCIM=["B6", il],
                EESM=["Multi", [["B6", il], ["4QC", il]]], DFIM=["Multi", [["B6", il], ["B6", il]]]).get(motor, ["4QC", il])


def load(spec):
    k = spec["kind"]
    if k == "poly":
        kw = {}
        if "omega0" in spec:
            kw["load_initializer"] = dict(states=dict(omega=spec["omega0"]))
        if "limit" in spec:
            kw["limits"] = dict(omega=spec["limit"])
        return ml.PolynomialStaticLoad(load_parameter={n: spec[n] for n in ("a", "b", "c", "j_load") if n in spec}, **kw)
    if k == "const":
        return ml.ConstantSpeedLoad(omega_fixed=spec.get("omega0", 0.0))
    if k == "profile":
        return ml.ExternalSpeedLoad(speed_profile=lambda t, amp, freq, off: simref.profile(dict(amp=amp, freq=freq, off=off), t),
                                    speed_profile_kwargs=dict(amp=spec["amp"], freq=spec["freq"], off=spec["off"]), tau=spec["tau"])
    if k == "ou":
        return ml.OrnsteinUhlenbeckLoad(**{n: spec[n] for n in ("mu", "sigma", "theta", "tau", "omega_range") if n in spec})
    raise ValueError(k)


def supply(spec):
    k = spec["kind"]
    if k == "ideal":
        return vs.IdealVoltageSupply(spec["u"])
    if k == "rc":
        return vs.RCVoltageSupply(spec["u"], dict(R=spec["R"], C=spec["C"]))
    if k == "ac1":
        sp = dict(frequency=spec["f"])
        if spec.get("phi") is not None:
            sp["phase"] = spec["phi"]
        return vs.AC1PhaseSupply(spec["u"], sp)
    raise ValueError(k)


def solver(spec):
    k = spec.get("solver", "euler")
    if k == "euler":
        return sv.EulerSolver(nsteps=spec.get("nsteps", 1))
    if k == "odeint":
        return sv.ScipyOdeIntSolver(rtol=1e-10, atol=1e-12)
    if k.startswith("ivp-"):
        return sv.ScipySolveIvpSolver(method=k[4:], rtol=1e-10, atol=1e-12)
    return sv.ScipyOdeSolver(integrator=k, rtol=1e-10, atol=1e-12, nsteps=5000)


def motor(spec):
    kw = dict(motor_parameter=dict(spec["mp"]))
    if spec.get("x0") is not None:
        kw["motor_initializer"] = dict(states=dict(zip(ODE_STATES[spec["motor"]], spec["x0"])))
    for n in ("limit_values", "nominal_values"):
        if n in spec:
            kw[n] = dict(spec[n])
    return MOTOR[spec["motor"]](**kw)


def system(spec):
    kw = {}
    if spec.get("frame", "abc") != "abc":
        kw["control_space"] = spec["frame"]
    if "calc_jacobian" in spec:
        kw["calc_jacobian"] = spec["calc_jacobian"]
    return SYSTEM[spec["motor"]](converter=converter(spec["conv"], spec["tau"], spec["finite"]), motor=motor(spec), load=load(spec["load"]),
                                 supply=supply(spec["supply"]), ode_solver=solver(spec), tau=spec["tau"], **kw)


def finite_actions(spec):
    return convref.Ref(spec["conv"]).actions()


def physical(ps, state):
    """state vector -> {name: physical value}"""
    return {n: float(v) * float(l) for n, v, l in zip(ps.state_names, state, ps.limits)}


def angle_diff(a, b):
    return (a - b + math.pi) % (2 * math.pi) - math.pi


def admissible_start(spec):
    """Makes initial values positive where the drive does not permit negative ones (in place)."""
    probe = system(dict(spec, x0=None, load=dict(spec["load"], omega0=0.0) if "omega0" in spec["load"] else spec["load"]))
    low = dict(zip(probe.state_names, probe.state_space.low))
    if low["omega"] >= 0 and spec["load"].get("omega0", 0) < 0:
        spec["load"] = dict(spec["load"], omega0=-spec["load"]["omega0"])
    if spec.get("x0") is not None:
        spec["x0"] = [abs(v) if low.get(n, -1) >= 0 else v for n, v in zip(ODE_STATES[spec["motor"]], spec["x0"])]
