"""Environments with random components, used by the checks of seeding, episode independence and isolation."""
from gemmc import build, envs

L = [2, 5]


def _u(m, names, lo=-0.2, hi=0.2, dist="uniform", par=(None, None)):
    sc = dict(i=60.0, i_a=40.0, i_e=20.0, i_sd=60.0, i_sq=60.0, epsilon=3.0, i_salpha=3.0, i_sbeta=3.0, psi_ralpha=0.5, psi_rbeta=0.5)
    return dict(random_init=dist, random_params=list(par), interval=[[lo * sc[n], hi * sc[n]] for n in names], states={n: 0.0 for n in names})


def wiener(s, **k):
    return dict(kind="wiener", state=s, episode_lengths=L, sigma_range=[1e-2, 1e-1], **k)


def gen(kind, s, **k):
    return dict(kind=kind, state=s, episode_lengths=k.pop("L", L), **k)


def singles():
    """one random component in an otherwise deterministic environment: name -> spec"""
    out = {}
    for kind in ("wiener", "laplace", "sinus", "step", "saw", "triangle"):
        for m, st in (("PermExDc", "i"), ("PMSM", "i_sq")):
            out["ref-%s-%s" % (kind, m)] = envs.spec(m, m == "PMSM", ref=gen(kind, st))
    out["ref-switched"] = envs.spec("PermExDc", True, ref=dict(kind="switched", super_episode_length=[2, 4], subs=[
        dict(kind="const", state="i", reference_value=0.1), dict(kind="const", state="i", reference_value=0.2), dict(kind="const", state="i", reference_value=0.3)]))
    out["ref-switched-p"] = envs.spec("PermExDc", True, ref=dict(kind="switched", super_episode_length=[2, 4], p=[0.3, 0.7], subs=[
        gen("sinus", "i"), gen("wiener", "i")]))
    out["ref-multi"] = envs.spec("PMSM", False, ref=dict(kind="multi", subs=[wiener("i_sd"), gen("laplace", "i_sq"), gen("step", "torque")]))
    out["ref-multi-switched"] = envs.spec("EESM", True, ref=dict(kind="multi", subs=[
        dict(kind="switched", super_episode_length=[2, 3], subs=[gen("saw", "i_sd"), gen("triangle", "i_sd")]), wiener("i_sq"), dict(kind="const", state="i_e")]))
    for m in build.MOTOR:
        names = build.ODE_STATES[m]
        for dist, par in (("uniform", (None, None)), ("gaussian", (None, 2.0))):
            out["init-%s-%s" % (m, dist)] = envs.spec(m, m in ("PMSM", "ExtExDc", "DFIM"), motor_init=_u(m, names, dist=dist, par=par))
    for dist in ("uniform", "gaussian"):
        out["loadinit-" + dist] = envs.spec("PermExDc", False, load=dict(kind="poly", a=0.0, b=0.01, c=0.0, j_load=1e-3, init=dict(
            states=dict(omega=0.0), interval=[[-30.0, 40.0]], random_init=dist, random_params=[None, 10.0])))
    out["load-ou"] = envs.spec("PMSM", True, load=dict(kind="ou", mu=20.0, sigma=5.0, theta=3.0, tau=1e-5, omega_range=[-50.0, 80.0]))
    out["load-ou-cont"] = envs.spec("SeriesDc", False, load=dict(kind="ou", mu=20.0, sigma=5.0, theta=3.0, tau=1e-4, omega_range=[0.0, 80.0]))
    out["supply-ac1"] = envs.spec("SeriesDc", False, supply=dict(kind="ac1rnd", u=60.0, f=50.0))
    for dist, kw in (("normal", dict(scale=0.01)), ("laplace", dict(scale=0.01)), ("uniform", dict(low=-0.01, high=0.02))):
        out["noise-" + dist] = envs.spec("PermExDc", True, wrap=[dict(kind="noise", states=["omega", "i"], dist=dist, kwargs=kw, length=3)])
    out["noise-all"] = envs.spec("PMSM", False, wrap=[dict(kind="noise", states="all", kwargs=dict(scale=0.01), length=4)])
    out["noise-inner"] = envs.spec("PMSM", True, wrap=[dict(kind="noise", states=["i_sq"], kwargs=dict(scale=0.01), length=2), dict(kind="dead", steps=1),
                                                       dict(kind="cossin")])
    out["noise-two"] = envs.spec("PMSM", False, wrap=[dict(kind="noise", states=["i_sq"], kwargs=dict(scale=0.01), length=2), dict(kind="cossin"),
                                                      dict(kind="noise", states=["omega"], kwargs=dict(scale=0.01), length=3)])
    return out


def combined():
    """several random components at once"""
    out = {}
    out["c-permex"] = envs.spec("PermExDc", False, ref=wiener("i"), motor_init=_u("PermExDc", ["i"]), load=dict(
        kind="poly", a=0.0, b=0.01, c=0.0, j_load=1e-3, init=dict(states=dict(omega=0.0), interval=[[-30.0, 40.0]], random_init="uniform")))
    out["c-series"] = envs.spec("SeriesDc", True, ref=gen("sinus", "torque"), supply=dict(kind="ac1rnd", u=60.0, f=50.0),
                                wrap=[dict(kind="noise", states="all", kwargs=dict(scale=0.01), length=3)])
    out["c-shunt"] = envs.spec("ShuntDc", False, ref=gen("step", "omega"), load=dict(kind="ou", mu=10.0, sigma=5.0, theta=2.0, tau=1e-4, omega_range=[0.0, 50.0]))
    out["c-extex"] = envs.spec("ExtExDc", True, ref=dict(kind="multi", subs=[gen("laplace", "i_a"), gen("saw", "i_e")]), motor_init=_u("ExtExDc", ["i_a", "i_e"]))
    out["c-pmsm"] = envs.spec("PMSM", True, ref=dict(kind="multi", subs=[wiener("i_sd"), wiener("i_sq")]), motor_init=_u("PMSM", build.ODE_STATES["PMSM"]),
                              wrap=[dict(kind="noise", states=["i_sq"], kwargs=dict(scale=0.01), length=2), dict(kind="dead", steps=2), dict(kind="cossin")])
    out["c-pmsm-dq"] = envs.spec("PMSM", False, ref=wiener("torque"), wrap=[dict(kind="dq"), dict(kind="noise", states="all", kwargs=dict(scale=0.01), length=2)])
    out["c-synrm"] = envs.spec("SynRM", False, ref=gen("triangle", "i_sq"), load=dict(kind="ou", mu=10.0, sigma=5.0, theta=2.0, tau=1e-4, omega_range=[-40.0, 50.0]))
    out["c-eesm"] = envs.spec("EESM", True, ref=dict(kind="switched", super_episode_length=[2, 4], subs=[wiener("i_sq"), gen("step", "i_sq"), gen("sinus", "i_sq")]),
                              motor_init=_u("EESM", build.ODE_STATES["EESM"]))
    out["c-scim"] = envs.spec("SCIM", False, ref=wiener("i_sd"), motor_init=_u("SCIM", build.ODE_STATES["SCIM"]),
                              wrap=[dict(kind="flux"), dict(kind="cossin", angle="psi_angle"), dict(kind="noise", states=["torque"], kwargs=dict(scale=0.01), length=3)])
    out["c-dfim"] = envs.spec("DFIM", True, ref=dict(kind="multi", subs=[wiener("i_sd"), gen("laplace", "torque")]),
                              motor_init=_u("DFIM", build.ODE_STATES["DFIM"], dist="gaussian", par=(None, 1.0)))
    return out


def all_():
    d = singles()
    d.update(combined())
    return d
