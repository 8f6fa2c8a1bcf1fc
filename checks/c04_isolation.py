"""C04: environments do not influence each other or the caller's objects."""
import copy
import itertools

import numpy as np

from gemmc import build, engine, envs, zoo

ID = "C04"
LEVEL = "model_checking"
RULE = ("for pairs of environments (every registered id with default components beside the same id with every component customised and beside another id; "
        "pairs of composed environments with wrappers and random components; pairs of environments whose components get the same dictionaries, lists and arrays from the caller; the action and observation spaces sampled by the owners of the environments; components built with their defaults beside customised ones): all interleavings of "
        "their construct/reset/step scripts; every output is compared bit by bit with the same script in a fresh process; all objects handed over and all "
        "arrays handed out are compared with copies afterwards; states = distinct (pair, interleaving)")
ASSUMPTIONS = ["a component object is given to one environment only"]
CHUNK = 1
MAXTASKS = 1


def cases(tier):
    th = tier == "thorough"
    out = []
    ids = envs.ids()
    for n, i in enumerate(ids):
        out.append(dict(a=dict(id=i, custom=False), b=dict(id=i, custom=True), ops=4 if th else 3))
        out.append(dict(a=dict(id=i, custom=False), b=dict(id=ids[(n + (17 if n % 2 else 6)) % len(ids)], custom=True), ops=4 if th else 3))
    names = sorted(zoo.combined())
    for a, b in itertools.combinations_with_replacement(names, 2):
        out.append(dict(a=dict(zoo=a), b=dict(zoo=b), ops=5 if th else 4))
    for n, i in enumerate(ids):
        for j in (i, ids[(n + 18) % len(ids)]):
            out.append(dict(a=dict(id=i, custom=False, sample=3), b=dict(id=j, custom=False, sample=5), ops=5 if th else 4))
    for m in build.MOTOR:
        for fin in (True, False):
            out.append(dict(a=dict(args=m, finite=fin), b=dict(args=m, finite=fin), ops=5 if th else 4))
            out.append(dict(a=dict(plain=m, finite=fin, mp=None), b=dict(plain=m, finite=fin, mp="x"), ops=5 if th else 4))
    return out


class Side:
    """one environment with its script"""

    def __init__(self, d, keep, shared=None):
        self.d = d
        self.shared = shared
        self.given = []
        self.out = []
        self.raw = []
        self.keep = keep
        self.e = None
        self.n = 0
        self.over = False

    def give(self, x):
        """an object of the caller; remembered together with a copy"""
        self.given.append((x, copy.deepcopy(x)))
        return x

    def construct(self):
        d = self.d
        if "args" in d:
            self.e = with_arguments(d["args"], d["finite"], self.shared or arguments(d["args"]))
            return
        if "id" in d:
            import gym_electric_motor as gem
            from gym_electric_motor.physical_systems import mechanical_loads as ml
            from gym_electric_motor.reward_functions import WeightedSumOfErrors

            if not d["custom"]:
                self.e = gem.make(d["id"])
            else:
                ref = gem.make(d["id"]).unwrapped.physical_system
                motor = ref.electrical_motor
                fam = next(m for m, c in build.MOTOR.items() if type(motor) is c)
                mp = {k: v for k, v in build.MP[fam]["x"].items() if k != "p"}
                names = list(ref.state_names)
                kw = dict(
                    motor=dict(motor_parameter=self.give(mp), limit_values=self.give({"omega": 555.0}), nominal_values=self.give({"omega": 444.0}),
                               motor_initializer=self.give(dict(states={k: 0.0 if k.startswith("psi") else 0.05 for k in motor.initializer["states"]}, interval=None, random_init=None,
                                                                random_params=(None, None)))),
                    load=ml.PolynomialStaticLoad(load_parameter=self.give(dict(a=0.03, b=0.02, c=1e-3, j_load=4e-3)), limits=self.give(dict(omega=333.0)),
                                                 load_initializer=self.give(dict(states={"omega": 1.5}, interval=None, random_init=None, random_params=(None, None)))),
                    supply=dict(u_nominal=77.0), state_filter=self.give(names[::-1]), constraints=self.give([]), callbacks=self.give([]),
                    reward_function=WeightedSumOfErrors(reward_weights=self.give({names[0]: 0.3, names[2]: 0.4}), reward_power=self.give({names[0]: 2})),
                    physical_system_wrappers=self.give([]), tau=3e-5)
                self.e = gem.make(d["id"], **kw)
            return
        if "zoo" in d:
            s = dict(zoo.all_()[d["zoo"]], constraints=[])
            self.e = envs.env(s)
            return
        m = d["plain"]
        s = envs.spec(m, d["finite"], constraints=[])
        kw, lk = {}, {}
        if d["mp"]:
            kw = dict(motor_parameter=self.give(dict(build.MP[m]["x"])), limit_values=self.give(dict(omega=300.0)), nominal_values=self.give(dict(omega=200.0)))
            lk = dict(load_parameter=self.give(dict(a=0.1, b=0.05)), limits=self.give(dict(omega=222.0)))
        from gym_electric_motor.physical_systems import mechanical_loads as ml, solvers as sv, voltage_supplies as vs

        conv = build.converter(build.default_conv(m, 2e-6 if d["mp"] else 0.0), s["tau"], d["finite"])
        sup = vs.RCVoltageSupply(60.0, self.give(dict(R=0.3, C=1e-3))) if d["mp"] else vs.RCVoltageSupply(60.0)
        ps = build.SYSTEM[m](converter=conv, motor=build.MOTOR[m](**kw), load=ml.PolynomialStaticLoad(**lk), supply=sup,
                             ode_solver=sv.EulerSolver(), tau=s["tau"])
        self.e = envs.env(s, system=ps)

    def op(self):
        n = self.n
        self.n += 1
        if n == 0:
            self.construct()
            self.acts = envs.actions(self.e.unwrapped, 5)
            ps = self.e.unwrapped.physical_system
            self.out.append([list(ps.state_names), np.array(ps.limits), np.array(ps.nominal_state), np.array(ps.state_space.low)])
            return
        if "sample" in self.d:
            # the sets of actions and observations are sampled by their owner
            spaces = [self.e.action_space, self.e.observation_space[0]]
            if n == 1:
                for k, x in enumerate(spaces):
                    x.seed(self.d["sample"] + k)
                self._note(self.e.reset(seed=n))
            for _ in range(2):
                a, o = spaces[0].sample(), spaces[1].sample()
                self.out.append(["sample", np.array(a), np.array(o), None, False])
                if not self.over:
                    self._note(self.e.step(a))
                    self.over = self.out[-1][4]
            return
        o = self.e.reset(seed=n if n == 1 else None) if n != 3 else None
        if o is not None:
            self._note(o)
        else:
            self.steps(n, 1)
        self.steps(n, 3)

    def steps(self, n, k):
        for i in range(k):
            if self.out[-1][0] == "step" and self.out[-1][4]:
                return
            a = copy.copy(self.acts[(n + i * 3) % len(self.acts)])
            self._note(self.e.step(self.give(a) if self.keep else a))

    def _note(self, o):
        self.out.append(envs.flat(o))
        self.raw.append((o[0], self.out[-1][1:3]))


def arguments(m):
    """plain containers (no components) for all parts of an environment with motor m, that a caller may hand over to several environments"""
    fam = build.MOTOR[m]
    init = copy.deepcopy(fam(motor_parameter=dict(build.MP[m]["x"])).initializer)
    n = len(init["states"])
    names = list(envs.physical_system(envs.spec(m, False)).state_names)
    cur = envs.CUR[m][0]
    w = np.zeros(len(names))
    w[:4] = (1.0, 2.0, 0.5, 0.5)
    return dict(
        mp={k: v for k, v in build.MP[m]["x"].items()}, lim=dict(omega=300.0), nom=dict(omega=200.0),
        minit=dict(init, states=dict(init["states"]), interval=np.array([[-0.5 if not k.startswith("psi") else 0.0, 0.5] for k in init["states"]])[:n],
                   random_init="uniform", random_params=(None, None)),
        load=dict(a=0.03, b=0.02, c=1e-3, j_load=4e-3), llim=dict(omega=300.0), lnom=dict(omega=210.0),
        linit=dict(states={"omega": 2.0}, interval=[[0.5, 4.0]], random_init="uniform", random_params=(None, None)),
        sup=dict(R=0.3, C=1e-3), weights=w, power=np.array([1.0 + (i % 2) for i in range(len(names))]), filt=names[::-1],
        names=names, cons=[cur, "omega"], margin=(0.5, 0.5), len=[3, 6], amp=[0.1, 0.3], freq=[50, 400], off=[-0.1, 0.2], p=[0.3, 0.7], sup_len=[2, 5],
        sigma=[1e-3, 1e-2], noise=dict(loc=0.0, scale=0.01), noisy=["omega", cur], square=[cur, "torque"])


def with_arguments(m, fin, a):
    import gym_electric_motor as gem
    from gym_electric_motor import reference_generators as rg
    from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint
    from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, StateNoiseProcessor
    from gym_electric_motor.physical_systems import mechanical_loads as ml, solvers as sv, voltage_supplies as vs
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    tau = 1e-5 if fin else 1e-4
    cur = envs.CUR[m][0]
    ps = build.SYSTEM[m](
        converter=build.converter(build.default_conv(m, 0.0), tau, fin), ode_solver=sv.EulerSolver(), tau=tau, supply=vs.RCVoltageSupply(60.0, a["sup"]),
        motor=build.MOTOR[m](motor_parameter=a["mp"], limit_values=a["lim"], nominal_values=a["nom"], motor_initializer=a["minit"]),
        load=ml.PolynomialStaticLoad(load_parameter=a["load"], limits=a["llim"], load_initializer=a["linit"]))
    sub = dict(reference_state=cur, episode_lengths=a["len"], limit_margin=a["margin"])
    subs = [rg.SinusoidalReferenceGenerator(amplitude_range=a["amp"], frequency_range=a["freq"], offset_range=a["off"], **sub),
            rg.WienerProcessReferenceGenerator(sigma_range=a["sigma"], initial_range=a["off"], **sub)]
    ref = rg.MultipleReferenceGenerator([rg.SwitchedReferenceGenerator(subs, p=a["p"], super_episode_length=a["sup_len"]),
                                         rg.TriangularReferenceGenerator(amplitude_range=a["amp"], frequency_range=a["freq"], offset_range=a["off"],
                                                                         **dict(sub, reference_state="omega"))])
    return gem.core.ElectricMotorEnvironment(
        physical_system=ps, reference_generator=ref,
        reward_function=WeightedSumOfErrors(reward_weights=a["weights"], reward_power=a["power"], normed_reward_weights=True), state_filter=a["filt"],
        constraints=(LimitConstraint(a["cons"]), SquaredConstraint(a["square"])),
        physical_system_wrappers=(DeadTimeProcessor(2), StateNoiseProcessor(a["noisy"], random_kwargs=a["noise"], random_length=3)))


def alone(d, ops):
    s = Side(d, False)
    for _ in range(ops):
        s.op()
    return s.out


def run(case, rec):
    ops = case["ops"]
    want = [engine.child(alone, case["a"], ops), engine.child(alone, case["b"], ops)]
    n = 0
    for pos in itertools.combinations(range(2 * ops), ops):
        shared = arguments(case["a"]["args"]) if "args" in case["a"] else None
        was_shared = copy.deepcopy(shared)
        sides = [Side(case["a"], True, shared), Side(case["b"], True, shared)]
        order = [0 if i in pos else 1 for i in range(2 * ops)]
        for w in order:
            sides[w].op()
            rec.trans()
        for k in shared or ():
            if not engine.identical(shared[k], was_shared[k]):
                rec.fail("an argument of two environments was changed", argument=k, got=shared[k], want=was_shared[k])
        for j, (s, ref) in enumerate(zip(sides, want)):
            if not engine.identical(s.out, ref):
                k = next(i for i, (x, y) in enumerate(zip(s.out, ref)) if not engine.identical(x, y))
                rec.fail("outputs differ from those of the environment alone", side="ab"[j], interleaving=order, index=k, got=s.out[k], want=ref[k])
            for obj, was in s.given:
                if not engine.identical(obj, was):
                    rec.fail("an object of the caller was changed", side="ab"[j], got=obj, want=was)
            for obs, was in s.raw:
                if not (engine.identical(obs[0], was[0]) and engine.identical(obs[1], was[1])):
                    rec.fail("a returned observation was changed later", side="ab"[j], got=obs, want=was)
        rec.trace()
        rec.states.add(hash((str(case), pos)))
        n += 1
    rec.sample(dict(a=case["a"], b=case["b"], interleaving=order, last=sides[0].out[-1]))
