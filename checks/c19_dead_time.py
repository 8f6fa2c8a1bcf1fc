"""C19: dead time delays actions by exactly the configured number of steps."""
import itertools

import numpy as np

from gym_electric_motor import physical_system_wrappers as pw

from gemmc import build, engine, envs

ID = "C19"
LEVEL = "model_checking"
RULE = ("every sequence over {corner actions, reset} up to the depth on delayed environments (discrete, multi discrete and continuous action spaces of all machines, one to four "
        "delay steps, nested and mixed with other wrappers, default and custom reset actions, fresh or reused action buffers): every observation, reward and termination is "
        "bit-identical with the undelayed environment that gets the shifted sequence")
ASSUMPTIONS = ["custom reset actions are equal for all dead steps", "action conversion to abc (DqToAbc) with dead time is covered by C25"]


def stacks():
    d = lambda n: dict(kind="dead", steps=n)
    c = dict(kind="cossin")
    return {"1": [d(1)], "2": [d(2)], "3": [d(3)], "4": [d(4)], "1+1": [d(1), d(1)], "1+2": [d(1), d(2)], "3+1": [d(3), d(1)], "1+1+1": [d(1), d(1), d(1)],
            "1c1": [d(1), c, d(1)], "c2": [c, d(2)], "2c": [d(2), c]}


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in build.MOTOR:
        for fin in (True, False):
            for st in stacks():
                if "c" in st and m not in ("PMSM", "SCIM", "EESM"):
                    continue
                if st not in ("1", "2", "1+2") and m in ("SeriesDc", "ShuntDc", "SynRM", "DFIM") and not th:
                    continue
                out.append(dict(motor=m, finite=fin, stack=st, depth=6 if th else 5, custom=False))
            out.append(dict(motor=m, finite=fin, stack="2", depth=6 if th else 4, custom=True))
    for conv in (["1QC", 0.0], ["2QC", 1e-6], ["Multi", [["2QC", 1e-6], ["1QC", 0.0]]]):
        for fin in (True, False):
            for st in ("1", "3"):
                out.append(dict(motor="ExtExDc" if conv[0] == "Multi" else "PermExDc", conv=conv, finite=fin, stack=st, depth=5 if th else 4, custom=False))
    return out


def make(case, delayed):
    kw = {}
    if "conv" in case:
        kw["conv"] = case["conv"]
    s = envs.spec(case["motor"], case["finite"], il=0.2 if case["finite"] else 0.0, **kw)
    w = stacks()[case["stack"]]
    s["wrap"] = w if delayed else [x for x in w if x["kind"] != "dead"]
    n = sum(x["steps"] for x in w if x["kind"] == "dead")
    if not case["custom"]:
        return envs.env(s), n
    from gym_electric_motor import core
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    ps = envs.physical_system(s)
    act = envs.actions(ps)[-2]
    return core.ElectricMotorEnvironment(physical_system=ps, reference_generator=envs.generator(s["ref"]), reward_function=WeightedSumOfErrors(), constraints=envs.constraints(s),
                                         physical_system_wrappers=[pw.DeadTimeProcessor(steps=n, reset_action=lambda: [act] * n)] if delayed else []), n


def run(case, rec):
    e, n = make(case, True)
    plain, _ = make(case, False)
    sp, sq = e.action_space, plain.action_space
    rec.expect(sp == sq, "action space of the delayed environment", got=str(sp), want=str(sq))
    rec.expect(list(e.state_names) == list(plain.state_names) and np.array_equal(e.limits, plain.limits), "states of the delayed environment")
    inner = [w for w in stacks()[case["stack"]] if w["kind"] == "dead"]
    if stacks()[case["stack"]][-1]["kind"] == "dead":
        rec.expect(e.physical_system.dead_time == sum(w["steps"] for w in inner), "announced dead time", got=e.physical_system.dead_time)
    acts = envs.actions(plain)
    pick = [acts[1], acts[-1], acts[len(acts) // 3]]
    if case["custom"]:
        zero = acts[-2]
    else:
        zero = 0 if not hasattr(sp, "shape") or sp.shape == () else np.zeros(sp.shape, dtype=sp.dtype)
    cache = {}

    def expected(seq):
        """outputs of the undelayed environment for one episode (tuple of action indices)"""
        if seq not in cache:
            out = [envs.flat(plain.reset())]
            full = [zero] * n + [pick[i] for i in seq]
            for a in full[: len(seq)]:
                out.append(envs.flat(plain.step(a)))
                if out[-1][4]:
                    break
            cache[seq] = out
            rec.trans(len(out))
        return cache[seq]

    buffers = (False, True) if not isinstance(pick[0], int) else (False,)
    for d in range(1, case["depth"] + 1):
        for seq in itertools.product((0, 1, 2, "r"), repeat=d):
            if d < case["depth"] and seq[-1] != "r":
                continue  # prefixes of longer sequences
            for reuse in buffers:
                if reuse and d < case["depth"]:
                    continue
                buf = np.array(pick[0], copy=True) if reuse else None
                ep = []
                out = [envs.flat(e.reset())]
                for op in seq + ("r",):
                    if op == "r":
                        want = expected(tuple(ep))
                        if len(want) < len(ep) + 1:
                            want = want[: len(out)]
                        if not engine.identical(out, want):
                            k = next((i for i, (x, y) in enumerate(zip(out, want)) if not engine.identical(x, y)), None)
                            rec.fail("delayed environment differs from the shifted undelayed one", sequence=[str(x) for x in seq], delay=n, reused_buffer=reuse, index=k,
                                     got=out[k] if k is not None else len(out), want=want[k] if k is not None else len(want))
                        if reuse:
                            buf[...] = pick[0]
                        out = [envs.flat(e.reset())]
                        ep = []
                        continue
                    if out[-1][0] == "step" and out[-1][4]:
                        ep.append(op)
                        continue
                    if reuse:
                        buf[...] = pick[op]
                        res = e.step(buf)
                        buf[...] = pick[(op + 1) % 3]
                    else:
                        a = pick[op]
                        was = np.array(a, copy=True)
                        res = e.step(a)
                        if not np.array_equal(was, a):
                            rec.fail("an action of the caller was changed", got=a, want=was)
                    out.append(envs.flat(res))
                    ep.append(op)
                    rec.trans()
                rec.trace()
            rec.states.add(hash((case["motor"], case["finite"], case["stack"], seq)))
    rec.sample(dict(delay=n, sequence=[str(x) for x in seq]))
