"""C02: equal seeds give equal experiments, whatever happened before the seeded reset."""
import itertools
import random

import numpy as np

from gemmc import engine, envs, zoo

ID = "C02"
LEVEL = "model_checking"
RULE = ("for every random component alone and in combinations: every history over {reset, reset with another seed, step, use of the global generators, "
        "closing another environment's episode} up to the depth before the seeded reset; the following three episodes are compared bit by bit with those of a "
        "fresh environment; all pairs of seeds of a set must differ; states = distinct observations")
ASSUMPTIONS = ["equally configured environments in one process (isolation of environments is C04)"]
OPS = "RQSG"
SEEDS = [0, 1, 2, 3, 17, 2 ** 31]


def cases(tier):
    th = tier == "thorough"
    out = []
    for name in zoo.all_():
        out.append(dict(spec=name, depth=5 if th else 4, part="histories"))
        out.append(dict(spec=name, part="seeds"))
    out += [dict(spec=i, part="id") for i in envs.ids()]
    return out


def measured(e, seed, acts):
    out = envs.play(e, [acts[i % len(acts)] for i in range(7)], seed=seed)
    out += envs.play(e, [acts[(i + 1) % len(acts)] for i in range(6)])
    out += envs.play(e, [acts[(3 * i) % len(acts)] for i in range(4)])
    return out


def run(case, rec):
    if case["part"] == "id":
        return run_id(case, rec)
    spec = dict(zoo.all_()[case["spec"]], constraints=[])
    e0 = envs.env(spec)
    acts = envs.actions(e0, 5)
    if case["part"] == "seeds":
        res = []
        for s in SEEDS:
            gn, gp = np.random.get_state(), random.getstate()
            a = measured(e0, s, acts)
            b = measured(envs.env(spec), s, acts)
            rec.same(b, a, "two environments with the same seed", seed=s)
            c = measured(e0, s, acts)
            rec.same(c, a, "the same environment seeded again", seed=s)
            gn2 = np.random.get_state()
            rec.expect(np.array_equal(gn[1], gn2[1]) and gn[2] == gn2[2] and gp == random.getstate(), "a component drew from a global random generator")
            res.append((s, a))
            rec.trans(3 * len(a))
            rec.trace(3)
        for (s, a), (t, b) in itertools.combinations(res, 2):
            rec.expect(not engine.identical(a, b), "seeds %d and %d give the same random sequence" % (s, t), spec=case["spec"])
        for x in res[0][1]:
            rec.state(x)
        rec.sample(dict(spec=case["spec"], first_reset=res[0][1][0]))
        return
    base = measured(e0, 3, acts)
    for n in range(0, case["depth"] + 1):
        for seq in itertools.product(OPS, repeat=n):
            e = envs.env(spec)
            ready = False
            skip = False
            for j, op in enumerate(seq):
                if op == "R":
                    e.reset()
                    ready = True
                elif op == "Q":
                    e.reset(seed=1234 + j)
                    ready = True
                elif op == "S":
                    if not ready:
                        skip = True
                        break
                    e.step(acts[j % len(acts)])
                else:
                    np.random.seed(j)
                    np.random.random(j + 1)
                    random.seed(j)
            if skip:
                continue
            got = measured(e, 3, acts)
            rec.same(got, base, "seeded run depends on what happened before the seeded reset", history="".join(seq), spec=case["spec"])
            rec.trans(len(got) + n)
            rec.trace()
            rec.state(case["spec"], seq)
    for x in base:
        rec.state(x)
    rec.sample(dict(spec=case["spec"], first=base[0]))


def run_id(case, rec):
    """the registered environments with their default components"""
    import gym_electric_motor as gem

    a, b = gem.make(case["spec"]), gem.make(case["spec"])
    acts = envs.actions(a.unwrapped, 5)
    want = measured(a, 11, acts)
    b.reset()
    for i in range(3):
        if b.step(acts[i % len(acts)])[2]:
            break
    np.random.seed(0)
    rec.same(measured(b, 11, acts), want, "two environments with the same seed", spec=case["spec"])
    rec.same(measured(a, 11, acts), want, "the same environment seeded again", spec=case["spec"])
    rec.expect(not engine.identical(measured(b, 12, acts), want), "different seeds give the same random sequence", spec=case["spec"])
    rec.trans(4 * len(want))
    rec.trace(4)
    for x in want:
        rec.state(x)
