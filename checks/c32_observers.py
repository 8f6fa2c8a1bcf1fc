"""C32: state observers show the latest observation."""
import itertools

import gymnasium
import numpy as np

import gym_electric_motor as gem
from gym_electric_motor import core, physical_system_wrappers as pw, reference_generators as rg
from gym_electric_motor.observers import StateObserver

from gemmc import build, envs

ID = "C32"
LEVEL = "model_checking"
RULE = ("registered environments of all machines (action types x control tasks) x state filters (none, one state, reordered) x reference generators x physical system wrappers x gymnasium wrappers: every sequence over {step, "
        "reset, make another observer, step another environment} up to the depth; after every event all observers are asked for all states and references and compared with the returned observation, and the environment with a twin that "
        "nobody observes")
ASSUMPTIONS = ["the references are named by the reference name with the suffix _ref, values are normalised as in the observation", "a terminated environment is reset before the next step"]


class Same(gymnasium.Wrapper):
    pass


OUTER = dict(make=lambda e: e, unwrapped=lambda e: e.unwrapped, wrapper=Same, limit=lambda e: gymnasium.wrappers.TimeLimit(e, 1000))


def refgen(k, cur):
    if k == "multi":
        return rg.MultipleReferenceGenerator([rg.ConstReferenceGenerator("omega", 0.2), rg.WienerProcessReferenceGenerator(reference_state=cur, sigma_range=(1e-2, 1e-1)),
                                              rg.ConstReferenceGenerator("torque", -0.1)])
    if k == "switched":
        return rg.SwitchedReferenceGenerator([rg.ConstReferenceGenerator(cur, 0.3), rg.StepReferenceGenerator(reference_state=cur)], super_episode_length=(2, 4))
    if k == "zero":
        return rg.ZeroReferenceGenerator()
    return None


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in build.MOTOR:
        for at, task in itertools.product(("Cont", "Finite"), ("SC", "TC", "CC")):
            if at == "Finite" and task != "TC" and not th:
                continue
            i = "%s-%s-%s-v0" % (at, task, m)
            for filt in ("none", "one", "mixed"):
                for ref in ("default", "multi", "switched", "zero") if task == "SC" or th else ("default",):
                    for ws in ((False, True) if m not in envs.DC else (False,)):
                        full = (filt, ref, ws) in (("mixed", "multi", False), ("mixed", "default", True)) or th
                        out.append(dict(id=i, motor=m, filter=filt, ref=ref, wrappers=ws, depth=(5 if full else 4) if th else 4 if full else 3, outer=sorted(OUTER) if full else ["make"]))
    return out


def make(case, outer):
    m = case["motor"]
    cur = envs.CUR[m][0]
    kw = {}
    names = dict(one=[cur], mixed=["u_sup", cur, "torque", "omega"])
    if case["wrappers"]:
        kw["physical_system_wrappers"] = (pw.CosSinProcessor(), pw.StateNoiseProcessor(states=["omega", "torque"], random_dist="uniform", random_kwargs=dict(low=-0.01, high=0.01)))
        names["mixed"] = ["sin(epsilon)", "omega", cur]
    if case["filter"] != "none":
        kw["state_filter"] = names[case["filter"]]
    r = refgen(case["ref"], cur)
    if r is not None:
        kw["reference_generator"] = r
        if case["ref"] == "zero":
            kw["reward_function"] = gem.reward_functions.WeightedSumOfErrors(reward_weights={cur: 1.0})
    return OUTER[outer](gem.make(case["id"], visualization=(), **kw))


def run(case, rec):
    for outer in case["outer"]:
        ob, tw, other = make(case, outer), make(case, outer), make(case, "make")
        acts = envs.actions(ob.unwrapped)
        acts = [acts[(k * len(acts)) // 2] for k in range(2)]
        names = list(ob.unwrapped.state_names) + [n + "_ref" for n in ob.unwrapped.reference_names]
        kw = dict(outer=outer)

        seen = set()

        def look(obs, last, hist):
            # each prefix of the histories is looked at once
            if tuple(hist) in seen:
                return
            seen.add(tuple(hist))
            for o in obs:
                rec.expect(list(o.state_names) == names, "names that can be observed", got=list(o.state_names), want=names, hist="".join(hist), **kw)
                if last is None:
                    for n in (names[0], names[-1]):
                        try:
                            v = o.observe(n)
                        except ValueError:
                            continue
                        rec.expect(False, "a value before the first reset", name=n, got=v, hist="".join(hist), **kw)
                    continue
                flat = np.concatenate([np.ravel(x) for x in last])
                for n, v in zip(names, flat):
                    g = o.observe(n)
                    rec.expect(isinstance(g, tuple) and len(g) == 2 and g[0] == n and float(g[1]) == float(v), "observed value", name=n, got=g, want=float(v), hist="".join(hist), **kw)
                if case["ref"] == "multi":
                    rec.expect(abs(o.observe("omega_ref")[1] - 0.2) < 1e-12 and abs(o.observe("torque_ref")[1] + 0.1) < 1e-12, "the references have the wrong names", hist="".join(hist), **kw)
                for n in ("nothing", "omega_re", ""):
                    try:
                        v = o.observe(n)
                    except ValueError:
                        continue
                    rec.expect(False, "a value of an unknown state", name=n, got=v, hist="".join(hist), **kw)
            rec.expect(list(ob.unwrapped.state_names) == list(tw.unwrapped.state_names), "the observer changes the state names of the environment", hist="".join(hist), **kw)

        first = StateObserver(ob)
        look([first], None, [])
        for seq in itertools.product("sSrno", repeat=case["depth"]):
            s = "".join(seq)
            if "nn" in s or "oo" in s or "rr" in s or s.count("n") > 1:
                continue
            obs = [first]
            hist = ["r"]
            a = ob.reset(seed=7)[0]
            b = tw.reset(seed=7)[0]
            other.reset(seed=3)
            rec.same(a, b, "an observed environment behaves differently", hist="r", **kw)
            last, done, od = [np.copy(x) for x in a], False, False
            look(obs, last, hist)
            for op in seq:
                hist.append(op)
                if op in "sS":
                    if done:
                        a, b = ob.reset()[0], tw.reset()[0]
                        rec.same(a, b, "an observed environment behaves differently", hist="".join(hist), **kw)
                        hist.append("(reset)")
                        look(obs, [np.copy(x) for x in a], hist)
                    act = acts[op == "S"]
                    x, y = ob.step(act), tw.step(act)
                    rec.same(x[:4], y[:4], "an observed environment behaves differently", hist="".join(hist), **kw)
                    last, done = [np.copy(v) for v in x[0]], x[2] or x[3]
                elif op == "r":
                    a, b = ob.reset()[0], tw.reset()[0]
                    rec.same(a, b, "an observed environment behaves differently", hist="".join(hist), **kw)
                    last, done = [np.copy(v) for v in a], False
                elif op == "n":
                    obs.append(StateObserver(ob))
                else:
                    if od:
                        other.reset()
                        od = False
                    else:
                        od = other.step(acts[1])[2]
                look(obs, last, hist)
                rec.trans()
            rec.trace()
            rec.state(case["id"], case["filter"], case["ref"], case["wrappers"], outer, s)
            rec.outcome(case["id"], tuple(np.round(np.concatenate([np.ravel(x) for x in last]), 9)))
    rec.sample(dict(id=case["id"], names=names))
