"""C20: physical system wrappers add only what they announce."""
import cmath
import itertools
import math

import numpy as np

from gemmc import build, envs

ID = "C20"
LEVEL = "model_checking"
RULE = ("every ordered stack of up to three (thorough: four) compatible wrappers with their options on every machine and action type x every action sequence up to the depth with a "
        "reset in between; at every level the returned vector is compared with a reference model of the wrapper applied to the vector of the level below, the innermost "
        "level with a bare system that receives the same actions, and names, limits, nominal values, space and vector with each other")
ASSUMPTIONS = ["the conversion of dq actions is covered by C25, dead time by C19", "angles have the limit pi"]

U = dict(random="uniform", low=-0.01, high=0.02)


def kinds(motor, finite):
    out = {"dead": dict(kind="dead", steps=1), "noise": dict(kind="noise", states=["omega", "torque"], dist="uniform", kwargs=dict(low=-0.01, high=0.02), length=2),
           "noise-all": dict(kind="noise", states="all", dist="uniform", kwargs=dict(low=-0.01, high=0.02), length=5)}
    if motor in ("ShuntDc", "ExtExDc"):
        out["sum"] = dict(kind="cursum", currents=["i_a", "i_e"], limit="sum")
        out["sum-max"] = dict(kind="cursum", currents=["i_e", "i_a"], limit="max")
    elif motor in ("PermExDc", "SeriesDc"):
        out["sum"] = dict(kind="cursum", currents=["i"], limit="max")
    else:
        ind = motor in ("SCIM", "DFIM")
        names = ("i_sa", "i_sb", "i_sc") if ind else ("i_a", "i_b", "i_c")
        out["sum"] = dict(kind="cursum", currents=list(names), limit="sum")
        out["sum-max"] = dict(kind="cursum", currents=["i_sq", "i_sd"], limit="max")
        out["cossin"] = dict(kind="cossin")
        out["cossin-r"] = dict(kind="cossin", remove=True)
        if ind:
            out["flux"] = dict(kind="flux")
            out["cossin-psi"] = dict(kind="cossin", angle="psi_angle")
            out["cossin-psi-r"] = dict(kind="cossin", angle="psi_angle", remove=True)
        if motor in ("PMSM", "EESM", "SCIM", "DFIM") and not finite:
            out["dq"] = dict(kind="dq")
    return out


def ok_stack(st, motor):
    names = set()
    have_psi, eps, dq, summed, cs = False, True, False, False, set()
    for k in st:
        if k == "flux":
            if have_psi:
                return False
            have_psi = True
        if k.startswith("cossin-psi"):
            if not have_psi or "psi" in cs:
                return False
            cs.add("psi")
            if k.endswith("-r"):
                have_psi = "gone"
        elif k.startswith("cossin"):
            if not eps or "eps" in cs:
                return False
            cs.add("eps")
            if k.endswith("-r"):
                eps = False
        if k.startswith("sum"):
            if summed:
                return False
            summed = True
        if k == "dq":
            if dq or (motor in ("PMSM", "EESM", "DFIM") and not eps) or (motor in ("SCIM", "DFIM") and have_psi is not True):
                return False
            dq = True
    return True


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in build.MOTOR:
        for fin in (True, False):
            ks = list(kinds(m, fin))
            stacks = [s for n in range(1, 4) for s in itertools.product(ks, repeat=n) if ok_stack(s, m)]
            if th:
                stacks += [s for s in itertools.product(ks, repeat=4) if ok_stack(s, m) and len(set(s)) == 4]
            for i in range(0, len(stacks), 40):
                out.append(dict(motor=m, finite=fin, stacks=["/".join(s) for s in stacks[i: i + 40]], depth=3 if th else 2))
    return out


class Level:
    """records what one level (bare system or wrapper) receives and returns"""

    def __init__(self, obj):
        self.obj = obj
        self.calls = []
        sim, res = obj.simulate, obj.reset

        def simulate(action, *a, **k):
            act = np.array(action, copy=True)
            out = sim(action, *a, **k)
            self.calls.append((act, np.array(out, copy=True)))
            return out

        def reset(*a, **k):
            out = res(*a, **k)
            self.calls.append((None, np.array(out, copy=True)))
            return out

        obj.simulate, obj.reset = simulate, reset


class Flux:
    def __init__(self, mp, tau):
        self.psi, self.tau = 0j, tau
        self.tr = mp["r_r"] / (mp["l_m"] + mp["l_sigr"])
        self.g = self.tr * mp["l_m"]
        self.p = mp["p"]

    def step(self, ia, ib, ic, omega):
        al = (2 * ia - ib - ic) / 3
        be = (ib - ic) / math.sqrt(3)
        d = complex(al, be) * self.g - self.psi * complex(self.tr, -omega * self.p)
        self.psi = self.psi + d * self.tau
        return abs(self.psi), cmath.phase(self.psi)


def announce(w, mp, names, lim, nom, low, high):
    """expected (names, limits, nominal, low, high) of a wrapper above a level with these attributes"""
    k = w["kind"]
    names, lim, nom, low, high = list(names), list(lim), list(nom), list(low), list(high)
    if k == "cossin":
        a = w.get("angle", "epsilon")
        if w.get("remove"):
            i = names.index(a)
            for x in (names, lim, nom, low, high):
                del x[i]
        names += ["cos(%s)" % a, "sin(%s)" % a]
        lim += [1.0, 1.0]
        nom += [1.0, 1.0]
        low += [-1.0, -1.0]
        high += [1.0, 1.0]
    elif k == "cursum":
        f = max if w["limit"] == "max" else math.fsum
        lim.append(f([lim[names.index(c)] for c in w["currents"]]))
        nom.append(f([nom[names.index(c)] for c in w["currents"]]))
        names.append("i_sum")
        low.append(-1.0)
        high.append(1.0)
    elif k == "flux":
        psi = mp["l_m"] * lim[names.index("i_sd")]
        names += ["psi_abs", "psi_angle"]
        lim += [psi, math.pi]
        nom += [psi, math.pi]
        low += [None, None]
        high += [None, None]
    return names, lim, nom, low, high


def run_stack(case, stack, rec):
    m, fin = case["motor"], case["finite"]
    ks = kinds(m, fin)
    ws = [ks[k] for k in stack.split("/")]
    s = envs.spec(m, fin, il=0.2 if fin else 0.0, wrap=ws, constraints=[])
    if m in ("SCIM", "DFIM"):
        s["tau"] = 1e-4
        s["conv"] = build.default_conv(m, 2e-5 if fin else 0.0)
    e = envs.env(s)
    bare = envs.physical_system(dict(s, wrap=[]))
    chain = []
    o = e.physical_system
    while True:
        chain.append(o)
        if o is o.unwrapped if not hasattr(o, "physical_system") else False:
            break
        try:
            nxt = o.physical_system
        except AttributeError:
            break
        o = nxt
    chain = chain[::-1]
    if len(chain) != len(ws) + 1:
        rec.fail("number of levels", got=len(chain), want=len(ws) + 1)
        return
    mp = s["mp"]
    names, lim, nom = list(bare.state_names), bare.limits.tolist(), bare.nominal_state.tolist()
    low, high = bare.state_space.low.tolist(), bare.state_space.high.tolist()
    att = [(names, lim, nom, low, high)]
    for w in ws:
        att.append(announce(w, mp, *att[-1]))
    for lv, (o, (nm, li, no, lo, hi)) in enumerate(zip(chain, att)):
        d = dict(stack=stack, level=lv)
        rec.expect(list(o.state_names) == nm, "state names", got=list(o.state_names), want=nm, **d)
        rec.close(o.limits, li, "limits", rtol=1e-12, **d)
        rec.close(o.nominal_state, no, "nominal values", rtol=1e-12, **d)
        rec.expect(all(o.state_positions[n] == i for i, n in enumerate(nm)) and len(o.state_positions) == len(nm), "state positions", got=o.state_positions, want=nm, **d)
        if rec.expect(o.state_space.shape == (len(nm),), "length of the state space", got=o.state_space.shape, want=len(nm), **d):
            for i, n in enumerate(nm):
                if lo[i] is None:
                    if o.state_space.high[i] < 1.0 and n == "psi_abs":
                        rec.fail("the flux observer declares its space in physical units", key="flux-observer-space", got=o.state_space.high[i])
                else:
                    rec.expect(o.state_space.low[i] == lo[i] and o.state_space.high[i] == hi[i], "state space", state=n, **d)
        rec.expect(o.tau == bare.tau and o.unwrapped is chain[0], "sampling time and unwrapped system", **d)
    # environment
    rec.expect(list(e.state_names) == att[-1][0] and e.observation_space[0].shape == (len(att[-1][0]),), "observed states", stack=stack)
    rec.expect(e.action_space == e.physical_system.action_space, "action space of the environment")
    if not any(w["kind"] == "dq" for w in ws):
        rec.expect(e.action_space == bare.action_space, "action space changed without an announcement", stack=stack)
    levels = [Level(o) for o in chain]
    acts = envs.actions(e)
    pick = [acts[1], acts[-1], acts[len(acts) // 3]]
    noise_seen = {}
    for seq in itertools.product(range(3), repeat=case["depth"]):
        for L in levels:
            del L.calls[:]
        obs = []
        (ob, _), _ = e.reset(seed=7)
        obs.append(ob)
        for a in seq:
            obs.append(e.step(pick[a])[0][0])
        (ob, _), _ = e.reset()
        obs.append(ob)
        obs.append(e.step(pick[seq[0]])[0][0])
        n = len(seq) + 3
        rec.trans(n)
        if not all(len(L.calls) == n for L in levels):
            rec.fail("a level is not called once per step", stack=stack, got=[len(L.calls) for L in levels], want=n)
            return
        # innermost: the bare system
        for t in range(n):
            act, out = levels[0].calls[t]
            want = bare.reset() if act is None else bare.simulate(act if act.shape else int(act))
            if not np.array_equal(out, want):
                rec.fail("the wrapped dynamics differ from those of the bare system", stack=stack, step=t, got=out, want=want, actions=[str(pick[a]) for a in seq])
        for lv, w in enumerate(ws, 1):
            nm, li = att[lv - 1][0], np.array(att[lv - 1][1])
            k = w["kind"]
            drawn = {lv: set()}
            fl = None
            for t in range(n):
                act, out = levels[lv].calls[t]
                iact, inn = levels[lv - 1].calls[t]
                where = dict(stack=stack, level=lv, wrapper=k, step=t)
                if k not in ("dead", "dq") and act is not None and not np.array_equal(act, iact):
                    rec.fail("a wrapper changed the action", got=iact, want=act, **where)
                if k == "cossin":
                    x = inn[nm.index(w.get("angle", "epsilon"))] * math.pi
                    base = np.delete(inn, nm.index(w.get("angle", "epsilon"))) if w.get("remove") else inn
                    want = np.concatenate((base, [math.cos(x), math.sin(x)]))
                elif k == "cursum":
                    tot = math.fsum(inn[nm.index(c)] * li[nm.index(c)] for c in w["currents"])
                    want = np.concatenate((inn, [tot / att[lv][1][-1]]))
                elif k == "flux":
                    if act is None:
                        fl = Flux(mp, s["tau"])
                        want = np.concatenate((inn, [0.0, 0.0]))
                    else:
                        v = lambda q: inn[nm.index(q)] * li[nm.index(q)]
                        ab, ph = fl.step(v("i_sa"), v("i_sb"), v("i_sc"), v("omega"))
                        want = np.concatenate((inn, [ab / att[lv][1][-2], ph / math.pi]))
                        if abs(abs(ph) - math.pi) < 1e-9 or ab < 1e-14:
                            want[-1] = out[-1]
                elif k == "noise":
                    sel = [nm.index(x) for x in (nm if w["states"] == "all" else w["states"])]
                    want = inn.copy()
                    d = out[sel] - inn[sel]
                    if not (np.all(d >= -0.01 - 1e-12) and np.all(d <= 0.02 + 1e-12)):
                        rec.fail("noise outside its distribution", got=d, **where)
                    noise_seen.setdefault((stack, lv), set()).add(tuple(np.round(d, 12)))
                    if tuple(np.round(d, 12)) in drawn[lv]:
                        rec.fail("the noise repeats itself", got=d, **where)
                    drawn[lv].add(tuple(np.round(d, 12)))
                    if len(set(np.round(d, 12))) != len(sel):
                        rec.fail("different states get the same noise", got=d, **where)
                    want[sel] = out[sel]
                else:
                    want = inn
                rec.close(out, want, "vector of the wrapper", rtol=1e-9, atol=1e-12, **where)
        for t in range(n):
            if not np.array_equal(obs[t], levels[-1].calls[t][1]):
                rec.fail("observation differs from the outermost wrapper", stack=stack, step=t)
        rec.states.add(hash((m, fin, stack, seq)))
        rec.trace()
    for key, v in noise_seen.items():
        rec.expect(len(v) > case["depth"] + 1, "the noise does not change from step to step", stack=key[0], got=len(v))


def run(case, rec):
    for st in case["stacks"]:
        run_stack(case, st, rec)
    rec.sample(dict(motor=case["motor"], stack=case["stacks"][-1]))
