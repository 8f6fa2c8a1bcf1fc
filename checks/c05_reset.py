"""C05: a reset leaves nothing of the past episode behind."""
import itertools

import numpy as np

from gemmc import build, engine, envs

ID = "C05"
LEVEL = "model_checking"
RULE = ("every history over {3 corner actions, a limit-violating run, reset} up to the depth on environments without random components (9 machines, switched and "
        "averaged converters of every type and nesting with and without interlocking, every supply, load, solver, wrapper stack and deterministic reference "
        "generator), followed by a reset and every continuation of a set; all outputs and the step counter are bit-identical with those of a freshly built environment; "
        "states = (configuration, history)")
ASSUMPTIONS = ["the environment object is reused for consecutive histories, so a failing history may include those before it"]

FIXED = dict(amplitude_range=0.2, frequency_range=900.0, offset_range=0.1)


def configs():
    out = {}
    for m in build.MOTOR:
        for fin in (True, False):
            for il in (0.0, 0.3):
                out["%s-%s-%g" % (m, "fin" if fin else "cont", il)] = envs.spec(m, fin, il=il)
    for k in ("1QC", "2QC", "4QC"):
        for fin in (True, False):
            for il in (0.0, 0.2):
                tau = 1e-5 if fin else 1e-4
                out["conv-%s-%s-%g" % (k, fin, il)] = envs.spec("PermExDc", fin, conv=[k, il * tau])
                out["conv2-%s-%s-%g" % (k, fin, il)] = envs.spec("ExtExDc", fin, conv=["Multi", [[k, il * tau], ["2QC", il * tau]]])
    for name, s in dict(rc=dict(kind="rc", u=60.0, R=0.5, C=2e-4), ac1=dict(kind="ac1", u=60.0, f=400.0, phi=0.3)).items():
        for m in ("PermExDc", "SeriesDc", "PMSM", "SCIM", "DFIM", "EESM"):
            for fin in (True, False):
                out["sup-%s-%s-%s" % (name, m, fin)] = envs.spec(m, fin, supply=s, il=0.2 if fin else 0.0)
    for sv in ("euler", "odeint", "ivp-RK45", "ivp-Radau", "dopri5", "dop853", "vode", "lsoda"):
        for m in ("PermExDc", "PMSM", "SCIM"):
            for fin in ((True, False) if sv in ("euler", "ivp-RK45") else (True,)):
                out["solver-%s-%s-%s" % (sv, m, fin)] = envs.spec(m, fin, solver=sv, nsteps=3, il=0.2 if fin else 0.0, slow=True)
    for n, l in dict(const=dict(kind="const", omega0=7.0), prof=dict(kind="profile", amp=10.0, freq=300.0, off=20.0), a=dict(kind="poly", a=0.4, b=0.0, c=0.0, j_load=1e-4, omega0=0.0),
                     neg=dict(kind="poly", a=0.1, b=0.01, c=0.01, j_load=1e-4, omega0=-20.0)).items():
        for m in ("PermExDc", "PMSM", "DFIM"):
            for fin in (True, False):
                s = envs.spec(m, fin)
                l2 = dict(l, tau=s["tau"]) if n == "prof" else l
                out["load-%s-%s-%s" % (n, m, fin)] = dict(s, load=l2)
    stacks = [[dict(kind="dead", steps=1)], [dict(kind="dead", steps=3)], [dict(kind="dead", steps=2), dict(kind="cossin")],
              [dict(kind="cossin", remove=True), dict(kind="dead", steps=1)], [dict(kind="dead", steps=1), dict(kind="dead", steps=2)],
              [dict(kind="cursum", currents=["i_a", "i_b"]), dict(kind="cossin")]]
    for n, w in enumerate(stacks):
        for m in ("PMSM", "EESM"):
            for fin in (True, False):
                out["wrap%d-%s-%s" % (n, m, fin)] = envs.spec(m, fin, wrap=w)
    for n, w in enumerate(([dict(kind="dq")], [dict(kind="dead", steps=2), dict(kind="dq")], [dict(kind="dq"), dict(kind="dead", steps=2)],
                           [dict(kind="dq"), dict(kind="cossin"), dict(kind="dead", steps=1)])):
        for m in ("PMSM", "EESM"):
            out["dq%d-%s" % (n, m)] = envs.spec(m, False, wrap=w)
    for n, w in enumerate(([dict(kind="flux")], [dict(kind="flux"), dict(kind="cossin", angle="psi_angle"), dict(kind="dead", steps=2)],
                           [dict(kind="dead", steps=1), dict(kind="flux")], [dict(kind="flux"), dict(kind="dq")])):
        for m in ("SCIM", "DFIM"):
            for fin in (True, False):
                if n == 3 and fin:
                    continue
                out["flux%d-%s-%s" % (n, m, fin)] = envs.spec(m, fin, wrap=w)
    for n, w in enumerate(([dict(kind="dead", steps=2)],)):
        for m in ("PermExDc", "ExtExDc"):
            for fin in (True, False):
                out["dcwrap%d-%s-%s" % (n, m, fin)] = envs.spec(m, fin, wrap=w)
    for m in ("PMSM", "SynRM", "SCIM"):
        out["frame-" + m] = envs.spec(m, False, frame="dq")
    for n, r in enumerate((dict(kind="zero"), dict(kind="multi", subs=[dict(kind="const", state="i_sd", reference_value=0.1), dict(kind="const", state="omega", reference_value=-0.2)]),
                           dict(kind="switched", super_episode_length=[2, 3], p=[1.0, 0.0], subs=[dict(kind="const", state="omega", reference_value=0.1),
                                                                                          dict(kind="const", state="omega", reference_value=0.3)]))):
        out["ref%d" % n] = envs.spec("PMSM", True, ref=r)
    # the same environments with a limit that is soon violated, so that histories end by a violation
    for m in build.MOTOR:
        for fin in (True, False):
            cur = envs.CUR[m][0]
            cur = {"i_sd": "i_a", "i_sq": "i_a"}.get(cur, cur)
            out["viol-%s-%s" % (m, fin)] = envs.spec(m, fin, limit=cur, il=0.2 if fin else 0.0)
    return out


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, s in configs().items():
        slow = n.startswith("solver")
        out.append(dict(name=n, depth=(4 if slow else 5) if th else (2 if slow else 4), tails=(2 if slow else 6) if th else 2))
    return out


def make(name):
    s = configs()[name]
    if "limit" in s:
        lim = s.pop("limit")
        key = dict(PermExDc="i", SeriesDc="i", ShuntDc="i_a", ExtExDc="i_a").get(s["motor"], "i")
        s["limit_values"] = {key: 4.0}
        s["nominal_values"] = {key: 3.0}
        if s["motor"] in ("PMSM", "SynRM"):
            # the angle of the motor does not matter; give the machines a chance to leave the range quickly
            s["supply"] = dict(kind="ideal", u=900.0)
        s["constraints"] = [x for x in envs.CUR[s["motor"]]]
        s["tau"] = 1e-4
        s["conv"] = build.default_conv(s["motor"], 2e-5 if s["finite"] else 0.0)
    return envs.env(s)


def run(case, rec):
    name = case["name"]
    e = make(name)
    acts = envs.actions(e)
    pick = [acts[1], acts[-1], acts[len(acts) // 3]] if len(acts) > 3 else list(acts)
    # the action that leads to a violation soonest, if any does
    runs = sorted((len(o) if o[-1][4] else 99, i) for i, o in ((i, envs.play(e, [a] * 6)) for i, a in enumerate(acts[:8])))
    bad = acts[runs[0][1]]
    n_t = case["tails"]
    tails = [[pick[(i * (j + 1) + j) % len(pick)] for i in range(4)] for j in range(n_t)]

    def tail(env, j):
        out = envs.play(env, tails[j])
        return out, env.unwrapped.physical_system.k

    want = [tail(make(name), j) for j in range(n_t)]
    ops = list(range(len(pick))) + ["v", "r"]
    done = 0
    for d in range(case["depth"] + 1):
        for hist in itertools.product(ops, repeat=d):
            alive = False
            for op in ("r",) + hist if hist and hist[0] != "r" else hist:
                if op == "r":
                    e.reset()
                    alive = True
                elif op == "v":
                    # a long run of one action: usually ends in a violation
                    for _ in range(6):
                        if alive:
                            alive = not e.step(bad)[2]
                            rec.trans()
                elif alive:
                    alive = not e.step(pick[op])[2]
                    rec.trans()
            j = done % n_t
            done += 1
            got = tail(e, j)
            rec.trans(len(got[0]))
            if not engine.identical(got, want[j]):
                k = next((i for i, (x, y) in enumerate(zip(got[0], want[j][0])) if not engine.identical(x, y)), None)
                rec.fail("trajectory after the reset differs from that of a new environment", history=[str(o) for o in hist], index=k,
                         got=got[0][k] if k is not None else (len(got[0]), got[1]), want=want[j][0][k] if k is not None else (len(want[j][0]), want[j][1]))
            rec.states.add(hash((name, hist)))
            rec.trace()
    rec.sample(dict(configuration=name, history=[str(o) for o in hist], violated=not alive, tail=[x[1] for x in got[0]]))
