"""C06: finite converters follow the documented switching table with blanking, for every action/current history."""
import itertools

from gemmc.convref import Ref, build

ID = "C06"
LEVEL = "model_checking"
RULE = ("all action sequences x current sign patterns (one per switching segment) up to the depth of each case, replayed "
        "from reset on the real converter in lockstep with a switching state machine; states = (converter spec, leg "
        "switching states, action); currents take a negative, zero and positive value")
ASSUMPTIONS = ["convert() is asked at the end of each segment announced by set_action(), as the simulation does",
               "currents matter only through sign and magnitude used linearly; three representative values"]

TAU = 1e-5


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(spec, depth, cur, split=None, setter=False, t0=0.0):
        ref = Ref(spec)
        acts = ref.actions()
        for a in (acts if split else [None]):
            out.append(dict(spec=spec, depth=depth, cur=cur, first=a, setter=setter, t0=t0))

    for il in (0.0, 0.1e-5, 0.5e-5, 0.9e-5):
        for setter in (False, True):
            add(["1QC", il], 4, "pnz", setter=setter)
            add(["2QC", il], 5 if th else 4, "pnz1", split=True, setter=setter, t0=0.123)
            add(["4QC", il], 5 if th else 4, "pn1", split=True, setter=setter)
        add(["2QC", il], 3, "pnz2", split=True)
        add(["4QC", il], 3, "pnz2", split=True, t0=0.123)
        add(["B6", il], 3 if th else 2, "b6full", split=True)
        add(["B6", il], 4 if th else 3, "b6few", split=True, setter=True)
    a, b, c = 0.2e-5, 0.4e-5, 0.0
    for setter in (False, True):
        add(["Multi", [["2QC", a], ["2QC", b]]], 4 if th else 3, "multi", split=True, setter=setter)
        add(["Multi", [["1QC", 0.0], ["4QC", b]]], 4 if th else 3, "multi", split=True, setter=setter)
        add(["Multi", [["4QC", a], ["2QC", c]]], 3 if th else 3, "multi", split=True, setter=setter)
        add(["Multi", [["B6", a], ["4QC", b]]], 2, "multi", split=True, setter=setter)
        add(["Multi", [["4QC", b], ["4QC", a]]], 3 if th else 2, "multi", split=True, setter=setter)
        if th:
            add(["Multi", [["B6", a], ["B6", b]]], 2, "multi", split=True, setter=setter)
    return out


def currents(mode, n):
    """List of (current in first segment, current in later segments)"""
    p, m, z = 2.5, -1.75, 0.0
    if mode == "pnz":
        return [([x], [x]) for x in (p, m, z)]
    if mode == "pnz1":
        return [([p], [p]), ([m], [m]), ([z], [p]), ([p], [m]), ([m], [p])]
    if mode == "pn1":
        return [([p], [p]), ([m], [m]), ([p], [m])]
    if mode == "pnz2":
        return [([x], [y]) for x in (p, m, z) for y in (p, m, z)]
    if mode == "b6full":
        return [(list(x), list(x)) for x in itertools.product((p, m), repeat=3)] + [([p, m, z], [m, p, z])]
    if mode == "b6few":
        return [([p, m, -0.75], [p, m, -0.75]), ([m, -0.5, 2.25], [p, m, -0.75])]
    base = [p, m, 1.25, -3.0, 0.5, -0.25]
    return [(base[:n], base[:n]), ([-x for x in base[:n]], base[1:n + 1] if n < 6 else base[::-1])]


def run(case, rec):
    spec, depth = case["spec"], case["depth"]
    ref = Ref(spec)
    conv = build(spec, TAU, case["setter"])
    n = ref.n_cur
    acts = ref.actions()
    curs = currents(case["cur"], n)
    multi = spec[0] == "Multi"
    import numpy as np

    space = conv.action_space
    rec.expect((list(space.nvec) == [s.n_act for s in ref.subs]) if multi else space.n == ref.n_act,
               "action space has the wrong size")
    rec.expect(len(conv.voltages.low) == (sum({"B6": 3}.get(s.kind, 1) for s in ref.subs) if multi
                                          else 3 if spec[0] == "B6" else 1), "wrong number of voltages")
    lo, hi = conv.voltages.low, conv.voltages.high
    bad = (-1, ref.n_act if not multi else 99)
    for x in bad:
        try:
            conv.reset()
            conv.set_action([x] * len(ref.subs) if multi else x, 0.0)
            rec.fail("an action outside of the action space is accepted", action=x)
        except (AssertionError, IndexError, ValueError, KeyError):
            pass
    first = [case["first"]] if case["first"] is not None else acts
    alphabet = [(a, c) for a in acts for c in curs]
    first_alphabet = [(a, c) for a in first for c in curs]
    for seq in itertools.product(first_alphabet, *([alphabet] * (depth - 1))):
        ref.reset()
        u0 = conv.reset()
        if [float(x) for x in u0] != ([-0.5] * 3 if spec[0] == "B6" else
                                      [v for s in ref.subs for v in ([-0.5] * 3 if s.kind == "B6" else [0.0])] if multi
                                      else [0.0]):
            rec.fail("voltage after reset is not the all-lower/zero state", got=u0)
        for k, (a, (i1, i2)) in enumerate(seq):
            t = case["t0"] + k * TAU
            blank = ref.command(a)
            act = np.array(a) if multi else a
            times = conv.set_action(act, t)
            want = [t + b for b in sorted(blank)] + [t + TAU]
            if len(times) != len(want) or any(abs(x - y) > 1e-9 * TAU + 1e-12 * abs(y) for x, y in zip(times, want)):
                rec.fail("switching times", got=list(times), want=want, seq=seq[:k + 1])
            for s, te in enumerate(times):
                i = i1 if s == 0 else i2
                # the segment end as exact offset of the model
                dt = (sorted(blank) + [TAU])[min(s, len(blank))]
                u = conv.convert(list(i), te)
                w = ref.output(i, dt)
                if len(u) != len(w) or any(not abs(float(x) - y) <= 1e-9 for x, y in zip(u, w)):
                    rec.fail("output voltage", got=u, want=w, seq=seq[:k + 1], segment=s, step=k)
                if any(not (l - 1e-9 <= x <= h + 1e-9) for x, l, h in zip(u, lo, hi)):
                    rec.fail("voltage outside of the declared range", got=u, seq=seq[:k + 1])
                isup, wi = conv.i_sup(list(i)), ref.i_sup(i)
                if not abs(float(isup) - wi) <= 1e-9:
                    rec.fail("supply current", got=isup, want=wi, seq=seq[:k + 1], segment=s, step=k)
                rec.n_eval += 3
            rec.trans()
            rec.states.add(hash((str(spec), case["setter"], ref.key(), str(a), tuple(i1), tuple(i2))))
        rec.trace()
    rec.sample(dict(last_sequence=[(a, c) for a, c in seq], model_state=ref.key()))
