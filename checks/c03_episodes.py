"""C03: the n-th episode after a seeded reset does not depend on lengths and actions of the earlier ones."""
import itertools

from gemmc import engine, envs, zoo

ID = "C03"
LEVEL = "model_checking"
RULE = ("for every random component alone and in combinations: all tuples of lengths (0, 1, within / at / beyond sub-episode and noise buffer boundaries) and "
        "of action patterns of the first two (thorough: three) episodes; the following episode is compared bit by bit; states = distinct (lengths, pattern, observation)")
ASSUMPTIONS = ["the compared episode plays the same actions"]


def cases(tier):
    th = tier == "thorough"
    return [dict(spec=n, episodes=3 if th else 2, lengths=[0, 1, 2, 3, 5, 11] if th else [0, 1, 2, 3, 4, 5, 8, 11, 17]) for n in zoo.all_()]


def run(case, rec):
    spec = dict(zoo.all_()[case["spec"]], constraints=[])
    e = envs.env(spec)
    acts = envs.actions(e, 6)
    base = None
    starts = None
    for ls in itertools.product(case["lengths"], repeat=case["episodes"]):
        for pat in (0, 1):
            fl = []
            for n, l in enumerate(ls):
                fl.append(envs.play(e, [acts[(i * (1 + 2 * pat) + pat * (n + 1)) % len(acts)] for i in range(l)], seed=42 if n == 0 else None)[0])
            got = envs.play(e, [acts[(2 * i) % len(acts)] for i in range(9)])
            rec.trans(sum(ls) + len(ls) + 10)
            rec.trace()
            if base is None:
                base, starts = got, fl
                eps = [envs.play(e, [acts[(2 * i) % len(acts)] for i in range(9)], seed=42 if n == 0 else None) for n in range(4)]
                for a, b in itertools.combinations(range(4), 2):
                    rec.expect(not engine.identical(eps[a], eps[b]), "two episodes of one seeded run are identical", spec=case["spec"], episodes=[a, b])
            else:
                rec.same(got, base, "episode depends on the earlier episodes", spec=case["spec"], lengths=ls, pattern=pat)
                rec.same(fl, starts, "start of an earlier episode depends on the episodes before", spec=case["spec"], lengths=ls, pattern=pat)
            rec.state(case["spec"], ls, pat, got[-1])
    rec.sample(dict(spec=case["spec"], lengths=ls, first=base[0]))
