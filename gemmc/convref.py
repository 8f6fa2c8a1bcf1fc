"""Reference models of the power electronic converters (written from the documented switching tables)."""
from gym_electric_motor.physical_systems import converters as cv

LEG4 = {0: (1, 1), 1: (1, 2), 2: (2, 1), 3: (2, 2)}


class Leg:
    """One half bridge: 0 both off, 1 upper on, 2 lower on; blanking between upper and lower."""

    offset = 0.0

    def __init__(self, il):
        self.il = il
        self.reset()

    def reset(self):
        self.state = 0
        self.pending = None

    def command(self, a):
        """Returns the blanking time needed (0: none)"""
        self.target = a
        if self.il > 0 and a in (1, 2) and self.state in (1, 2) and a != self.state:
            self.blank = self.il
        else:
            self.blank = 0.0
        return self.blank

    def at(self, dt):
        """Switching state in the segment ending dt after the action"""
        self.state = 0 if (self.blank > 0 and dt <= self.blank * (1 + 1e-9)) else self.target
        return self.state

    def level(self, i):
        return 1.0 if self.state == 1 else 0.0 if self.state == 2 else (1.0 if i < 0 else 0.0)


class Ref:
    """Reference of a whole converter. spec: ('1QC',il) ('2QC',il) ('4QC',il) ('B6',il) or ('Multi',[specs])"""

    def __init__(self, spec):
        self.kind = spec[0]
        if self.kind == "Multi":
            self.subs = [Ref(s) for s in spec[1]]
            self.n_cur = sum(s.n_cur for s in self.subs)
            self.n_act = None
        else:
            n = {"1QC": 0, "2QC": 1, "4QC": 2, "B6": 3}[self.kind]
            self.legs = [Leg(spec[1]) for _ in range(n)]
            self.n_cur = 3 if self.kind == "B6" else 1
            self.n_act = {"1QC": 2, "2QC": 3, "4QC": 4, "B6": 8}[self.kind]
            self.on = 0

    def actions(self):
        import itertools

        if self.kind == "Multi":
            return [list(a) for a in itertools.product(*[s.actions() for s in self.subs])]
        return list(range(self.n_act))

    def reset(self):
        if self.kind == "Multi":
            for s in self.subs:
                s.reset()
        else:
            self.on = 0
            for leg in self.legs:
                leg.reset()

    def command(self, a):
        """set of blanking times"""
        if self.kind == "Multi":
            out = set()
            for s, x in zip(self.subs, a):
                out |= s.command(x)
            return out
        if self.kind == "1QC":
            self.on = a
            return set()
        if self.kind == "2QC":
            cmds = [a]
        elif self.kind == "4QC":
            cmds = {0: (1, 1), 1: (1, 2), 2: (2, 1), 3: (2, 2)}[a]
        else:
            cmds = [1 if (a >> (2 - j)) & 1 else 2 for j in range(3)]
        return {b for b in (leg.command(c) for leg, c in zip(self.legs, cmds)) if b > 0}

    def output(self, i, dt):
        if self.kind == "Multi":
            out, p = [], 0
            for s in self.subs:
                out += s.output(i[p:p + s.n_cur], dt)
                p += s.n_cur
            return out
        if self.kind == "1QC":
            return [float(self.on) if i[0] >= 0 else 1.0]
        for leg in self.legs:
            leg.at(dt)
        if self.kind == "2QC":
            return [self.legs[0].level(i[0])]
        if self.kind == "4QC":
            return [self.legs[0].level(i[0]) - self.legs[1].level(-i[0])]
        return [leg.level(x) - 0.5 for leg, x in zip(self.legs, i)]

    def i_sup(self, i):
        if self.kind == "Multi":
            out, p = 0.0, 0
            for s in self.subs:
                out += s.i_sup(i[p:p + s.n_cur])
                p += s.n_cur
            return out
        if self.kind == "1QC":
            return i[0] if self.on == 1 else 0.0
        if self.kind == "2QC":
            return self.legs[0].level(i[0]) * i[0]
        if self.kind == "4QC":
            return self.legs[0].level(i[0]) * i[0] - self.legs[1].level(-i[0]) * i[0]
        return sum(leg.level(x) * x for leg, x in zip(self.legs, i))

    def key(self):
        if self.kind == "Multi":
            return tuple(s.key() for s in self.subs)
        return (self.on,) + tuple(leg.state for leg in self.legs)


def build(spec, tau, via_setter):
    """The real converter. via_setter: build with another tau first and set tau afterwards (as the system does)."""
    kind = spec[0]
    tau0 = tau * 7 if via_setter else tau
    if kind == "Multi":
        subs = [build(s, tau0, False) for s in spec[1]]
        c = cv.FiniteMultiConverter(subconverters=subs, tau=tau0)
    else:
        cls = {"1QC": cv.FiniteOneQuadrantConverter, "2QC": cv.FiniteTwoQuadrantConverter,
               "4QC": cv.FiniteFourQuadrantConverter, "B6": cv.FiniteB6BridgeConverter}[kind]
        c = cls(tau=tau0, interlocking_time=spec[1])
    if via_setter:
        c.tau = tau
    return c
