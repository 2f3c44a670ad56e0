import cmath
import math

import vf

NAMES = ["rho(770)0", "rho(1450)0", "K(0)*(1430)0", "K*(892)+", "K*(892)bar0", "omega(782)0", "eta0", "pi+", "pi-", "pi0", "K+", "K-", "K0", "eta'(958)0", "f(0)(980)0", "a(0)(980)0", "PiPi00", "K(1)(1270)+", "f(2)(1270)0", "D0"]


def inverse(m):
    n = len(m)
    a = [list(m[i]) + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for i in range(n):
        k = max(range(i, n), key=lambda r: abs(a[r][i]))
        a[i], a[k] = a[k], a[i]
        a[i] = [x / a[i][i] for x in a[i]]
        for r in range(n):
            if r != i:
                a[r] = [x - a[r][i] * y for x, y in zip(a[r], a[i])]
    return [r[n:] for r in a]


class Terms:
    """Numerical value of a term of the specification."""

    def __init__(self, props, pars, pt):
        self.props, self.pars, self.pt, self.memo = props, pars, pt, {}

    def __call__(self, t):
        k = id(t)
        if k not in self.memo:
            self.memo[k] = self.value(t)
        return self.memo[k]

    def value(self, t):
        f = t[0]
        if f == "q":
            return t[1] / t[2]
        if f in ("s", "s1", "s2"):
            return self.pt[("s", "s1", "s2").index(f)]
        if f == "i":
            return 1j
        if f == "pi":
            return math.pi
        if f == "par":
            return self.pars[t[1]]
        if f == "prop":
            return self.props[t[1]][("mass", "width", "radius").index(t[2])]
        if f == "dot":
            a, b = self.pt[4 * t[1]:4 * t[1] + 4], self.pt[4 * t[2]:4 * t[2] + 4]
            return a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]
        if f == "at":
            return Terms(self.props, self.pars, [self(x) for x in t[2:5]])(t[1])
        if f == "knot":
            return self(t[1][int(round(self.pt[0])) - 1])
        if f == "inv":
            return inverse([[complex(self(x)) for x in row] for row in t[1]])
        if f == "el":
            return complex(self(t[1])[t[2] - 1][t[3] - 1])
        if f == "if":
            return self(t[2]) if self(t[1]) > 0 else self(t[3])
        a = self(t[1])
        if f == "log" and not isinstance(a, complex) and a < 0:
            a = complex(a)
        if f == "sqrt":
            if isinstance(a, complex):
                return cmath.sqrt(a)
            return math.sqrt(a) if a >= 0 else 1j * math.sqrt(-a)
        if f == "abs":
            return abs(a)
        if f == "pos":
            return a if a > 0 else 0.0
        if f in ("exp", "cos", "sin", "log"):
            return getattr(cmath if isinstance(a, complex) else math, f)(a)
        b = self(t[2])
        return a + b if f == "+" else a - b if f == "-" else a * b if f == "*" else a / b


def num(q):
    # a negative second number: a root
    return math.sqrt(q[0]) if q[1] == -2 else q[0] / q[1]


def run(c):
    vf.build("p28")
    beh, r = vf.explore("MC_P28", timeout=600)
    c.add_tlc(r, "line shapes as terms")
    props = dict(zip(NAMES, [[float(x) for x in p] for p in vf.run_driver("p28", [[{"f": "props", "names": NAMES}]])[0][0]]))
    out = []
    for b in beh:
        kind, name, p, L, opts, pars, pts, term = b[0][1]
        P = [[x / 100 for x in q] for q in pts] if kind == "event" else [[q[0] / q[1], q[2] / q[3], q[4] / q[5]] for q in pts]
        sh = lambda x: "%.17g" % x

        def want(values):
            w = []
            for pt in P:
                try:
                    z = complex(Terms(props, values, pt)(term))
                except ZeroDivisionError:
                    raise vf.CheckError("the specification of %s is singular at %s" % (name, pt))
                w.append([sh(z.real), sh(z.imag)])
            return w
        one = {x[0]: num(x[2]) for x in pars}
        two = {x[0]: num(x[3]) for x in pars}
        give = lambda v: [[k, sh(v[k])] for k in v]
        sets = [{"pars": give(one), "want": want(one), "next": give(two) if pars else [], "want2": want(two) if pars else []}]
        if pars and all(x[1][0] != "none" for x in pars):
            dflt = {x[0]: float(Terms(props, {}, P[0])(x[1])) for x in pars}
            sets.append({"pars": [], "want": want(dflt), "next": [], "want2": []})
        n = sum((2 if s["next"] else 1) * len(P) for s in sets)
        out.append([[{"f": kind, "name": name, "p": p, "L": L, "opts": opts, "pts": [[sh(x) for x in q] for q in P], "sets": sets}, ["ok"] * n]])
    c.notes["shapes"] = len(out)
    c.replay("p28", out, "line shape", timeout_each=120)
