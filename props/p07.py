import json, os
import vf

ARITH = "+-*/+-*"
PARS = [1, 2, 3, 4, 5, 6, 7]


class Gen:
    """Random well-typed trees; sub-expressions made earlier in a group are used again."""

    def __init__(self, rng, simd):
        self.rng, self.simd, self.poolR, self.poolC = rng, simd, [], []

    def const(self):
        return ["c", self.rng.choice([1, 2, 3, -1, -3, 5]), self.rng.choice([1, 1, 2, 4]), 0, 1]

    def R(self, d):
        g = self.rng
        if d == 0 or g.random() < 0.1:
            return g.choice([["v", 1], ["v", 2], ["v", 1], ["v", 2], ["p", g.choice(PARS)], ["p", g.choice(PARS)], self.const()])
        k = g.random()
        if k < 0.45:
            return [g.choice(ARITH), self.R(d - 1), self.R(d - 1)]
        if k < 0.60:
            if self.poolR and g.random() < 0.6:
                return g.choice(self.poolR)
            t = [g.choice(["cse", "cse", "csens"]), self.R(d - 1)]
            if t[1][0] not in ("c", "v", "p"):
                self.poolR.append(t)
            return t
        if k < 0.72:
            return ["?", self.B(d - 1), self.R(d - 1), self.R(d - 1)]
        if k < 0.78:
            return ["sqrt", ["*"] + [self.R(d - 1)] * 2]
        if k < 0.82:
            return [g.choice(["neg", "abs"]), self.R(d - 1)]
        if k < 0.84:
            return ["fpow", self.R(d - 1), g.choice([2, 3, -1])]
        if k < 0.86 and not self.simd:
            return ["^", self.R(d - 1), ["c", g.choice([2, 3, -1]), 1, 0, 1]]
        return [g.choice(["real", "imag", "norm"]), self.C(d - 1)]

    def B(self, d):
        g = self.rng
        if d > 0 and g.random() < 0.25:
            return [g.choice(["&&", "||"]), self.B(d - 1), self.B(d - 1)]
        return [g.choice([">", "<", ">=", "<="]), self.R(max(0, d - 1)), self.R(max(0, d - 1))]

    def C(self, d):
        g = self.rng
        if d == 0 or g.random() < 0.1:
            return g.choice([["z"], ["*", ["z"], ["v", 1]], ["+", ["z"], ["v", 2]]])
        k = g.random()
        if k < 0.25:
            return [g.choice(ARITH), self.C(d - 1), self.C(d - 1)]
        if k < 0.45:
            return [g.choice(ARITH), self.R(d - 1), self.C(d - 1)]
        if k < 0.60:
            return [g.choice(ARITH), self.C(d - 1), self.R(d - 1)]
        if k < 0.75:
            if self.poolC and g.random() < 0.6:
                return g.choice(self.poolC)
            t = [g.choice(["cse", "cse", "csens"]), self.C(d - 1)]
            self.poolC.append(t)
            return t
        if k < 0.85:
            return [g.choice(["conj", "neg"]), self.C(d - 1)]
        return ["?", self.B(d - 1), self.C(d - 1), g.choice([self.R, self.C])(d - 1)]


def group(beh, n):
    out = {}
    for [[o, e]] in beh:
        out.setdefault(o["simd"], []).append((o, e))
    res = []
    for v in out.values():
        for i in range(0, len(v), n):
            part = v[i:i + n]
            res.append([[dict(part[0][0], ts=[o["ts"][0] for o, _ in part]), [e[0] for _, e in part]]])
    return res


def run(c):
    vf.build("p07")
    beh, r = vf.explore("MC_P07", env=dict(SIZE="2" if c.thorough else "1", PART="families", TREES="/dev/null"))
    c.add_tlc(r, "expression trees")
    c.notes["trees"] = len(beh)
    c.replay("p07", group(beh, 60), "compiled trees of the enumerated families", timeout_each=200)
    val = lambda: [c.rng.choice([-3, -2, -1, 1, 2, 3, 4]), c.rng.choice([1, 1, 1, 2])]
    hs = []
    for k in range(120 if c.thorough else 24):
        simd = int(k % 4 != 0)
        g = Gen(c.rng, simd)
        hs.append(dict(f="jit", share=k % 2, simd=simd, ts=[c.rng.choice([g.R, g.C])(c.rng.randint(2, 4)) for _ in range(40)],
                       evs=[[val(), val()] for _ in range(c.rng.randint(1, 9))], pars=[[val() for _ in range(9)] for _ in range(2)]))
    os.makedirs(vf.OUT + "/trace", exist_ok=True)
    p = "%s/trace/p07-%d.ndjson" % (vf.OUT, os.getpid())
    open(p, "w").write("\n".join(json.dumps(h) for h in hs) + "\n")
    beh, r = vf.explore("MC_P07", env=dict(SIZE="1", PART="given", TREES=p))
    os.unlink(p)
    c.add_tlc(r, "random groups of trees")
    c.notes["random_trees"] = sum(len(b[0][0]["ts"]) for b in beh)
    c.replay("p07", beh, "random compiled trees", timeout_each=200)
