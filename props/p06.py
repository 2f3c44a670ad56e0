import vf


def tree(rng, d):
    if d == 0 or rng.random() < 0.12:
        k = rng.random()
        if k < 0.45:
            return ["p", rng.randint(1, 4)]
        if k < 0.52:
            return ["c", rng.choice([0, 1, -1]), 1, 0, 1]
        if k < 0.85:
            return ["c", rng.randint(-4, 4), rng.choice([1, 1, 2, 4, 3]), 0, 1]
        return ["c", rng.randint(-2, 2), 1, rng.randint(-2, 2), 1]
    k = rng.random()
    if k < 0.66:
        return [rng.choice("+-*/+-*"), tree(rng, d - 1), tree(rng, d - 1)]
    if k < 0.80:
        return [rng.choice(["neg", "conj", "real", "imag", "cse", "csens", "simp", "simpx", "norm"]), tree(rng, d - 1)]
    if k < 0.84:
        return ["^", tree(rng, d - 1), ["c", rng.randint(-1, 3), 1, 0, 1]]
    if k < 0.86:
        return ["fpow", tree(rng, d - 1), rng.randint(-2, 3)]
    if k < 0.92:
        return [rng.choice([">", "<", ">=", "<=", "&&", "||", "==", "fmod"]), tree(rng, d - 1), tree(rng, d - 1)]
    if k < 0.96:
        return ["?", [rng.choice(["<", ">"]), tree(rng, d - 1), tree(rng, d - 1)], tree(rng, d - 1), tree(rng, d - 1)]
    return [rng.choice(["+=", "-=", "*=", "/="]), tree(rng, d - 1), tree(rng, d - 1)]


def run(c):
    vf.build("p06")
    beh, r = vf.explore("MC_P06", env=dict(DEPTH="2" if c.thorough else "1"))
    c.add_tlc(r, "expression trees")
    c.replay("p06", beh, "tree of the enumerated families")
    val = lambda: [c.rng.randint(-3, 4), c.rng.choice([1, 1, 2])]
    hs = [[dict(f="tree", t=tree(c.rng, c.rng.randint(2, 5)), envs=[[val() for _ in range(4)] for _ in range(2)])] for _ in range(60000 if c.thorough else 8000)]
    c.validate("p06", hs, "TV_P06", "random tree", chunk=4000)
