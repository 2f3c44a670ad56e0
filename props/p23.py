import os

import vf

LEAF = ["pi+", "pi-", "K+", "K-", "pi0", "mu+", "p+", "gamma0", "D-"]
WIDE = ["rho(770)0", "NonResS0", "a(1)(1260)+", "f(0)(1370)0", "K(0)*(1430)0", "sigma(0)0"]


def tree(rng, leaves, top):
    if len(leaves) == 1:
        return leaves[0]
    x = leaves[:]
    rng.shuffle(x)
    if len(x) > 2 and rng.random() < 0.15:
        return "%s{%s}" % (top, ",".join(x))
    k = rng.randint(1, len(x) - 1)
    n = rng.choice(["NonResS0", "NonResS0", "rho(770)0", "f(0)(1370)0"])
    return "%s{%s,%s}" % (top, tree(rng, x[:k], n), tree(rng, x[k:], n))


def history(rng):
    h = []
    r = rng.random()
    if r < 0.6:
        for _ in range(rng.randint(2, 10)):
            k = rng.choice(["block", "norm", "fill", "fill", "fill", "make", "make", "raw"])
            h.append(dict(f=k, v=rng.random() < 0.6) if k == "norm" else dict(f=k, n=rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 50]) if k == "block" else rng.choice([0, 1, 2, 3, 5, 8, 20])))
    elif r < 0.9:
        for _ in range(5):
            w = [rng.choice([0, 1, 1, 2, 3, 5, 8, 12]) for _ in range(rng.randint(1, 9))]
            if sum(w):
                h.append(dict(f="dice", ws=w))
    else:
        while True:
            m = rng.choice(["D0", "B0", "B+"])
            fs = [rng.choice(LEAF[:-1] if m == "D0" else LEAF) for _ in range(rng.randint(2, 5))]
            mass = dict(pi=.14, K=.494, mu=.106, p=.938, gamma=0, D=1.87)
            tot = sum(mass[x.rstrip("+-0")] for x in fs)
            if tot < dict(D=1.86, B=5.27)[m[0]] - 0.1:
                break
        heavy = "gamma0" not in fs
        chains = [] if rng.random() < 0.4 or not heavy else [tree(rng, fs, m) for _ in range(rng.choice([1, 1, 2, 3]))]
        n = rng.randint(1, 10**6)
        for how in ["one"] + ([] if chains else ["gen"]):
            h.append(dict(f="kin", t=[m] + fs, ch=chains, qs=[], td=not chains and rng.random() < 0.3, how=how, n=200, seed=n))
    return h


def run(c):
    os.environ["OMP_NUM_THREADS"] = "1"
    vf.build("p23")
    t = c.thorough
    T = dict(TIER="thorough" if t else "quick")
    for part, depth, what in (("gen", 6 if t else 5, "history of a generator"), ("dice", 1, "discrete distribution"), ("phsp", 1, "phase space")):
        beh, r = vf.explore("MC_P23", env=dict(PART=part, DEPTH=str(depth), **T))
        c.add_tlc(r, what)
        c.replay("p23", vf.dedup_maximal(beh), what, **(dict(timeout_each=600) if part == "phsp" else {}))
    c.validate("p23", [h for h in (history(c.rng) for _ in range(20000 if t else 3000)) if h], "TV_P23", "random history", chunk=10000)
