import vf
KINDS = {"S": 1, "V": 4, "f": 4, "F": 4, "T": 16, "r": 16, "R": 16, "A": 4}
PS = [(0, 0, 0, 1), (0, 0, 0, 2), (1, 1, 1, 2), (2, 2, 0, 3), (2, 1, 0, 3), (2, 2, 2, 4)]
NAMES = {}


def moment(rng):
    p = rng.choice(PS)
    x = [c * rng.choice((1, -1)) for c in p[:3]]
    rng.shuffle(x)
    return x + [p[3]]


def tensor(rng, k, top):
    c = lambda: [rng.randint(-top, top), rng.choice((0, 0, 1, -1))]
    if k == "T":
        t = [[c() for _ in range(4)] for _ in range(4)]
        return [t[min(i, j)][max(i, j)] for i in range(4) for j in range(4)]
    return [c() for _ in range(KINDS[k])]


def names():
    r = []
    fS, fV, rf, fr = "S S1 P P1 SL SR".split(), "S S1 SL SR P P1 P2 P3 D D1".split(), "P D".split(), "P P1 D".split()
    for x, ks in dict(S_SS="S", S_VV="S S1 P D", S_VS="P", S_TV="P D", S_TS="D", S_TT="S", V_SS="P", V_VS="P S D", V_TS="P D", V_VV="P P1 P2 S", T_VS="D P", T_SS="D", T_TS="S").items():
        r += [[x + "_" + k, x[0], x[2], x[3]] for k in ks.split()]
    for k in "S S1".split():
        r += [["S_fF_" + k, "S", "f", "f"], ["V_fF_" + k, "V" if k == "S" else "A", "f", "f"]]
    r += [["V_fF_PL", "V", "f", "f"], ["V_fF_PR", "V", "f", "f"]]
    for a, b, ks, o, i, j in (("f_fS", "F_FS", fS, "fF", "f", "S"), ("f_Vf", "F_VF", fV, "fF", "V", "f"), ("f_Tf", "F_TF", ["P"], "fF", "T", "f"), ("r_fS", "R_FS", rf, "rR", "f", "S"), ("f_rS", "F_RS", fr, "fF", "r", "S")):
        for k in ks:
            r += [[a + "_" + k, o[0], i, j], [b + "_" + k, o[1], i, j]]
    return r


def history(rng):
    x = rng.choice(ALL)
    p, q = moment(rng), [rng.randint(-2, 2) for _ in range(4)]
    return [dict(f="vertex", x=x, p=p, q=q, a=tensor(rng, x[2], 2), b=tensor(rng, x[3], 2 if x[3] != "T" else 1), live=rng.random() < 0.3)]


ALL = names()


def run(c):
    vf.build("p24")
    T = dict(TIER="thorough" if c.thorough else "quick")
    beh, r = vf.explore_sharded("MC_P24", env=dict(T, PART="vertex"), timeout=2400)
    c.add_tlc(r, "every spin coupling on a grid of momenta and spin tensors; laws (projection, covariance) checked on the specification")
    c.replay("p24", beh, "spin coupling")
    beh, r = vf.explore("MC_P24", env=dict(T, PART="object", SHARD="0", SHARDS="1"))
    c.add_tlc(r, "projectors, orbital tensors and external spin states")
    c.replay("p24", beh, "projector or external state", timeout_each=120)
    c.validate("p24", [history(c.rng) for _ in range(12000 if c.thorough else 1500)], "TV_P24", "random spin coupling", chunk=300)
