import vf
OPS = ["^", "/", "*", "-", "+", "-", "+", "*", "/", ">", "<", "&&"]


def expr(rng, d):
    n = rng.randint(1, 4)
    t = []
    for k in range(n):
        if k:
            o = rng.choice(OPS)
            t.append(o)
            if o == "^":
                t.append(rng.choice(["2", "1", "0", "3", "-1"]))
                continue
        r = rng.random()
        if d > 0 and r < 0.35:
            t += ["("] + expr(rng, d - 1) + [")"]
        elif d > 0 and r < 0.45:
            t += [rng.choice(["real", "imag", "abs", "sqrt"]), "("] + expr(rng, d - 1) + [")"]
        elif d > 0 and r < 0.5:
            t += ["Ternary", "("] + expr(rng, d - 1) + [","] + expr(rng, d - 1) + [","] + expr(rng, d - 1) + [")"]
        else:
            t.append(rng.choice(["1", "2", "3", "-2", "0", "0.5", "1.25", "a", "b", "z", "par::x", "I", "i", "a", "b", "nobody", "+4", "pi"]))
    return t


def history(rng):
    ops = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.7:
            ops.append(dict(f="parse", toks=expr(rng, rng.randint(0, 3)), sp=rng.randint(1, 3), via=rng.randint(0, 1)))
        else:
            ops.append(dict(f="set", vals=[[rng.randint(-4, 6), rng.choice([1, 1, 2, 4])] for _ in range(5)]))
    return ops


def run(c):
    vf.build("p05")
    for coord in ["cart", "polar", "polardeg"]:
        beh, r = vf.explore("MC_P05", env=dict(COORD=coord))
        c.add_tlc(r, "expression strings (%s)" % coord)
        c.replay("p05", vf.dedup_maximal(beh), "string of the enumerated families (%s)" % coord, env=dict(COORD=coord))
    hs = [history(c.rng) for _ in range(30000 if c.thorough else 4000)]
    c.validate("p05", hs, "TV_P05", "random strings", chunk=4500)
