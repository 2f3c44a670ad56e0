import vf
NAMES = ["a", "b", "c", "z", "w::x", "K*(892)+_mass", "K*(892)bar-_mass", "K*(892)0_width", "K*(892)bar0_width", "D0_radius", "Dbar0_mass", "a(1)(1260)+_width", "rho(770)0_mass", "Lambda0_mass", "K(1)(1270)+_x", "D0{K-,pi+}"]
FL = ["Free", "Fix", "Hide", "Blind", "CompileTimeConstant", "0", "2", "4", "7", "free", ""]


def line(rng):
    num = lambda: rng.choice(["1", "2", "-3", "0", "0.5", "+4", "-0.25", "12.5", "x"] if rng.random() < 0.1 else ["1", "2", "-3", "0", "0.5", "+4", "-0.25", "12.5"])
    fl = lambda: rng.choice(FL[:8] if rng.random() < 0.95 else FL[:10])
    n = rng.choice(NAMES)
    k = rng.random()
    if k < 0.3:
        return [n, fl(), num(), num()]
    if k < 0.45:
        return [n, fl(), num(), num(), num(), num()]
    if k < 0.6:
        return [n, fl(), num(), num(), fl(), num(), num()]
    if k < 0.7:
        return [n, fl(), num(), num(), num(), num(), fl(), num(), num(), num(), num()]
    if k < 0.92:
        refs = ["a", "b", "c", "z", "w::x", "a_Re", "2", "3", "0.5", "K*(892)+_mass", "nobody", "I"]
        return [rng.choice(["c", "d", "e", "K*(892)+_width", n]), "=", rng.choice(refs)] + sum([[rng.choice("+-*"), rng.choice(refs)] for _ in range(rng.randint(0, 2))], [])
    return [n] + [rng.choice(["1", "Free", "q", "2.5"]) for _ in range(rng.randint(0, 9))]


def history(rng):
    ops = [dict(f=rng.choice(["load", "load", "file"]), lines=[line(rng) for _ in range(rng.randint(1, 9))])]
    for _ in range(rng.randint(0, 3)):
        ops.append(dict(f="set", n=rng.choice(NAMES + ["z_Re", "a_Im"]), x=[rng.randint(-8, 8), rng.choice([1, 2])]))
    return ops


def run(c):
    vf.build("p04")
    beh, r = vf.explore("MC_P04", env=dict(DEPTH="2" if c.thorough else "1"))
    c.add_tlc(r, "parameter files")
    c.replay("p04", vf.dedup_maximal(beh), "file of the enumerated families")
    hs = [history(c.rng) for _ in range(15000 if c.thorough else 2500)]
    c.validate("p04", hs, "TV_P04", "random file", chunk=2500)
