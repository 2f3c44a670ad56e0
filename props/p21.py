import vf

QS = [(-7, 2), (-3, 1), (-1, 1), (-1, 4), (0, 1), (1, 2), (1, 1), (3, 4), (2, 1), (5, 1), (9, 4), (-5, 8), (11, 8)]


def lanes(rng, nz=False):
    return [list(rng.choice([q for q in QS if q[0]] if nz else QS)) + [0, 1] for _ in range(8)]


def clanes(rng):
    return [list(rng.choice(QS)) + list(rng.choice(QS)) for _ in range(8)]


def nonzero(zs):
    return [z if z[0] or z[2] else [1, 1, z[2], z[3]] for z in zs]


def history(rng):
    t = rng.choice("df")
    h = []
    for _ in range(rng.randint(3, 8)):
        k = rng.choice(["bin", "cmp", "fma", "cbin", "crbin", "rcbin", "sel", "csel", "mask", "not", "el", "el", "prog"])
        m, n = [rng.randint(0, 1) for _ in range(8)], [rng.randint(0, 1) for _ in range(8)]
        if k == "bin":
            o = rng.choice(["+", "-", "*", "/", "fmod", "rem"])
            b = lanes(rng, o in ("/", "fmod", "rem"))
            h.append(dict(f=k, o=o, t=t, a=lanes(rng), b=[[abs(x[0])] + x[1:] for x in b] if o == "rem" else b))
        elif k == "cmp":
            h.append(dict(f=k, o=rng.choice(["<", ">", "<=", ">=", "=="]), t=t, a=lanes(rng), b=lanes(rng)))
        elif k == "fma":
            h.append(dict(f=k, t=t, a=lanes(rng), b=lanes(rng), c=lanes(rng)))
        elif k in ("cbin", "crbin", "rcbin"):
            o = rng.choice("+-*/")
            b = clanes(rng)
            if o == "/":
                b = [list(x[:2]) + [0, 1] for x in lanes(rng, True)] if k == "crbin" else nonzero(b)
            h.append(dict(f=k, o=o, t=t, a=clanes(rng), b=b))
        elif k == "sel":
            h.append(dict(f=k, t=t, m=m, a=lanes(rng), b=lanes(rng)))
        elif k == "csel":
            h.append(dict(f=k, o=rng.choice(["cc", "rc", "cr"]), t=t, m=m, a=clanes(rng), b=clanes(rng)))
        elif k == "mask":
            h.append(dict(f=k, o=rng.choice(["and", "or", "xor"]), t=t, m=m, n=n, w=rng.random() < 0.5))
        elif k == "not":
            h.append(dict(f=k, t=t, m=m))
        elif k == "el":
            h.append(dict(f=k, o=rng.choice(["sin", "cos", "sc.s", "sc.c", "tan", "exp", "log", "abs", "neg", "sqrt", "fmod", "atan2", "c.exp", "c.log", "c.sqrt"]), t=t,
                          a=[[rng.choice([-1, 1]) * rng.randint(1, 300), rng.choice([13, 17, 50]), rng.choice([-1, 1]) * rng.randint(1, 300), 31] for _ in range(8)],
                          b=[[rng.choice([-1, 1]) * rng.randint(1, 300), 37, 0, 1] for _ in range(8)]))
            if not h[-1]["o"].startswith("c."):
                for x in h[-1]["a"]:
                    x[2:] = [0, 1]
        else:
            h.append(dict(f="setr", t=t, a=lanes(rng)))
            for _ in range(rng.randint(1, 4)):
                h.append(dict(f="updr", o=rng.choice(["+=", "-=", "*="]), t=t, a=lanes(rng), self=rng.random() < 0.2))
            h.append(dict(f="setz", t=t, a=clanes(rng)))
            for _ in range(rng.randint(1, 3)):
                h.append(dict(f="updz", o=rng.choice(["+=", "-=", "*="]), t=t, a=clanes(rng), self=rng.random() < 0.2))
    return h


def run(c):
    vf.build("p21")
    t = c.thorough
    for part in ("un", "bin", "cplx", "mixed", "select", "el", "prog"):
        beh, r = vf.explore("MC_P21", env=dict(PART=part, DEPTH=str((5 if t else 4) if part == "prog" else 1), TIER="thorough" if t else "quick"))
        c.add_tlc(r, part)
        c.replay("p21", vf.dedup_maximal(beh), part)
    c.validate("p21", [history(c.rng) for _ in range(20000 if t else 2500)], "TV_P21", "random operations", chunk=5000)
