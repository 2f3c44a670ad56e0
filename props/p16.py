import vf


def gen(rng):
    while True:
        t = rng.choice("rb")
        q = [rng.randint(0, 3)] + [rng.randint(-2, 2) for _ in range(3)]
        s = sum(x * x for x in q[1:])
        n = q[0] ** 2 + (s if t == "r" else -s)
        if 0 < n <= 12 and q[0] ** 2 + s <= 14:
            return dict(t=t, q=q)


def norm(T):
    s = sum(x * x for x in T["q"][1:])
    return T["q"][0] ** 2 + (s if T["t"] == "r" else -s)


def bound(T):
    return sum(x * x for x in T["q"])


def history(rng):
    """a random history; sequences are kept short enough for 32-bit integers"""
    ops, size = [], [1, 1]
    cap = 3000000
    for _ in range(rng.randint(3, 14)):
        r, a, b = (rng.randint(1, 2) for _ in range(3))
        k = rng.random()
        if k < 0.4:
            T = gen(rng)
            if size[r - 1] * 2 * bound(T) < cap:
                size[r - 1] *= 2 * bound(T)
                ops.append(dict(f="push", r=r, T=T))
        elif k < 0.5:
            T = gen(rng)
            size[r - 1] = 2 * bound(T)
            ops.append(dict(f="one", r=r, T=T))
        elif k < 0.6:
            T, U = gen(rng), gen(rng)
            size[r - 1] = 4 * bound(T) * bound(U)
            ops.append(dict(f="pair", r=r, T=T, U=U))
        elif k < 0.68:
            if size[r - 1] * size[a - 1] < cap:
                size[r - 1] *= size[a - 1]
                ops.append(dict(f="app", r=r, a=a))
        elif k < 0.76:
            if size[b - 1] * size[a - 1] < cap:
                size[r - 1] = size[a - 1] * size[b - 1]
                ops.append(dict(f="join", r=r, a=a, b=b))
        elif k < 0.84:
            size[r - 1] = size[a - 1]
            ops.append(dict(f=rng.choice(["inv", "inv", "copy"]), r=r, a=a))
        elif k < 0.87:
            size[r - 1] = 1
            ops.append(dict(f=rng.choice(["clear", "new"]), r=r))
        else:
            rep = rng.choice("vbs")
            ops.append(dict(f="apply", r=r, rep=rep, v=[[rng.randint(-5, 5), 0 if rep == "v" and k < 0.95 else rng.randint(-5, 5)] for _ in range(2 if rep == "s" else 4)]))
    return ops


def run(c):
    vf.build("p16")
    beh, r = vf.explore_sharded("MC_P16", env=dict(DEPTH="3" if c.thorough else "2", DEEP="1" if c.thorough else "0"), timeout=2400)
    c.add_tlc(r, "histories of two transformation sequences; every transform with small quaternion")
    c.replay("p16", vf.dedup_maximal(beh), "sequence history")
    c.validate("p16", [history(c.rng) for _ in range(5000 if c.thorough else 800)], "TV_P16", "random longer histories", chunk=700)
