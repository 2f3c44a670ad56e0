import vf


def run(c):
    vf.build("p14")
    beh, r = vf.explore_sharded("MC_P14", env=dict(TOP="7" if c.thorough else "4"), timeout=2400)
    c.add_tlc(r, "all couplings, coefficients and rotation elements up to the bound")
    c.replay("p14", beh, "angular momentum")
    hs = []
    top = 24 if c.thorough else 16
    while len(hs) < (20000 if c.thorough else 3000):
        a, b = c.rng.randint(0, top), c.rng.randint(0, top)
        k = c.rng.random()
        if k < 0.4:
            cs = list(range(abs(a - b), a + b + 1, 2))
            x, y = c.rng.choice(cs), c.rng.choice(cs)
            if c.rng.random() < 0.4:
                y = x
            m = c.rng.randint(-min(x, y) - 1, min(x, y) + 1)
            m -= (m - x) % 2
            hs.append([dict(f="orth", a=a, b=b, c=x, d=y, m=m)])
        elif k < 0.6:
            ms = list(range(-a, a + 1, 2))
            M = c.rng.randint(-b, b)
            M -= (M - a - b) % 2
            ms = [m for m in ms if abs(M - m) <= b]
            if ms:
                hs.append([dict(f="full", a=a, b=b, M=M, m=c.rng.choice(ms), n=c.rng.choice(ms))])
        elif k < 0.8:
            j = c.rng.randint(0, min(top, 14))
            ms = list(range(-j, j + 1, 2))
            q = c.rng.randint(1, 9)
            m = c.rng.choice(ms)
            hs.append([dict(f="dorth", j=j, m=m, n=c.rng.choice(ms + [m] * 2), p=c.rng.randint(0, q), q=q)])
        else:
            j = [c.rng.randint(0, 6) for _ in range(2)]
            h = c.rng.randint(0, 10)
            hs.append([dict(f="rec", h=h, L=2 * c.rng.randint(0, 5), S=c.rng.choice(range(abs(j[0] - j[1]), sum(j) + 1)), a=j[0], b=j[1])])
    c.validate("p14", hs, "TV_P14", "laws at large angular momentum; helicity couplings", chunk=800)
