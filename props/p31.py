import vf


def run(c):
    vf.build("p31")
    beh, r = vf.explore("MC_P31", env=dict(DEEP="1" if c.thorough else "0"))
    c.add_tlc(r, "monomials over boxes, one-dimensional integrals, histories of the three-body integrator")
    c.replay("p31", vf.dedup_maximal(beh), "integration case")
    hs = []
    for _ in range(4000 if c.thorough else 400):
        d = c.rng.choice([2, 2, 3, 3, 4, 5])
        p = []
        for _ in range(c.rng.randint(1, 4)):
            e = [0] * d
            for _ in range(c.rng.randint(0, 7)):
                e[c.rng.randrange(d)] += 1
            p.append(dict(c=c.rng.choice([-3, -2, -1, 1, 2, 3, 5]), e=e))
        p.append(dict(c=c.rng.choice([1, 4]), e=[0] * d))
        lo = [c.rng.randint(-2, 1) for _ in range(d)]
        hi = [x + c.rng.choice([1, 1, 2, -1]) for x in lo]
        hi = [x if x <= 2 else 2 for x in hi]
        hi = [y if y > x else x + 1 for x, y in zip(lo, hi)]
        h = [dict(f="box", d=d, p=p, lo=lo, hi=hi, r=c.rng.choice(["whole", "whole", "lanes", "one"]))]
        q = [c.rng.randint(0, 3), c.rng.randint(0, 3), c.rng.randint(0, 3)]
        h.append(dict(f="set", q=[sum(q) + c.rng.randint(1, 4)] + q))
        for _ in range(3):
            h.append(dict(f="point", m=c.rng.choice([0, 0, 13]), u=c.rng.randint(-1, 1), v=c.rng.randint(-1, 1)))
        hs.append(h)
    c.validate("p31", hs, "TV_P31", "random polynomials and points", chunk=200)
