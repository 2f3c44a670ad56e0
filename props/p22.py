import os

import vf


def history(rng):
    h = []
    r = rng.random()
    if r < 0.4:
        small = [0] * 4
        for _ in range(rng.randint(3, 25)):
            v = [[rng.randint(-3, 3), 0] if rng.random() < 0.5 else [0, rng.randint(-3, 3)] for _ in range(4)]
            small = [max(abs(a + x[1]), 0) for a, x in zip(small, v)]
            if max(small) > 50:
                break
            h.append(dict(f=rng.choice(["add", "plus"]), v=v))
    elif r < 0.6:
        q = []
        for _ in range(rng.randint(1, 25)):
            v = [0, 0, 0]
            v[rng.randint(0, 2)] = rng.choice([-1, 1])
            q.append(v)
        h.append(dict(f="klein", q=q))
    elif r < 0.8:
        n = [3, 4, 6, 5, 7, 4, 4]
        lo = [(0, 1), (0, 1), (0, 1), (-1, 1), (3, 10), (1, 2), (1, 2)]
        st = [(1, 1), (1, 1), (1, 10), (1, 2), (4, 10), (1, 2), (1, 2)]
        for _ in range(rng.randint(4, 20)):
            k = rng.randint(1, 7)
            j = rng.random()
            if j < 0.5:
                h.append(dict(f="knot", k=k, i=rng.randint(1, n[k - 1]), v=rng.randint(-3, 3)))
            elif j < 0.75:
                h.append(dict(f="prep", k=k))
            else:
                a, b = lo[k - 1], st[k - 1]
                xs = []
                for _ in range(4):
                    m, d = rng.randint(0, 4 * (n[k - 1] - 1) + 2), 4
                    num, den = a[0] * b[1] * d + m * b[0] * a[1], a[1] * b[1] * d
                    xs.append([num, den])
                h.append(dict(f="pair" if k > 5 and rng.random() < 0.3 else "eval", k=k, x=xs))
    else:
        for _ in range(6):
            z = lambda: [rng.randint(1, 30), rng.randint(1, 7)]
            f = rng.choice(["bw", "bwn", "q2", "bl", "width"])
            L = rng.randint(0, 4)
            if f == "bw":
                h.append(dict(f=f, L=L, z=z()))
            elif f == "bwn":
                h.append(dict(f=f, L=L, z=z(), z0=z()))
            else:
                o = dict(f=f, s=z(), a=rng.choice([[0, 1], [1, 4], [1, 9]]), b=rng.choice([[0, 1], [1, 4]]))
                if f != "q2":
                    o.update(L=L, m=rng.choice([[1, 1], [3, 2], [2, 1]]), r=rng.choice([[0, 1], [1, 1], [2, 1], [3, 2]]))
                h.append(o)
    return h


def run(c):
    os.environ["OMP_NUM_THREADS"] = "1"
    vf.build("p22")
    t = c.thorough
    T = dict(TIER="thorough" if t else "quick")
    jobs = [("sum", 5 if t else 3, {}, "compensated sum"), ("klein", 1, {}, "sum of a series"), ("barrier", 1, {}, "barrier factors and widths")]
    jobs += [("spline", {1: 5, 2: 5, 3: 4, 4: 4, 5: 4, 6: 4}[k] - (0 if t else 1), dict(SP=str(k)), "histories of spline %d" % k) for k in (1, 2, 3, 4, 5, 6)]
    for part, depth, e, what in jobs:
        beh, r = vf.explore("MC_P22", env=dict(PART=part, DEPTH=str(depth), **dict(T, **dict(dict(SP="1"), **e))))
        c.add_tlc(r, what)
        c.replay("p22", vf.dedup_maximal(beh), what, timeout_each=120)
    c.validate("p22", [h for h in (history(c.rng) for _ in range(12000 if t else 2000)) if h], "TV_P22", "random history", chunk=5000, timeout_each=120)
