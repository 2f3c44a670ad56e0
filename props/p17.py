import os

import vf


def ev(rng):
    return dict(d=[rng.randint(-9, 9) for _ in range(12)], w=rng.randint(-3, 12), g=rng.choice([1, 2, 4, 8]))


def history(rng):
    n = dict(A=0, B=0, S=0)
    src, cf, h = None, 0, []
    for _ in range(rng.randint(12, 40)):
        k = rng.random()
        l, m = rng.choice([("A", "B"), ("B", "A")])
        if k < 0.10:
            q = rng.randint(1, 9)
            if n[l] + q > 25:
                continue
            h.append(dict(f="fill", l=l, es=[ev(rng) for _ in range(q)]))
            n[l] += q
            src = None if src == l else src
        elif k < 0.16:
            h.append(dict(f=rng.choice(["push", "emplace"]), l=l, e=ev(rng)))
            n[l] += 1
            src = None if src == l else src
        elif k < 0.20 and n[l] + n[m] < 25:
            h.append(dict(f="add", l=l, m=m))
            if n[m]:
                src = None if src == l else src
            n[l] += n[m]
        elif k < 0.23:
            h.append(dict(f="copy", l=l, m=m))
            n[m] = n[l]
            src = None if src == m else src
        elif k < 0.28 and n[l]:
            i = rng.randint(0, n[l] - 1)
            j = rng.randint(i, min(n[l], i + 3))
            h.append(dict(f="erase", l=l, i=i, j=j))
            n[l] -= j - i
            src = None if src == l else src
        elif k < 0.29:
            h.append(dict(f="clear", l=l))
            n[l] = 0
            src = None if src == l else src
        elif k < 0.31:
            q = rng.randint(0, 6)
            h.append(dict(f="resize", l=l, n=q))
            n[l] = q
            src = None if src == l else src
        elif k < 0.44 and n[l]:
            i = rng.randint(0, n[l] - 1)
            p = [0, 1, 2]
            rng.shuffle(p)
            a, b = rng.sample([0, 1, 2], 2)
            h.append(rng.choice([
                dict(f="setw", l=l, i=i, w=rng.randint(-9, 9), g=rng.choice([1, 2, 4])), dict(f="setw1", l=l, i=i, w=rng.randint(0, 9)), dict(f="setg", l=l, i=i, g=rng.choice([1, 2, 4])),
                dict(f="swap", l=l, i=i, a=a, b=b), dict(f="reorder", l=l, i=i, p=p), dict(f="setp", l=l, i=i, a=a, q=[rng.randint(-9, 9) for _ in range(4)]),
                dict(f="setx", l=l, i=i, k=rng.randint(0, 11), x=rng.randint(-9, 9)), dict(f="setall", l=l, i=i, d=[rng.randint(-9, 9) for _ in range(12)])]))
        elif k < 0.47:
            h.append(dict(f="scale", l=l, k=rng.choice([-1, 2])))
        elif k < 0.55:
            h.append(dict(f="dump", l=l))
        elif k < 0.60:
            h.append(dict(f="sums", l=l))
        elif k < 0.64 and n[l]:
            s = [0, 1, 2]
            rng.shuffle(s)
            h.append(dict(f="inv", l=l, i=rng.randint(0, n[l] - 1), sub=s[:rng.randint(0, 3)]))
        elif k < 0.70:
            h.append(dict(f="tosimd", l=l))
            n["S"] = n[l]
            src = None if src == "S" else src
        elif k < 0.75:
            h.append(dict(f="sdump"))
        elif k < 0.79:
            h.append(dict(f="ssum"))
        elif k < 0.81:
            h.append(dict(f="sscale", k=rng.choice([-1, 2])))
        elif k < 0.83 and n["S"]:
            b = rng.randint(0, (n["S"] - 1) // 4)
            ws = [rng.randint(0, 9) if 4 * b + i < n["S"] else 0 for i in range(4)]
            h.append(dict(f="ssetw", b=b, ws=ws, gs=[rng.choice([1, 2, 4]) for _ in range(4)]))
        elif k < 0.85 and n["S"]:
            h.append(dict(f="sfirst", n=rng.randint(1, n["S"])))
        elif k < 0.90:
            l = rng.choice(["A", "B", "S"])
            if n[l]:
                src, cf = l, rng.randint(1, 4)
                h.append(dict(f="calloc", l=l, al=rng.choice(["AoS", "SoA"]), n=cf))
                for q in range(1, cf + 1):
                    if rng.random() < 0.8:
                        h.append(dict(f="cupdate", k=q))
        elif src and k < 0.94:
            h.append(dict(f="cupdate", k=rng.randint(1, cf)))
        elif src:
            h.append(dict(f="cread", k=rng.randint(1, cf)))
    return h


def run(c):
    os.environ["OMP_NUM_THREADS"] = "2"
    vf.build("p17")
    t = c.thorough
    for part, depth in (("lists", 5 if t else 4), ("simd", 6 if t else 5), ("cache", 6 if t else 5)):
        beh, r = vf.explore("MC_P17", env=dict(PART=part, DEPTH=str(depth)))
        c.add_tlc(r, "histories: " + part)
        c.replay("p17", vf.dedup_maximal(beh), "history of %s" % dict(lists="event lists", simd="vectorised lists", cache="caches over lists")[part])
    beh, r = vf.explore("MC_P17K")
    c.add_tlc(r, "event types")
    c.replay("p17", beh, "event type")
    c.validate("p17", [history(c.rng) for _ in range(6000 if t else 1200)], "TV_P17", "random history", chunk=4000)
