import vf


def run(c):
    vf.build("p08")
    for f in (1, 2, 3, 4):
        beh, r = vf.explore("MC_P08", env=dict(FUN=str(f), DEPTH=("7" if c.thorough else "5")))
        c.add_tlc(r, "histories of function %d" % f)
        c.replay("p08", vf.dedup_maximal(beh), "history of changes, transfers and evaluations", timeout_each=120)
    beh, r = vf.explore("MC_P08", env=dict(FUN="0", DEPTH="1"))
    c.add_tlc(r, "compiled-in constants")
    c.replay("p08", beh, "constants and parameters built into the generated code", timeout_each=120)
    rng = c.rng
    hs = []
    for _ in range(3000 if c.thorough else 600):
        n, h = 4, []
        for _ in range(rng.randint(10, 40)):
            k = rng.random()
            if k < 0.35:
                h.append(dict(f="set", p=rng.choice(["p1", "p2", "lam", "k"]), v=rng.randint(-40, 40)))
            elif k < 0.55:
                h.append(dict(f="prepare", k=rng.randint(1, n)))
            elif k < 0.63:
                h.append(dict(f="ack", k=rng.randint(1, n)))
            elif k < 0.76:
                h.append(dict(f="changed", k=rng.randint(1, n)))
            elif k < 0.93:
                h.append(dict(f="eval", k=rng.randint(1, n), vs=[rng.randint(-5, 5) for _ in range(3)]))
            elif k < 0.97 and n < 9:
                h.append(dict(f="copy", k=rng.randint(1, n)))
                n += 1
            else:
                h.append(dict(f="assign", k=rng.randint(1, n), j=rng.randint(1, n)))
        hs.append(h)
    c.validate("p08", hs, "TV_P08", "random history", chunk=4000, timeout_each=120)
