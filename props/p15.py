import vf
DIM = dict(a=4, b=2, c=3, d=2, e=3, f=4, g=2)


def tensor(rng, q):
    n = 1
    for x in q:
        n *= DIM[x[0]]
    return dict(d=[DIM[x[0]] for x in q], v=[[rng.randint(-3, 3), rng.choice([0, 0, 0, 1, -2])] for _ in range(n)])


def expr(rng, ts, depth):
    """a random index expression; returns (expression, free labels)"""
    k = rng.random()
    if depth == 0 or k < 0.15:
        q = [[x, rng.random() < 0.3 if x in "af" else False] for x in rng.sample("abcdefg", rng.choice([1, 1, 2, 2, 3]))]
        ts.append(tensor(rng, q))
        return ["T", len(ts), q], q
    if k < 0.3:
        e, q = expr(rng, ts, depth - 1)
        return ["s", [rng.randint(-3, 3), rng.choice([0, 1])], e], q
    if k < 0.45:
        e, q = expr(rng, ts, depth - 1)
        r = list(q)
        rng.shuffle(r)
        ts.append(tensor(rng, r))
        return [rng.choice("+-"), e, ["T", len(ts), r]], q
    a, qa = expr(rng, ts, depth - 1)
    b, qb = expr(rng, ts, depth - 1)
    la, lb = {x[0] for x in qa}, {x[0] for x in qb}
    return ["*", a, b], [x for x in qa if x[0] not in lb] + [x for x in qb if x[0] not in la]


def size(q):
    n = 1
    for x in q:
        n *= DIM[x[0]]
    return n


def run(c):
    vf.build("p15")
    beh, r = vf.explore_sharded("MC_P15", env=dict(DEPTH="5" if c.thorough else "4", DEEP="1" if c.thorough else "0"), timeout=2400)
    c.add_tlc(r, "every label pattern of products, sums, reorderings and chains; symmetric storage histories")
    c.replay("p15", vf.dedup_maximal(beh), "tensor case")
    hs = []
    while len(hs) < (6000 if c.thorough else 600):
        ts = []
        e, q = expr(c.rng, ts, c.rng.choice([1, 2, 3]))
        if len(q) > 4 or size(q) > 200 or sum(len(t["v"]) for t in ts) > 150:
            continue
        hs.append([dict(f="calc", e=e, ts=ts, live=c.rng.random() < 0.5)])
    for _ in range(1000 if c.thorough else 150):
        n = c.rng.choice([2, 3, 3, 4])
        cx = c.rng.random() < 0.4
        hs.append([dict(f="matinv", t=dict(d=[n, n], v=[[c.rng.randint(-3, 4), c.rng.randint(-2, 2) if cx else 0] for _ in range(n * n)]), live=c.rng.random() < 0.5)])
    c.validate("p15", hs, "TV_P15", "random index expressions and inverses", chunk=60)
