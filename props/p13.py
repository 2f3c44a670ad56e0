import vf


def rows():
    out = []
    for f in ("mass_width.csv", "MintDalitzSpecialParticles.csv"):
        out += [l.rstrip("\n") for l in open(vf.REPO + "/options/" + f)]
    return [l for l in out if l and l[0] != "*"]


def names(rs):
    """names and numbers to ask for (any name is a legal question, so this need not be exact)"""
    n, ids = [], []
    for l in rs:
        f = [x.strip() for x in l.split(",")]
        if len(f) < 17:
            continue
        t = str.maketrans("+-", "-+")
        n += [f[16] + f[13], f[16] + f[13].translate(t), f[16] + "bar" + f[13], f[16] + "bar" + f[13].translate(t)]
        try:
            ids += [int(f[12]), -int(f[12])]
        except ValueError:
            pass
    return sorted(set(n)), sorted(set(ids))


def run(c):
    vf.build("p13")
    beh, r = vf.explore("MC_P13", env=dict(DEPTH="2" if c.thorough else "1"))
    c.add_tlc(r, "small particle files, aliases, additions, imports; flavour comparison")
    c.replay("p13", vf.dedup_maximal(beh), "particle file / flavour case")
    rs = rows()
    ns, ids = names(rs)
    hs = []
    # the database that ships with the code: every particle and antiparticle, by name and by number
    for k in range(0, len(ns), 400):
        hs.append([dict(f="load", rows=rs, names=[], ids=[])] + [dict(f="ask", names=ns[j:j + 20], ids=[]) for j in range(k, min(k + 400, len(ns)), 20)])
    hs.append([dict(f="load", rows=rs, names=[], ids=[])] + [dict(f="ask", names=[], ids=ids[j:j + 50]) for j in range(0, len(ids), 50)])
    c.validate("p13", hs, "TV_P13", "shipped database", chunk=1)
    # random sub-databases with histories of aliases, additions and imports
    hs = []
    for _ in range(400 if c.thorough else 60):
        sub = [c.rng.choice(rs) for _ in range(c.rng.randint(2, 8))]
        n, i = names(sub)
        q = dict(names=n + ["al", "al2", "fresh"], ids=i + [0])
        h = [dict(f="load", rows=sub[:-1], **q)]
        for _ in range(c.rng.randint(1, 6)):
            k = c.rng.random()
            if k < 0.4:
                h.append(dict(f="alias", name=c.rng.choice(n + ["al"]), alias=c.rng.choice(["al", "al2"] + n[:1]), **q))
            elif k < 0.8:
                kv = []
                for _ in range(c.rng.randint(1, 3)):
                    kv += c.rng.choice([["mass", "1.25"], ["width", "0.5e-3"], ["spin", c.rng.choice(["0", "1", "1/2", "5/2"])], ["parity", "-"], ["charge", "++"], ["quarks", "x(uU+dD)"]])
                h.append(dict(f="add", name=c.rng.choice(n + ["al", "fresh"]), props=kv, **q))
            else:
                h.append(dict(f="import", rows=sub[-1:], **q))
        hs.append(h)
    c.validate("p13", hs, "TV_P13", "random database history", chunk=60)
    qs = sorted({l.split(",")[17].strip() for l in rs if l.count(",") == 17})
    hs = [[dict(f="quarks", head=c.rng.choice(qs), parts=[c.rng.choice(qs) for _ in range(c.rng.randint(1, 4))]) for _ in range(20)] for _ in range(300 if c.thorough else 60)]
    c.validate("p13", hs, "TV_P13", "flavour comparison", chunk=400)
