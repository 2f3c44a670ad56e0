import vf
import decaygen as g


def run(c):
    vf.build("p09")
    g.rowsfile()
    beh, r = vf.explore_sharded("MC_P09", env=dict(DEPTH="2" if c.thorough else "1"), timeout=1500)
    c.add_tlc(r, "two-body decays with every modifier, nested decays in every order, pairs of decays")
    c.replay("p09", beh, "decay descriptor")
    ns = g.names(g.chosen())
    hs = []
    for _ in range(6000 if c.thorough else 700):
        t = g.tree(c.rng, ns, c.rng.choice([1, 2, 2, 3]))
        if len(g.leaves(t)) > 9:
            continue
        u = g.shuffled(c.rng, t)
        fs = g.leaves(u)
        c.rng.shuffle(fs)
        if c.rng.random() < 0.2 and fs:
            fs[0] = c.rng.choice(ns)["name"]
        hs.append([dict(f="parse", d=t, fs=fs), dict(f="parse", d=u, fs=fs), dict(f="cmp", a=t, b=u), dict(f="quasi", d=u), dict(f="quarks", d=t)])
    c.validate("p09", hs, "TV_P09", "random decay trees", chunk=450)
