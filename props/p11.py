import vf
import decaygen as g


def run(c):
    vf.build("p09")
    g.rowsfile()
    beh, r = vf.explore_sharded("MC_P11", env=dict(DEPTH="2" if c.thorough else "1"), timeout=1500)
    c.add_tlc(r, "exchanges of identical particles in flat and cascade decays")
    c.replay("p09", beh, "identical particles")
    ns = [x for x in g.names(g.chosen()) if x["base"] in ("pi", "p", "mu", "rho(770)", "Lambda", "B", "Delta(1232)", "gamma", "n", "omega(782)")]
    hs = []
    while len(hs) < (2000 if c.thorough else 150):
        t = g.tree(c.rng, ns, c.rng.choice([1, 2]), mods=[""])
        n = len(g.leaves(t))
        if not 2 <= n <= (6 if c.thorough else 5):
            continue
        fs = g.leaves(t)
        c.rng.shuffle(fs)
        hs.append([dict(f="swap", d=t, fs=fs)])
    c.validate("p09", hs, "TV_P09", "random decay trees", chunk=60)
