import vf, p01


def run(c):
    vf.build("p01")
    beh, r = vf.explore("MC_P02", env=dict(DEPTH="6" if c.thorough else "5"))
    c.add_tlc(r, "exhaustive life cycles of two parameters")
    c.replay("p01", vf.dedup_maximal(beh), "specification behaviour")
    hs = []
    for _ in range(5000 if c.thorough else 600):
        h = p01.history(c.rng, c.rng.randint(20, 60), p01.NAMES5[:3])
        h = [o for o in h]
        h.append(dict(f="print"))
        hs.append(h)
    c.validate("p01", hs, "TV_P01", "recorded history", env={"VERIF_NAMES5": "1"})
