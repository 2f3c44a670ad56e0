import vf


def run(c):
    vf.build("p29")
    T = dict(TIER="thorough" if c.thorough else "quick")
    beh, r = vf.explore("MC_P29", env=T, timeout=2400)
    c.add_tlc(r, "fits of parameter sets: fixed parameters, placement of the outcome and saving checked on the specification")
    c.replay("p29", vf.dedup_maximal(beh), "fits and their results")
