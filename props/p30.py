import vf


def run(c):
    vf.build("p30")
    T = dict(TIER="thorough" if c.thorough else "quick")
    beh, r = vf.explore("MC_P30", env=T, timeout=2400)
    c.add_tlc(r, "propagators of parameter sets: positivity and optimality checked on the specification")
    c.replay("p30", vf.dedup_maximal(beh), "propagation of uncertainties")
