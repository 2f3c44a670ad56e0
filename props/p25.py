import vf


def run(c):
    vf.build("p25")
    T = dict(TIER="thorough" if c.thorough else "quick")
    for part in ("mesons", "spin", "fours", "helicity"):
        beh, r = vf.explore_sharded("MC_P25", env=dict(T, PART=part), timeout=3000)
        c.add_tlc(r, "amplitudes of %s; exchange symmetry and rotation laws checked on the specification" % part)
        c.replay("p25", beh, "amplitude of a decay", timeout_each=300)
