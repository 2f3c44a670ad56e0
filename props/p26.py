import vf


def run(c):
    vf.build("p26")
    beh, r = vf.explore_sharded("MC_P26", env=dict(TIER="thorough" if c.thorough else "quick"), timeout=2400)
    c.add_tlc(r, "events under sequences of boosts, rotations and changes of basis; products of momenta unchanged on the specification")
    c.replay("p26", beh, "kinematics")
