import vf


def run(c):
    vf.build("p27")
    T = dict(TIER="thorough" if c.thorough else "quick")
    for part in ("bins", "chi2"):
        run1 = vf.explore_sharded if part == "bins" else vf.explore
        beh, r = run1("MC_P27", env=dict(T, PART=part, **({} if part == "bins" else dict(SHARD="0", SHARDS="1"))), timeout=2400)
        c.add_tlc(r, "binnings of samples: occupancy laws checked on the specification" if part == "bins" else "chi-squared of weighted samples")
        c.replay("p27", beh, "adaptive binning" if part == "bins" else "chi-squared")
