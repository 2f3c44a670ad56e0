import vf
import decaygen as g

# sub-decays by head; every head may appear as a leaf of those above it
SUB = {
    "D0": ["K*(892)bar0,pi0", "rho(770)0,rho(770)0", "a(1)(1260)+,pi-", "K*(892)bar0,rho(770)0", "K(1)(1270)-,pi+", "K-,pi+", "K*(892)bar0{K-,pi+},rho(770)0", "rho(770)0,K-,pi+", "K*(892)-,rho(770)+", "phi(1020)0,phi(1020)0", "rho(770)0,f(0)(980)0"],
    "K(1)(1270)-": ["K*(892)bar0,pi-", "rho(770)0,K-", "K*(892)-,pi0"],
    "a(1)(1260)+": ["rho(770)0,pi+", "rho(770)+,pi0", "f(0)(980)0,pi+"],
    "K*(892)bar0": ["K-,pi+", "pi+,K-", "Kbar0,pi0"],
    "K*(892)-": ["K-,pi0", "Kbar0,pi-"],
    "rho(770)0": ["pi+,pi-"],
    "rho(770)+": ["pi+,pi0"],
    "f(0)(980)0": ["pi+,pi-", "pi0,pi0", "K+,K-"],
    "phi(1020)0": ["K+,K-"],
}
MODS = {"D0": ["", "", "[P]", "[D]"], "a(1)(1260)+": ["", "[D]"], "K(1)(1270)-": ["", "[D]"], "rho(770)0": ["", "[GounarisSakurai]", "[SBW]"], "K*(892)bar0": ["", "[LASS]", "[k=v]"], "f(0)(980)0": ["", "[Flatte]"]}
FINALS = ["K- pi+ pi0", "K- pi+ pi+ pi-", "pi+ pi- pi+ pi-", "K- pi+", "K+ K- K+ K-", "K- pi+ pi- pi+", "pi+ pi+ pi- pi-", "K- pi0 pi+ pi0", "pi+ pi- pi0 pi0", "Kbar0 pi0 pi0", "K- K+ pi+ pi-"]


def case(rng):
    polar = rng.random() < 0.3
    ps = [dict(k="p", n="x", re=rng.randint(-3, 3))]
    seen = set()
    for _ in range(rng.randint(2, 9)):
        h = rng.choice(list(SUB) + ["D0"] * 4 + ["rho(770)0", "K*(892)bar0"])
        n = h + rng.choice(MODS.get(h, [""])) + "{" + rng.choice(SUB[h]) + "}"
        if rng.random() < 0.2:
            n = g.shuffled(rng, n)
        pre = rng.choice(["", "", "", "", "A", "Bx"])
        k = rng.random()
        if k < 0.12:
            e = dict(k="a", n=n, m=rng.randint(-2, 3), x="x")
        elif k < 0.16:
            e = dict(k="r", n=n, pre=pre, re=1)
        else:
            e = dict(k="c", n=n, pre=pre, re=rng.randint(-4, 4), im=rng.choice([0, 90, 180, 270, 360]) if polar else rng.randint(-4, 4), fr=rng.random() < 0.6, fi=rng.random() < 0.6)
        key = (e["n"], e.get("pre", ""))
        if key in seen:
            continue
        seen.add(key)
        ps.append(e)
    if rng.random() < 0.2 and ps[-1]["k"] in "ca" and not any(x["k"] != "p" and x["n"] == ps[-1]["n"] for x in ps[:-1]):
        ps[-1] = dict(k="d", n=ps[-1]["n"], re=rng.randint(-3, 3))
    ch = [[rng.randint(1, len(ps)), rng.randint(-3, 3), 90 * rng.randint(0, 3) if polar else rng.randint(-3, 3)] for _ in range(rng.randint(0, 3))]
    return dict(f="rules", ps=ps, mother="D0", fs=rng.choice(FINALS).split(), pre=rng.choice(["", "", "A"]), polar=polar, deg=rng.random() < 0.5, ch=ch)


def run(c):
    vf.build("p12")
    g.rowsfile()
    beh, r = vf.explore_sharded("MC_P12", env=dict(SIZE="5" if c.thorough else "3"), timeout=2400)
    c.add_tlc(r, "models of up to three (thorough: five) of 18 declared decays, six final states, Cartesian, polar and prefixed couplings")
    c.replay("p12", beh, "amplitude model")
    c.validate("p12", [[case(c.rng) for _ in range(3)] for _ in range(4000 if c.thorough else 300)], "TV_P12", "random models", chunk=200)
