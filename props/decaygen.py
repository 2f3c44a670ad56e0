"""Particle rows and descriptors shared by the decay checks."""
import vf

BASES = ("gamma W mu tau pi eta rho(770) omega(782) f(0)(980) phi(1020) a(1)(1260) f(2)(1270) K K(S) K*(892) K(1)(1270) K*(1410) D D(s) D*(2010) B p n "
         "Delta(1232) Lambda Xi Omega Sigma(c)(2455) Lambda(c) Lambda(b) J/psi(1S) nu(mu) Lambda(1520) N(1440) a(0)(980) "
         "NonResS NonResP NonResA NonResV NonResT NonRes1m PiPi0 K(0)*(1430) B(s) psi(2S)").split()


def rows():
    out = []
    for f in ("mass_width.csv", "MintDalitzSpecialParticles.csv"):
        for l in open(vf.REPO + "/options/" + f):
            l = l.rstrip("\r\n")
            if l and l[0] not in "*#" and l.count(",") == 17:
                out.append(l)
    return out


def chosen():
    return [l for l in rows() if l.split(",")[16].strip() in BASES]


def names(rs):
    """(name, charge) of every particle and antiparticle of the rows"""
    out = []
    flip = str.maketrans("+-", "-+")
    for l in rs:
        f = [x.strip() for x in l.split(",")]
        q = {"+": 1, "-": -1, "++": 2, "--": -2, "0": 0}.get(f[13], 0)
        j = f[8]
        tw = int(j[:-2]) if "/" in j else (2 * int(j) if j.isdigit() else -1)
        a = dict(base=f[16], name=f[16] + f[13], q=q, two=tw, narrow=float(f[3] or 0) < 1e-3)
        out.append(a)
        if f[11] in ("F", "B"):
            out.append(dict(a, name=f[16] + ("bar" if f[11] == "F" else "") + f[13].translate(flip), q=-q))
    return out


def rowsfile():
    import json
    import os
    os.makedirs(vf.OUT, exist_ok=True)
    p = "%s/rows-%d.ndjson" % (vf.OUT, os.getpid())
    with open(p, "w") as f:
        for r in chosen():
            f.write(json.dumps({"r": r}) + "\n")
    os.environ["ROWS"] = p
    os.environ["AMPGENROOT"] = vf.REPO
    return p


MODS = ["", "", "", "", "[D]", "[P]", "[S1]", "[Flatte]", "[GSpline.EFF]", "[FormFactor]", "[NoSym]", "[BgSpin0]", "[k=v]", "[D;SBW;a=b]", "[vertex=Vx;P]", "[LASS.BW;Inco]", "[2;k=v]"]


def tree(rng, ns, depth, leaf=None, mods=MODS):
    """a random decay descriptor: charge conserving, whole total spin, without unknown spins"""
    by = {}
    for x in ns:
        if x["two"] >= 0:
            by.setdefault(x["q"], []).append(x)
    ok = [x for x in ns if x["two"] >= 0]

    def grow(h, d):
        if d == 0 or (d < depth and rng.random() < 0.45):
            return h["name"] + (rng.choice(["", "", "", "", "[k=v]"]) if mods else "")
        for _ in range(200):
            n = rng.choice([2, 2, 2, 2, 3, 3, 1, 4]) if d == depth else rng.choice([2, 2, 2, 3])
            ds = [rng.choice(ok) for _ in range(n - 1)]
            q = h["q"] - sum(x["q"] for x in ds)
            if q not in by:
                continue
            ds.append(rng.choice(by[q]))
            if rng.random() < 0.3 and n > 1 and ds[0]["q"] == ds[-1]["q"]:
                ds[-1] = ds[0]
            if (h["two"] + sum(x["two"] for x in ds)) % 2 or h["q"] != sum(x["q"] for x in ds):
                continue
            rng.shuffle(ds)
            return h["name"] + (rng.choice(mods) if mods else "") + "{" + ",".join(grow(x, d - 1) for x in ds) + "}"
        return h["name"]
    return grow(rng.choice(ok), depth)


def shuffled(rng, s):
    """the same descriptor with the daughters of every decay in another order"""
    if "{" not in s:
        return s
    i = s.index("{")
    parts, dep, cur = [], 0, ""
    for c in s[i + 1:-1]:
        if c == "," and dep == 0:
            parts.append(cur)
            cur = ""
            continue
        dep += c == "{"
        dep -= c == "}"
        cur += c
    parts = [shuffled(rng, x) for x in parts + [cur]]
    rng.shuffle(parts)
    return s[:i] + "{" + ",".join(parts) + "}"


def leaves(s):
    import re
    return [x for x in re.findall(r"([^{},\[\]]+)(?:\[[^\]]*\])?(?=[,}])", s)]
