import vf
import decaygen as g


def run(c):
    vf.build("p09")
    g.rowsfile()
    beh, r = vf.explore_sharded("MC_P10", env=dict(DEPTH="2" if c.thorough else "1"), timeout=1500)
    c.add_tlc(r, "conjugation of every enumerated decay; CP doubling of every model of one or two parameters")
    c.replay("p09", beh, "conjugation")
    ns = g.names(g.chosen())
    hs = []
    for _ in range(6000 if c.thorough else 800):
        t = g.tree(c.rng, ns, c.rng.choice([1, 2, 2, 3]))
        hs.append([dict(f="conj", d=t), dict(f="conjF", d=t)])
    for _ in range(1500 if c.thorough else 200):
        ps = []
        for k in range(c.rng.randint(1, 6)):
            t = g.tree(c.rng, ns, c.rng.choice([1, 2]), mods=["", "", "[P]", "[D]", "[Flatte]"])
            if t.count("{") == 0:
                continue
            ps += c.rng.choice([[t + "_Re", t + "_Im"], [t + "_Im"], [t.split("{")[0].split("[")[0] + "_mass"], ["other%d" % k], ["other%d_Re" % k]])
        ps = list(dict.fromkeys(ps))
        # parities of decays into three or more bodies are left open
        ps = [p for p in ps if not three(p)]
        if ps:
            heads = [p.split("{")[0].split("[")[0] for p in ps]
            hs.append([dict(f="cp", params=[[p, c.rng.randint(1, 9)] for p in ps], polar=c.rng.random() < 0.5, forbid=[x for x in heads if c.rng.random() < 0.1])])
    c.validate("p09", hs, "TV_P09", "random decay trees and models", chunk=250)


def three(p):
    dep, cnt = 0, []
    for ch in p:
        if ch == "{":
            cnt.append(0)
        elif ch == "}":
            cnt.pop()
        elif ch == ",":
            cnt[-1] += 1
            if cnt[-1] > 1:
                return True
    return False
