import glob
import os

import vf

PARS = dict(va=[-2, -1, 0, 1, 2], vb=[-2, -1, 0, 1, 2], yC=[1, 2, 3], yI=[1, 2, 3], yP=[1, 2, 3], Px=[-1, 0, 1], Py=[-1, 0, 1], Pz=[-1, 0, 1])


def history(rng):
    """Models with a data set and a sample, in any order of changes, preparations and answers."""
    st = {k: dict(ev=0, mc=None, st="L", dead=False) for k in "CIP"}
    h = []
    ks = rng.choice(["C", "I", "P", "CI", "CP", "CIP", "CIP"])

    def ids(lo=1):
        return [rng.randint(1, 40) for _ in range(rng.choice([lo, 2, 3, 4, 5, 6, 8, 9]))]

    def mark(who, how):
        for x in who:
            if st[x]["st"] != "L":
                st[x]["st"] = how
    for _ in range(rng.randint(10, 40)):
        k = rng.choice(ks)
        s = st[k]
        if s["dead"]:
            continue
        r = rng.random()
        if r < 0.08:
            h.append(dict(f="setev", k=k, es=ids(), sc=rng.random() < 0.3))
            s["ev"], s["st"] = 1, "L"
        elif r < 0.16:
            es = ids()
            h.append(dict(f="setmc", k=k, es=es, sc=rng.random() < 0.3))
            s["mc"], s["st"] = es, "L"
        elif r < 0.24:
            n = rng.choice(["va", "vb", "va", "vb", "y" + k, "Px", "Py", "Pz"])
            h.append(dict(f="par", n=n, v=rng.choice(PARS[n])))
            mark("CIP" if n in ("va", "vb") else n[1] if n[0] == "y" else "P", "L" if n in ("va", "vb") else "C")
        elif r < 0.32:
            q = rng.choice(dict(C="C", I="I", P="CQ")[k])
            h.append(dict(f="cpl", k=q, i=rng.randint(1, dict(C=4, I=3, Q=2)[q]), re=rng.randint(-2, 2), im=rng.randint(-2, 2)))
            mark(dict(C="CP", I="I", Q="P")[q], "C")
        elif r < 0.35:
            if k == "P":
                h.append(dict(f="reset", k=k, all=False))
            else:
                a = rng.random() < 0.4
                h.append(dict(f="reset", k=k, all=a))
                if a:
                    s.update(ev=0, mc=None, st="L")
        elif r < 0.355:
            h.append(dict(f="drop", k=k))
            s["dead"] = True
        elif r < 0.42:
            q = rng.choice([x for x in ("C", "I", "P", "CI", "CP", "CIP") if set(x) <= set(ks)])
            if any(st[x]["dead"] for x in q):
                continue
            h.append(dict(f="like", ks=list(q), sc=q == "C" and rng.random() < 0.5, es=ids()))
            for x in q:
                st[x].update(ev=1, st="no")
        elif r < 0.47 and k != "P" and s["mc"]:
            re = rng.random() < 0.5
            if re or s["st"] != "L":
                h.append(dict(f="frac", k=k, re=re))
                if re:
                    s["st"] = "no"
        else:
            if s["st"] != "no" or rng.random() < 0.1:
                h.append(dict(f="prepare", k=k))
                s["st"] = "no"
            n = rng.random()
            if n < 0.45 and s["ev"]:
                h.append(dict(f="read", k=k))
            elif n < 0.6 and s["mc"]:
                h.append(dict(f="norm", k=k))
            elif n < 0.65 and s["mc"] and k == "C":
                h.append(dict(f="lasso", w=rng.randint(1, 4)) if rng.random() < 0.3 else
                         dict(f="ratio", nu=rng.sample([1, 2, 3, 4], rng.randint(1, 3)), de=rng.sample([1, 2, 3, 4], rng.randint(1, 4)), w=rng.randint(1, 3), r=rng.randint(0, 2)))
            elif n < 0.7:
                h.append(dict(f="nocache", k=k, es=ids()))
            elif n < 0.85 and s["mc"]:
                h.append(dict(f="eval", k=k, mc=True, es=s["mc"]))
            else:
                h.append(dict(f="eval", k=k, mc=False, es=ids()))
    return h


def run(c):
    os.environ["OMP_NUM_THREADS"] = "2"
    os.environ["OMP_WAIT_POLICY"] = "passive"
    vf.build("p18")
    t = c.thorough
    before = set(glob.glob("/tmp/libAmpGen-*"))
    try:
        what = dict(C="coherent sum", I="incoherent sum", P="polarised sum", sum="sum of models")
        for part, depth in (("C", 4), ("I", 4), ("P", 4), ("sum", 4), ("Cd", 8), ("Id", 7), ("Pd", 7)):
            beh, r = vf.explore("MC_P18", env=dict(PART=part, DEPTH=str(depth + t)))
            c.add_tlc(r, "histories: " + part)
            c.replay("p18", vf.dedup_maximal(beh), "history of a " + what[part.rstrip("d")], jobs=8)
        c.validate("p18", [history(c.rng) for _ in range(20000 if t else 3000)], "TV_P18", "random history", chunk=10000, jobs=8)
    finally:
        for f in set(glob.glob("/tmp/libAmpGen-*")) - before:
            os.remove(f)
