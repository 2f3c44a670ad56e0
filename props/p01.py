import vf


def history(rng, n, names, values_only=False):
    """A random history of parameter-store operations (the specification decides what must be observed)."""
    ops, nobj, plain, listed, mapped = [], 0, [], [], False
    # shadow of the membership, only to keep operations within their preconditions
    name = {}
    flags = ["Free", "Hide", "Fix", "CompileTimeConstant", "Blind"]

    def spec(nm):
        return dict(n=nm, flag=rng.choice(flags), m=rng.randint(-50, 50), s=rng.randint(0, 9), lo=rng.randint(-9, 0), hi=rng.randint(0, 9))

    def look(nm):
        for i in listed:
            if name[i] == nm:
                return i
        return 0

    mapping = []
    for _ in range(n):
        k = rng.choice(["add", "addget", "addptr", "alias", "readd", "unreg", "rename", "rename", "setval", "setval", "setinit", "setstep",
                        "scale", "limits", "result", "fix", "free", "reset1", "reset", "setfrom", "mapping", "minuit", "state", "index", "print"])
        if k in ("add", "addget", "addptr"):
            nm = rng.choice(names)
            if nobj >= 8:
                continue
            ops.append(dict(f=k, **spec(nm)))
            if k == "addptr" or not look(nm):
                nobj += 1
                name[nobj] = nm
                plain.append(nobj)
                if not look(nm):
                    listed.append(nobj)
        elif k == "alias":
            if not nobj or nobj >= 8:
                continue
            nm = rng.choice(names)
            ops.append(dict(f=k, n=nm, t=rng.randint(1, nobj), k=rng.randint(-2, 3), c=rng.randint(-3, 3)))
            nobj += 1
            name[nobj] = nm
            if not look(nm):
                listed.append(nobj)
        elif k in ("readd", "unreg"):
            if not nobj:
                continue
            i = rng.randint(1, nobj)
            ops.append(dict(f=k, i=i))
            if k == "unreg" and i in listed:
                listed.remove(i)
                mapping = []
            elif k == "readd" and not look(name[i]):
                listed.append(i)
        elif k == "rename":
            a, b = rng.choice(names), rng.choice(names)
            ops.append(dict(f=k, n=a, to=b))
            if look(a) and not look(b) and a != b:
                name[look(a)] = b
        elif k in ("setval", "setinit", "setstep", "scale", "limits", "result", "fix", "free", "reset1"):
            if not plain:
                continue
            o = dict(f=k, i=rng.choice(plain))
            if k in ("setval", "setinit", "setstep", "result"):
                o["x"] = rng.randint(-60, 60)
            if k == "scale":
                o["x"] = rng.randint(-2, 2)
            if k == "setinit":
                o["s"] = rng.randint(-1, 5)
            if k == "limits":
                o.update(lo=rng.randint(-9, 0), hi=rng.randint(0, 9))
            if k == "result":
                o.update(e=rng.randint(0, 9), en=rng.randint(-9, 0), ep=rng.randint(0, 9))
            ops.append(o)
        elif k == "setfrom":
            ns = rng.sample(names, rng.randint(0, len(names)))
            ops.append(dict(f=k, names=ns, xs=[rng.randint(-99, 99) for _ in ns]))
        elif k == "mapping":
            if not listed:
                continue
            mapping = rng.sample(range(len(listed)), rng.randint(1, len(listed)))
            ops.append(dict(f=k, pos=mapping))
        elif k == "minuit":
            if not mapping:
                continue
            ops.append(dict(f=k, xs=[rng.randint(-99, 99) for _ in mapping]))
        elif k == "state":
            ops.append(dict(f=k, xs=[rng.randint(-99, 99) for _ in range(8)]))
        elif k == "index":
            c = [q for q, i in enumerate(listed) if i in plain]
            if c:
                ops.append(dict(f=k, pos=rng.choice(c), x=rng.randint(-99, 99)))
        elif k in ("reset", "print"):
            ops.append(dict(f=k))
    return ops


NAMES5 = ["a", "b", "c_Re", "d::x", "e e"]


def run(c):
    vf.build("p01")
    beh, r = vf.explore("MC_P01", env=dict(MAXOBJ="3" , DEPTH="5" if c.thorough else "4"))
    c.add_tlc(r, "exhaustive store histories")
    c.replay("p01", vf.dedup_maximal(beh), "specification behaviour")
    hs = [history(c.rng, c.rng.randint(5, 60), NAMES5) for _ in range(6000 if c.thorough else 700)]
    c.validate("p01", hs, "TV_P01", "recorded history", env={"VERIF_NAMES5": "1"})
