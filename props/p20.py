import vf


def word(rng, al, n):
    return "".join(rng.choice(al) for _ in range(rng.randint(0, n)))


def tree(rng, d):
    if d == 0 or rng.random() < 0.3:
        return rng.choice(["K+", "pi-", "rho(770)0", "K*(892)bar0[BW;D]"])
    return rng.choice(["D0", "a(1)(1260)+[GS]", "X"]) + "{" + ",".join(tree(rng, d - 1) for _ in range(rng.randint(1, 4))) + "}"


def op(rng):
    k = rng.randint(0, 15)
    if k == 0:
        return dict(f="split", s=word(rng, "ab, ", 14), d=rng.choice(", a"))
    if k == 1:
        return dict(f="splitany", s=word(rng, "ab,{} ", 14), ds=rng.sample([",", "{", "}", " ", "a"], rng.randint(1, 4)))
    if k == 2:
        return dict(f="join", q=[word(rng, "ab ", 3) for _ in range(rng.randint(0, 8))], d=word(rng, "x-", 2))
    if k == 3:
        return dict(f="trim", s=word(rng, " \t\nab", 12))
    if k == 4:
        return dict(f="find", s=word(rng, "aab", 16), p=word(rng, "ab", 3) or "a")
    if k == 5:
        a, b = word(rng, "ab", 3) or "b", word(rng, "abc", 4)
        return dict(f="replace", s=word(rng, "aab", 14), a=a, b=b if a != b else b + "c")
    if k == 6:
        p = "".join(rng.choice("ab*") for _ in range(rng.randint(0, 7)))
        return dict(f="wild", s=word(rng, "ab", 9), p=p, w="*")
    if k == 7:
        return dict(f="edit", s=word(rng, "abc", 5), t=word(rng, "abc", 5))
    if k == 8:
        return dict(f="items", s=tree(rng, 3), b=["{", "}"], sep=",")
    if k == 9:
        return dict(f="num", s=word(rng, "0123456789", 4) + rng.choice(["", ".", ".5", ".25", ".125", "x", " ", "-", ""]) or "0")
    if k == 10:
        return dict(f="num", s=rng.choice("+-") + word(rng, "0123456789", 5) + rng.choice(["", ".5", "e"]))
    if k == 11:
        return dict(f="sort", q=[rng.randint(-50, 50) for _ in range(rng.randint(0, 60))], g=rng.choice([0, 1, 2, 5, 16, 1000]))
    if k == 12:
        return dict(f="acc", q=[rng.randint(-50, 50) for _ in range(rng.randint(0, 80))], init=rng.randint(0, 9))
    if k == 13:
        return dict(f="product", q=[[rng.randint(0, 3) * 10 + j for j in range(rng.randint(1, 3))] for _ in range(rng.randint(0, 4))])
    if k == 14:
        return dict(f="rules", s=word(rng, "abc", 10), r=[[x, word(rng, "abd", 2)] for x in ["a", "bc", "c"] if rng.random() < 0.7])
    return dict(f="next", s=word(rng, "abc", 10), ps=[word(rng, "abc", 2) or "c" for _ in range(rng.randint(1, 3))], b=rng.randint(0, 11))


def ok(o):
    if o["f"] == "product":
        return all(x == sorted(x) for x in o["q"])
    if o["f"] == "rules":
        return all(a != b for a, b in o["r"])
    return True


def run(c):
    vf.build("p20")
    beh, r = vf.explore("MC_P20", env=dict(DEPTH="1" if c.thorough else "0"))
    c.add_tlc(r, "helper calls")
    c.replay("p20", beh, "call of the enumerated families")
    hs = [[o] for o in (op(c.rng) for _ in range(40000 if c.thorough else 5000)) if ok(o)]
    c.validate("p20", hs, "TV_P20", "random call", chunk=3000)
