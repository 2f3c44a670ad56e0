import vf


def line(rng, keys):
    k = rng.random()
    words = ["1", "0", "true", "false", "-7", "+3", "2.5", "1e3", ".5", "abc", "x,y", "Fix", "Blind", "Free", "3", "12", "a=b", "{q}", '"two words"', '"a#b"', '"{"', '"x  y" ', "K(0)*", "D0{K-,pi+}"]
    ws = lambda: rng.choice([" ", "  ", "\t", " \t "])
    if k < 0.08:
        return rng.choice(["", "# c", "* c", "   # c", "#{", "*}"])
    body = (rng.choice(["", "", " "]) + rng.choice(keys) + "".join(ws() + rng.choice(words) for _ in range(rng.randint(0, 5))))
    if rng.random() < 0.2:
        body += rng.choice([" # comment", "#x", " #{", "\t#\"q\""])
    return body


def block(rng, keys):
    k = rng.random()
    if k < 0.75:
        return [line(rng, keys)]
    body = [line(rng, keys + ["9", "z"]) for _ in range(rng.randint(0, 3))]
    style = rng.random()
    h = rng.choice(keys)
    if style < 0.4:
        return [h + " {"] + body + ["}"]
    if style < 0.6:
        return [h + " { 1"] + body + ["2 }"]
    if style < 0.8:
        return [h + " {"] + body + ["} 3" + rng.choice(["", " # e"])]
    return [h + " { 1 { 2"] + body + ["}", "4", "}"]


def files(rng, keys):
    subs = ["s%d.opt" % k for k in range(rng.randint(0, 3))]
    fs = []
    for k, n in enumerate(["m.opt"] + subs):
        ls = []
        for _ in range(rng.randint(0, 6)):
            ls += block(rng, keys)
            if rng.random() < 0.2 and k < len(subs):
                ls.append("Import " + rng.choice(subs[k:] + ["missing.opt"]) + rng.choice(["", " # c"]))
        fs.append([n, ls])
    return fs


def history(rng):
    keys = ["a", "b0", "b1", "b2", "c::d", "D0{K-,pi+}", "help2", "{x}"]
    ops, np = [], False
    for _ in range(rng.randint(3, 14)):
        k = rng.random()
        if k < 0.3:
            ops.append(dict(f="import", files=files(rng, keys), name=rng.choice(["m.opt", "m.opt", "m.opt", "nope.opt"])))
        elif k < 0.5:
            av = []
            for _ in range(rng.randint(0, 5)):
                av.append(rng.choice(["m.opt", "s0.opt", "--%s" % rng.choice(keys), "--%s=%s" % (rng.choice(keys), rng.choice(["1", "x y", "", "a=b", "-3", "true"])), "7", "--b1", "abc"]))
            ops.append(dict(f="cli", files=files(rng, keys), argv=av))
        elif k < 0.6:
            ops.append(dict(f="arg", files=[], text=line(rng, keys)))
        elif k < 0.85:
            t = rng.choice(["string", "double", "int", "uint", "size", "bool", "flag"])
            d = {"string": ["q", "r"], "bool": [True, False], "flag": ["Hide", "Fix"]}.get(t, [5, 6])
            key = rng.choice(keys)
            ops.append(dict(f="get", ty=t, key=key, **{"def": rng.choice([d, d[:1], d[1:]])}))
        elif k < 0.92:
            ops.append(dict(f="numbered", ty=rng.choice(["string", "int"]), key=rng.choice(["b", "c"])))
        elif not np:
            ops.append(dict(f="np", key=rng.choice(keys), **{"def": [1, 2, 3][:rng.randint(1, 3)]}))
            np = True
        else:
            ops.append(rng.choice([dict(f="npset", i=rng.randint(0, 5), x=rng.randint(-9, 9)), dict(f="npall", xs=[rng.randint(-9, 9) for _ in range(rng.randint(1, 4))]), dict(f="npget", i=rng.randint(-1, 6))]))
    # wrap-around of negative numbers read as unsigned is outside the property
    bad = lambda o: o["f"] == "get" and o["ty"] in ("uint", "size")
    return [o for o in ops if not bad(o)]


def run(c):
    vf.build("p03")
    beh, r = vf.explore("MC_P03", env=dict(DEPTH="3" if c.thorough else "2"))
    c.add_tlc(r, "files, imports, command lines and look-ups")
    c.replay("p03", vf.dedup_maximal(beh), "specification behaviour")
    hs = [history(c.rng) for _ in range(8000 if c.thorough else 1200)]
    c.validate("p03", hs, "TV_P03", "recorded history", chunk=1500)
