import vf


def events(prog, trace):
    ops = [dict(prog, f="prog")]
    for e in trace:
        k = e[0]
        if k in ("call", "start"):
            ops.append(dict(f=k, id=e[1], t=e[2]))
        elif k == "fin":
            ops.append(dict(f=k, id=e[1]))
        elif k == "ret":
            ops.append(dict(f=k, id=e[1], ok=e[2]))
        elif k == "got":
            ops.append(dict(f=k, id=e[1], r=e[2]))
        elif k == "gone":
            ops.append(dict(f=k, alive=e[1]))
        elif k == "end":
            ops.append(dict(f=k, why=e[1]))
        else:
            ops.append(dict(f=k))
    return ops


def program(rng):
    nt = rng.randint(1, 3)
    n = rng.randint(1, 5)
    nc = rng.choice([1, 1, 2, 3])
    tasks, ids, nested = [], list(range(1, n + 1)), set()
    for t in ids:
        k = rng.random()
        if k < 0.5:
            tasks.append([t, ["v"]])
        elif k < 0.75:
            tasks.append([t, ["x"]])
        elif k < 0.9 and t < n and t + 1 not in nested:
            tasks.append([t, ["n", t + 1]])
            nested.add(t + 1)
        elif nt >= 2 and t < n and not any(x[1][0] == "b" for x in tasks):
            tasks.append([t, ["b", t + 1]])
        else:
            tasks.append([t, ["v"]])
    # a barrier task needs its partner to be submitted by the same client right after it, before any stop
    bar = [x[0] for x in tasks if x[1][0] == "b"]
    for b in bar:
        if b + 1 in nested or any(x[0] == b + 1 and x[1][0] == "b" for x in tasks):
            tasks[b - 1][1] = ["v"]
    bar = [x[0] for x in tasks if x[1][0] == "b"]
    cl = [[] for _ in range(nc)]
    for t in ids:
        if t in nested:
            continue
        c = 0 if bar else rng.randrange(nc)
        cl[c].append(["enq", t])
        if rng.random() < 0.4 and t not in bar:
            cl[c].append(["get", t])
    stop = rng.random() < 0.5
    if stop:
        cl[0].append(["wait"])
        if not bar and rng.random() < 0.5:
            cl[0].append(["enq", 6])
    for t in ids:
        if t not in nested and ["enq", t] in cl[0] and ["get", t] not in cl[0] and rng.random() < 0.5:
            cl[0].append(["get", t])
    cl[0] += [["join"], ["del"]]
    return dict(nt=nt, on=True, cl=cl, tasks=tasks)


def run(c):
    vf.build("p19")
    beh, r = vf.explore("MC_P19", env=dict(DEPTH="2" if c.thorough else "1"))
    c.add_tlc(r, "every schedule of the pool algorithm for the enumerated client programs")
    beh = vf.dedup_maximal(beh)
    c.rng.shuffle(beh)
    jobs = []
    for b in beh[:6000 if c.thorough else 1200]:
        p = {k: v for k, v in b[0][0].items() if k != "f"}
        jobs.append(dict(f="run", prog=p, seed=1, p=30, sp=0, hints=[x[0] for x in b[1:]], idx=False))
    progs = {vf.canon({k: v for k, v in b[0][0].items() if k != "f"}): {k: v for k, v in b[0][0].items() if k != "f"} for b in beh}
    # systematic search of the real code: schedules with few preemptions
    dfs = [dict(f="dfs", prog=p, seed=s, p=0, sp=0, bound=2, max=2000 if c.thorough else 300, hints=[], idx=True) for p in progs.values() for s in (1, 2)]
    for _ in range(40 if c.thorough else 12):
        dfs.append(dict(f="dfs", prog=program(c.rng), seed=c.rng.randint(1, 10**6), p=0, sp=0, bound=1, max=1500 if c.thorough else 250, hints=[], idx=True))
    for k in range(40000 if c.thorough else 4000):
        prog = program(c.rng)
        if c.rng.random() < 0.05:   # threading switched off: no stop before submissions, single client
            prog = dict(nt=2, on=False, tasks=[[1, ["v"]], [2, ["x"]], [3, ["v"]]], cl=[[["enq", 1], ["enq", 2], ["get", 2], ["enq", 3], ["get", 1], ["get", 3], ["del"]]])
        jobs.append(dict(f="run", prog=prog, seed=c.rng.randint(1, 10**9), p=c.rng.choice([100, 60, 30, 10]), sp=c.rng.choice([0, 0, 1, 2]), hints=[], idx=False))
    traces = {}
    for j, res in zip(jobs, vf.run_driver("p19", [[j] for j in jobs])):
        traces.setdefault(vf.canon([j["prog"], res[0]]), (j, j["prog"], res[0]))
    nex = len(jobs)
    full = 0
    for j, res in zip(dfs, vf.run_driver("p19", [[j] for j in dfs], timeout_each=300)):
        if isinstance(res[0], dict):
            raise vf.CheckError("systematic search failed: %s" % res[0])
        n, complete, ts = res[0]
        nex += n
        full += complete
        for t, h in ts:
            traces.setdefault(vf.canon([j["prog"], t]), (dict(j, f="run", hints=h), j["prog"], t))
    c.notes["executions"] = dict(schedules=nex, distinct_traces=len(traces), programs=len(progs), searches_completed=full)
    js, ops, res = [], [], []
    for j, p, t in traces.values():
        if isinstance(t, dict):
            t = [["end", str(t)]]
        js.append(j)
        o = events(p, t)
        ops.append(o)
        res.append(["ok"] * len(o))
    before = len(c.mism)
    c.validate_recorded("p19", ops, res, "TV_P19", "trace of the real pool under a controlled schedule", chunk=8000)
    where = {id(o): k for k, o in enumerate(ops)}
    for m in c.mism[before:]:
        m["schedule"] = js[where[id(m["ops"])]]
        # the schedule is deterministic: run it once more
        again = vf.run_driver("p19", [[m["schedule"]]], shards=1)[0][0]
        m["confirmed"] = not isinstance(again, dict) and events(m["schedule"]["prog"], again)[:m["step"] + 1] == m["ops"][:m["step"] + 1]
        if not m["confirmed"]:
            c.mism.remove(m)
        m["got"] = m["ops"][m["step"]]
