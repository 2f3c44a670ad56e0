"""Shared machinery of the checks: building drivers from /repo's working tree, running TLC on the
specifications, replaying behaviours in the real code, validating recorded traces, evidence."""
import glob, json, os, random, re, subprocess, sys, time, shutil, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
NPROC = max(1, os.cpu_count() or 1)

ROOT_ONLY = set("FastDT ThreeBodyCalculators".split())


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------------------------------- building
def cxxflags(opt):
    d = ['-DAMPGENROOT=\\"%s\\"' % REPO, '-DAMPGENROOT_CMAKE=\\"%s\\"' % BUILD, '-DAMPGEN_CXX=\\"/usr/bin/g++\\"',
         '-DAMPGEN_CXX_FLAGS=\\"\\"', '-DAMPGEN_OPENMP_FLAGS=\\"-fopenmp\\"', '-DENABLE_AVX=1', '-DENABLE_FITTING=OFF',
         '-DINSTRUCTION_SET=2', '-DUSE_MVEC=1', '-DHAVE_AVX2_INSTRUCTIONS']
    return ' '.join(["-std=c++17", opt, "-fPIC", "-mfma", "-mavx2", "-ffast-math", "-fno-finite-math-only", "-fopenmp", "-w"]
                    + d + ["-I%s/rootstub" % HARN, "-I%s" % REPO, "-I%s/gen" % BUILD, "-I%s" % HARN])


def write_ninja(repo=REPO):
    os.makedirs(BUILD + "/gen", exist_ok=True)
    v = '#define AMPGEN_MAJOR_VERSION 2\n#define AMPGEN_MINOR_VERSION 5\n'
    vp = BUILD + "/gen/AmpGenVersion.h"
    if not os.path.exists(vp) or open(vp).read() != v:
        open(vp, "w").write(v)
    srcs = sorted(glob.glob(repo + "/src/*.cpp") + glob.glob(repo + "/src/Lineshapes/*.cpp"))
    L = ["ninja_required_version = 1.3", "builddir = %s" % BUILD,
         "rule cc\n  command = g++ %s $xf -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out" % cxxflags("-O1"),
         "rule ld\n  command = g++ -fopenmp -rdynamic -o $out $in -lgsl -lgslcblas -lm -lmvec -ldl -lpthread -Wl,-rpath,%s $lf\n  description = LD $out" % BUILD,
         "rule ar\n  command = rm -f $out && ar crT $out $in && ranlib $out\n  description = AR $out"]
    core = []
    for s in srcs:
        n = os.path.basename(s)[:-4]
        if n in ROOT_ONLY:
            continue
        o = "%s/obj/%s.o" % (BUILD, os.path.relpath(s, repo).replace("/", "_"))
        L.append("build %s: cc %s" % (o, s))
        core.append(o)
    L.append("rule so\n  command = g++ -shared -fopenmp -o $out $in -lgsl -lgslcblas -lm -lmvec -ldl -lpthread -Wl,--unresolved-symbols=report-all\n  description = SO $out")
    L.append("build %s/libampgen.so: so %s" % (BUILD, " ".join(core)))
    L.append("build %s/obj/main.o: cc %s/main.cpp" % (BUILD, HARN))
    for s in sorted(glob.glob(HARN + "/p*.cpp")):
        n = os.path.basename(s)[:-4]
        txt = open(s).read()
        m = re.search(r'^// *link: *(\w+)', txt, re.M)
        kind = m.group(1) if m else "core"
        xf = re.search(r'^// *cxxflags: *(.*)$', txt, re.M)
        main = [] if re.search(r'^// *own-main', txt, re.M) else ["%s/obj/main.o" % BUILD]
        L.append("build %s/obj/%s.o: cc %s" % (BUILD, n, s) + ("\n  xf = " + xf.group(1) if xf else ""))
        objs = [] if kind == "none" else ["%s/libampgen.so" % BUILD]
        only = re.search(r'^// *objs: *(.*)$', txt, re.M)
        if only:
            want = only.group(1).split()
            objs = [o for o in core if os.path.basename(o)[4:-6] in want]
        lf = re.search(r'^// *ldflags: *(.*)$', txt, re.M)
        L.append("build %s/%s: ld %s" % (BUILD, n, ' '.join(["%s/obj/%s.o" % (BUILD, n)] + main + objs)) + ("\n  lf = " + lf.group(1) if lf else ""))
    new = "\n".join(L) + "\n"
    p = BUILD + "/build.ninja"
    if not os.path.exists(p) or open(p).read() != new:
        open(p, "w").write(new)


def build(*targets):
    t = time.time()
    write_ninja()
    r = subprocess.run(["ninja", "-C", BUILD] + [BUILD + "/" + x for x in targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        raise CheckError("building %s from %s failed" % (targets, REPO))
    log("[build] %s %.1fs" % (' '.join(targets), time.time() - t))


# ---------------------------------------------------------------------------------------------- TLC
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_tlcn = 0


def tlc(module, cfg=None, env=None, workers=4, timeout=600, args=(), mem="4g"):
    """Run TLC on spec/<module>.tla; returns dict with parsed counts and the raw output."""
    global _tlcn
    _tlcn += 1
    meta = os.path.join(OUT, "tlc", "%s-%d-%d" % (module, os.getpid(), _tlcn))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cfg = cfg or module + ".cfg"
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    of = os.path.join(meta, "out.txt")
    with open(of, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -9
    out = open(of, errors="replace").read()
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = rc == 0
    log("[tlc] %s %s rc=%d gen=%d distinct=%d %.1fs" % (module, cfg, rc, gen, dist, time.time() - t))
    return dict(rc=rc, ok=ok, out=out, generated=gen, distinct=dist, transitions=gen, wall=time.time() - t)


def tlc_error(r, n=40):
    keep = [l for l in r["out"].splitlines() if not l.startswith('"@') and not l.startswith(("Parsing file", "Semantic proc", "Linting"))]
    return "\n".join(keep[-n:])


def parse_prints(out, tag):
    res = []
    pre = '"' + tag + " "
    for l in out.splitlines():
        if l.startswith(pre):
            res.append(json.loads(json.loads(l)[len(tag) + 1:]))
    return res


def explore(module, cfg=None, workers=1, **kw):
    """Exhaustive TLC run of an exploration module.  Returns (behaviours, tlc result); a behaviour is a
    list of (op, expected-observation)."""
    r = tlc(module, cfg, workers=workers, **kw)
    if not r["ok"]:
        raise CheckError("specification %s does not satisfy its own properties / TLC failed:\n%s" % (module, tlc_error(r)))
    beh = parse_prints(r["out"], "@B")
    r["out"] = ""
    return beh, r


def explore_sharded(module, env=None, shards=None, **kw):
    """The exploration of a module that splits its operations by SHARD of SHARDS, one TLC per shard."""
    from concurrent.futures import ThreadPoolExecutor
    n = shards or NPROC
    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        outs = list(ex.map(lambda k: explore(module, env=dict(env or {}, SHARD=str(k), SHARDS=str(n)), mem="3g", **kw), range(n)))
    beh = [b for o in outs for b in o[0]]
    r = dict(outs[0][1])
    for k in ("generated", "distinct", "transitions"):
        r[k] = sum(o[1][k] for o in outs)
    r["wall"] = max(o[1]["wall"] for o in outs)
    return beh, r


def dedup_maximal(behs):
    """Drop behaviours that are prefixes of another emitted behaviour (their steps are all checked there)."""
    keys = [tuple(canon(s[0]) for s in b) for b in behs]
    seen = set()
    order = sorted(range(len(behs)), key=lambda i: -len(keys[i]))
    keep = []
    for i in order:
        if keys[i] in seen:
            continue
        keep.append(i)
        for n in range(1, len(keys[i]) + 1):
            seen.add(keys[i][:n])
    keep.sort()
    return [behs[i] for i in keep]


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def obs_str(x):
    """JSON text of an observation in the form TLC's ToJson produces."""
    return json.dumps(x, separators=(",", ":"), ensure_ascii=False)


# ------------------------------------------------------------------------------------------ drivers
_drvn = 0


def run_driver(name, behs, timeout_each=20, shards=None, env=None, args=(), total_timeout=600, jobs=0):
    """Execute behaviours (lists of ops) in build/<name>.  Returns, per behaviour, a list of observations; a
    crashed/hung behaviour's list ends with {"crash": why}."""
    global _drvn
    _drvn += 1
    d = os.path.join(OUT, "drv", "%s-%d-%d" % (name, os.getpid(), _drvn))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if not behs:
        return []
    n = 1 if jobs else shards or min(NPROC, max(1, len(behs) // 4))
    if jobs:
        args = [str(jobs)] + list(args)
    procs = []
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    for k in range(n):
        part = behs[k::n]
        with open("%s/in%d" % (d, k), "w") as f:
            for b in part:
                f.write(json.dumps(b, ensure_ascii=False) + "\n")
        wd = "%s/w%d" % (d, k)
        os.makedirs(wd)
        ef = open("%s/err%d" % (d, k), "w")
        procs.append(subprocess.Popen([BUILD + "/" + name, "%s/in%d" % (d, k), "%s/out%d" % (d, k), str(timeout_each)] + list(args), cwd=wd, stderr=ef, env=e))
    for p in procs:
        try:
            p.wait(timeout=max(1, total_timeout - (time.time() - t)))
        except subprocess.TimeoutExpired:
            for q in procs:
                q.kill()
            raise CheckError("driver %s did not finish within %ds" % (name, total_timeout))
    res = [None] * len(behs)
    if jobs and procs[0].returncode != 0 and not os.path.exists("%s/out0.0" % d):
        log("[driver] %s ended while it set up: %s" % (name, open(d + "/err0").read()[-1000:]))
        shutil.rmtree(d, ignore_errors=True)
        return [[{"crash": "SETUP"}] for _ in behs]
    for k in range(n):
        if procs[k].returncode != 0:
            raise CheckError("driver %s failed rc=%s: %s" % (name, procs[k].returncode, open("%s/err%d" % (d, k)).read()[-2000:]))
        cur = None
        for l in (l for o in (["%s/out0.%d" % (d, j) for j in range(jobs)] or ["%s/out%d" % (d, k)]) for l in open(o, errors="replace")):
            if l[0] == "B":
                cur = int(l[2:]) * n + k
                res[cur] = []
            elif l[0] == "O":
                res[cur].append(json.loads(l[2:]))
            elif l[0] == "X":
                if cur is None or res[cur] is None:
                    raise CheckError("driver %s crashed before its first behaviour" % name)
                res[cur].append({"crash": l[2:].strip()})
    shutil.rmtree(d, ignore_errors=True)
    if any(x is None for x in res):
        raise CheckError("driver %s returned no result for some behaviours" % name)
    log("[driver] %s %d behaviours %.1fs" % (name, len(behs), time.time() - t))
    return res


class Check:
    """Collects what a check explored and the disagreements it found."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.mism = []
        self.notes = {}
        self.rng = random.Random("%s-%s-%s" % (pid, tier, seed))
        self.known = load_known(pid)
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- counters
    def add_tlc(self, r, what):
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.notes.setdefault("tlc", []).append(dict(what=what, distinct=r["distinct"], generated=r["generated"], seconds=round(r["wall"], 1)))

    def sample(self, what, x):
        s = x if len(canon(x)) < 1500 else canon(x)[:1500] + "..."
        if len(self.samples) < 12:
            self.samples.append({"what": what, "case": s})

    def mismatch(self, driver, ops, k, expected, got, what="", env=None):
        self.mism.append(dict(driver=driver, ops=ops, step=k, expected=expected, got=got, what=what, env=env or {}))

    # -- direction 1: behaviours of the specification replayed in the code
    def replay(self, driver, behs, what, **kw):
        ops = [[s[0] for s in b] for b in behs]
        res = run_driver(driver, ops, **kw)
        for b, r in zip(behs, res):
            self.traces += 1
            self.compare(driver, [s[0] for s in b], [s[1] for s in b], r, what, kw.get("env"))
        if behs:
            self.sample(what, behs[len(behs) // 2])

    def compare(self, driver, ops, exp, got, what, env=None):
        for k in range(len(ops)):
            self.steps += 1
            g = got[k] if k < len(got) else {"crash": "no observation"}
            if exp[k] != "?" and obs_str(g) != obs_str(exp[k]):
                self.mismatch(driver, ops, k, exp[k], g, what, env)
                return
        if len(got) > len(ops):
            self.mismatch(driver, ops, len(ops) - 1, "clean end", got[-1], what, env)

    # -- direction 2: traces recorded from the code validated by the specification
    def validate(self, driver, opslists, module, what, cfg=None, chunk=4000, tlc_timeout=600, max_rounds=None, **kw):
        res = run_driver(driver, opslists, **kw)
        self.validate_recorded(driver, opslists, res, module, what, cfg, chunk, tlc_timeout, kw.get("env"))

    def validate_recorded(self, driver, opslists, res, module, what, cfg=None, chunk=4000, tlc_timeout=600, env=None):
        groups, cur, n = [], [], 0
        for idx, ops in enumerate(opslists):
            cur.append(idx)
            n += len(ops) + 1
            if n >= chunk:
                groups.append(cur)
                cur, n = [], 0
        if cur:
            groups.append(cur)
        from concurrent.futures import ThreadPoolExecutor
        os.makedirs(OUT + "/trace", exist_ok=True)

        def one(gi):
            g = groups[gi]
            path = "%s/trace/%s-%s-%d-%d-%d.ndjson" % (OUT, module, driver, os.getpid(), gi, id(g))
            lines, where = [], []
            for idx in g:
                lines.append('{"op":{"f":"#reset"},"obs":"null"}')
                where.append((idx, -1))
                for k, op in enumerate(opslists[idx]):
                    r = res[idx][k] if k < len(res[idx]) else {"crash": "no observation"}
                    o = obs_str(r) if not (isinstance(r, dict) and "crash" in r) else "CRASH " + str(r["crash"])
                    lines.append(json.dumps({"op": op, "obs": o}, ensure_ascii=False))
                    where.append((idx, k))
                    if o.startswith("CRASH "):
                        break
            open(path, "w").write("\n".join(lines) + "\n")
            r = tlc(module, cfg, env={"TRACE": path}, workers=1, timeout=tlc_timeout, mem="3g")
            ms = parse_prints(r["out"], "@M")
            if not r["ok"]:
                keep = path + ".failed"
                shutil.copy(path, keep)
                raise CheckError("trace validation with %s failed to run (%s):\n%s" % (module, keep, tlc_error(r)))
            os.unlink(path)
            return r, ms, where

        with ThreadPoolExecutor(max_workers=max(1, NPROC // 2)) as ex:
            outs = list(ex.map(one, range(len(groups))))
        firsts = {}
        for r, ms, where in outs:
            r = dict(r)
            self.states += r["distinct"]
            self.transitions += r["generated"]
            for pos, exp in ms:
                idx, k = where[pos - 1]
                if idx not in firsts or k < firsts[idx][0]:
                    firsts[idx] = (k, exp)
        tot = 0
        for idx, ops in enumerate(opslists):
            self.traces += 1
            self.steps += len(ops)
            tot += len(ops)
            if idx in firsts:
                k, exp = firsts[idx]
                g = res[idx][k] if k < len(res[idx]) else {"crash": "no observation"}
                try:
                    exp = json.loads(exp)
                except Exception:
                    pass
                self.mismatch(driver, ops, k, exp, g, what, env)
            elif len(res[idx]) > len(ops):
                self.mismatch(driver, ops, len(ops) - 1, "clean end", res[idx][-1], what, env)
        self.notes.setdefault("trace_validation", []).append(dict(what=what, module=module, traces=len(opslists), events=tot))
        if opslists:
            m = len(opslists) // 2
            self.sample(what, [[o, r] for o, r in zip(opslists[m], res[m])][:12])

    # -- verdict
    def confirm(self, m):
        """Re-execute the history up to the rejected step; a rejection counts only if it reproduces."""
        if m.get("confirmed"):
            return True
        r = run_driver(m["driver"], [m["ops"]], shards=1, timeout_each=60, env=m["env"])[0]
        k = m["step"]
        g = r[k] if k < len(r) else {"crash": "no observation"}
        if m["expected"] == "clean end":
            return len(r) > len(m["ops"])
        return obs_str(g) != obs_str(m["expected"])

    def finish(self, level="model_checking"):
        viol = []
        for m in self.mism:
            key = self.match_known(m)
            if key:
                self.known_hit.setdefault(key, m)
                continue
            viol.append(m)
        reported = []
        for m in viol[:200]:
            if len(reported) >= 5:
                break
            if self.confirm(m):
                reported.append(m)
        for k in self.known:
            if k["key"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   observations_compared=self.steps, samples=self.samples or [{"what": "none", "case": []}], details=self.notes,
                   disagreements=len(self.mism), known_findings_seen=sorted(self.known_hit))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.pid, "w"), indent=1, ensure_ascii=False)
        if reported:
            rp = OUT + "/replay"
            os.makedirs(rp, exist_ok=True)
            for n, m in enumerate(reported):
                p = "%s/%s-%d.json" % (rp, self.pid, n)
                json.dump(m, open(p, "w"), indent=1, ensure_ascii=False)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  %s step %d op=%s\n  specification: %s\n  code:          %s" % (m["what"], m["step"], canon(m["ops"][m["step"]])[:600] if m["ops"] else "", obs_str(m["expected"])[:600], obs_str(m["got"])[:600]))
            return 1
        if viol:
            log("note: %d disagreement(s) did not reproduce when the history was re-executed" % len(viol))
        return 0

    def match_known(self, m):
        for k in self.known:
            if k["re"].search(canon(m["ops"][m["step"]] if m["ops"] else "")) and (not k["obs"] or k["obs"] == obs_str(m["got"])):
                return k["key"]
        return None


def load_known(pid):
    """KNOWN_FINDINGS.txt: lines  'known: property=<id> key=<key> op=<regex on the failing operation> [obs=<json>] :: text'"""
    res = []
    p = VERIF + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) op=/(.*?)/(?: obs=(\S+))? :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append(dict(key=m.group(2), re=re.compile(m.group(3)), obs=m.group(4), text=m.group(5)))
    return res
