#!/usr/bin/env python3
"""mkseed.py <id>: builds seeded/<id>/ from tools/seeds/<id>.py (variables property, needs, breaks, edits=[(file, old, new)],
demo = C++ source).  Applies the edits in /repo, takes the diff and undoes them again."""
import json, os, subprocess, sys
R = os.environ.get("SEED_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Compiles demo.cpp against the library built from the tree and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -mfma -mavx2 -fopenmp -DENABLE_AVX=1 -DHAVE_AVX2_INSTRUCTIONS -DINSTRUCTION_SET=2 -DUSE_MVEC=1 -DAMPGENROOT="\"$repo\"" \
  %s-I"$repo" -I"$repo/_build" "$here/demo.cpp" %s -o "$tmp/demo" -L"$repo/_build/lib" -lAmpGen -lmvec -lm -ldl -lpthread \
  %s-Wl,-z,lazy -Wl,--unresolved-symbols=%s -Wl,-rpath,"$repo/_build/lib" || { echo "demo does not compile"; exit 3; }
cd "$tmp" && export AMPGENROOT="$repo"
timeout 200 ./demo
rc=$?
rm -f /tmp/libAmpGen-??????.cpp_* 
exit $rc
'''
for i in sys.argv[1:]:
    ns = {}
    exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), ns)
    assert subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout == "", "repo not clean"
    try:
        for f, a, b in ns["edits"]:
            s = open(R + "/" + f).read()
            assert s.count(a) == 1, "%s: %d matches for %r" % (f, s.count(a), a)
            open(R + "/" + f, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "--", "."])
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    extra = " ".join('"$repo/%s"' % x for x in ns.get("extra", []))
    open(d + "/demo.cpp", "w").write(ns["demo"])
    stub = '-I"$here/rootstub" ' if ns.get("stub") else ""
    if stub:
        subprocess.run(["cp", "-r", V + "/harness/rootstub", d + "/"])
    open(d + "/demo.sh", "w").write(DEMO % (stub, extra, "-no-pie " if stub else "", "ignore-all" if stub else "ignore-in-shared-libs"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
