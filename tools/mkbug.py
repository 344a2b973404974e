"""mkbug.py FILE...: create seeded/<id>/ from descriptions: python files defining BUG = dict(id, property, needs, breaks,
edits=[(file, old, new)], demo=C++ source, srcs=[library sources the demonstration compiles], flags=[...])."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour is as documented; nonzero: it is not
D=$(cd "$(dirname "$0")" && pwd); O=$(mktemp -d); trap 'rm -rf "$O"' EXIT
F="-std=gnu++17 -w -O1 %(flags)s -I/repo/include -faligned-allocation -pthread"
CXX=clang++-18
P=()
for s in "$D/demo.cpp" %(srcs)s; do
  $CXX $F -c "$s" -o "$O/$(basename "$s").o" & P+=($!)
done
for p in "${P[@]}"; do wait $p || exit 3; done
$CXX $F "$O"/*.o -o "$O/demo" -lm || exit 3
cd "$O" && timeout 120 ./demo
'''
LIB = {"dft": "/repo/src/dft/convolution-impl.cpp /repo/src/dft/dft-impl-f32.cpp /repo/src/dft/dft-impl-f64.cpp "
              "/repo/src/dft/dft.cpp /repo/src/dft/fft-impl-f32.cpp /repo/src/dft/fft-impl-f64.cpp",
       "dsp": "/repo/src/dsp/biquad.cpp /repo/src/dsp/fir.cpp /repo/src/dsp/sample_rate_conversion.cpp",
       "io": "/repo/src/io/audiofile-impl.cpp"}


def make(b):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/w", "HEAD"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, "w", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/w", "diff"]).decode()
        assert diff
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/w"])
        os.rmdir(w)
    open(d + "/demo.cpp", "w").write(b["demo"].lstrip())
    srcs = " ".join(LIB.get(x, x) for x in b.get("srcs", []))
    open(d + "/demo.sh", "w").write(DEMO % {"flags": " ".join(b.get("flags", ["-msse2"])), "srcs": srcs})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)


for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for b in g["BUGS"]:
        make(b)
        print("made", b["id"])
