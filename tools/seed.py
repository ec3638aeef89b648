#!/usr/bin/env python3
"""Maintains /verif/seeded: builds patch.diff/demo.sh/demo.cpp/meta.json from a spec and confirms each bug.
usage: seed.py SPEC.py [ID...]     SPEC.py calls bug(id, prop, edits, needs, breaks, demo)
The confirmation runs in a scratch copy of /repo: patch applies, compiles, all baseline tests pass,
demo passes on the clean copy and fails on the patched one; then the property's quick check is run on the copy."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, skip=False): BUGS.append((id, prop, edits, needs, breaks, demo))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO_SH = '''#!/bin/bash
# exit 0: the demonstrated behaviour is right; run with cwd = the repository
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 -I "$PWD/include" "$here/demo.cpp" -o "$out/demo"
timeout 60 "$out/demo"
'''
PRE = '''#include <vecmath/approx.h>
#include <vecmath/bbox.h>
#include <vecmath/bbox_io.h>
#include <vecmath/bezier_surface.h>
#include <vecmath/constants.h>
#include <vecmath/constexpr_util.h>
#include <vecmath/convex_hull.h>
#include <vecmath/distance.h>
#include <vecmath/forward.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane.h>
#include <vecmath/plane_io.h>
#include <vecmath/polygon.h>
#include <vecmath/quat.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>
#include <vecmath/scalar.h>
#include <vecmath/segment.h>
#include <vecmath/util.h>
#include <vecmath/vec.h>
#include <vecmath/vec_ext.h>
#include <vecmath/vec_io.h>
#include <cmath>
#include <cstdio>
#include <list>
#include <sstream>
#include <string>
#include <vector>
#define REQUIRE(...) do { if (!(__VA_ARGS__)) { std::printf("FAILED: %s\\n", #__VA_ARGS__); return 1; } } while (0)
static bool near(double a, double b, double e = 1e-6) { return std::fabs(a - b) <= e; }
int main() {
  (void)near;
'''
def sync():
    if not os.path.isdir(W): sh(f"cp -a /repo {W}"); shutil.rmtree(W + "/_build", ignore_errors=True)
    for f in os.listdir("/repo/include/vecmath"):  # restore by content, so that ninja sees a new time stamp
        a = open("/repo/include/vecmath/" + f).read(); p = f"{W}/include/vecmath/{f}"
        if open(p).read() != a: open(p, "w").write(a)
def build():
    if not os.path.isfile(W + "/_b/build.ninja"):
        r = sh(f"CC=gcc CXX=g++ cmake -S {W} -B {W}/_b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS='-Wno-error' -DCMAKE_PROJECT_vecmath_INCLUDE=/opt/vp/catch2-compat/catch2-compat.cmake")
        if r.returncode: print(r.stdout); sys.exit(1)
    return sh(f"ninja -C {W}/_b")
def main():
    spec = sys.argv[1]; only = sys.argv[2:]
    exec(compile(open(spec).read(), spec, "exec"), {"bug": bug})
    base = json.load(open("/opt/vp/BASELINE.json")); stable = set(base.get("stable") or base["passed"])
    summary = []
    for id, prop, edits, needs, breaks, demo in BUGS:
        if only and id not in only: continue
        sync()
        d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(PRE + demo.strip("\n") + "\n  return 0;\n}\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", cwd=W)
        if r.returncode: print(id, "DEMO FAILS ON CLEAN", r.stdout[-1500:]); summary.append((id, prop, "demo-clean")); continue
        ok = True
        for f, a, b in edits:
            p = f"{W}/include/vecmath/{f}"; s = open(p).read()
            if s.count(a) != 1: print(id, "EDIT MATCHES", s.count(a), repr(a)); ok = False; break
            open(p, "w").write(s.replace(a, b))
        if not ok: summary.append((id, prop, "edit")); continue
        diff = sh("git -C %s diff -- include" % W).stdout
        # the copy's HEAD equals /repo's HEAD
        open(d + "/patch.diff", "w").write(diff)
        r = sh(f"git -C /repo apply --check {d}/patch.diff")
        if r.returncode: print(id, "PATCH DOES NOT APPLY", r.stdout); summary.append((id, prop, "apply")); continue
        r = sh(f"bash {d}/demo.sh", cwd=W)
        if r.returncode == 0: print(id, "DEMO PASSES ON PATCHED"); summary.append((id, prop, "demo-patched")); continue
        r = build()
        if r.returncode: print(id, "DOES NOT BUILD", r.stdout[-1500:]); summary.append((id, prop, "build")); continue
        sh(f"python3 /opt/vp/run_catch.py {W}/_b/test/vecmath-test /tmp/seed_out.json")
        missing = stable - set(json.load(open("/tmp/seed_out.json"))["passed"])
        if missing: print(id, "TESTS CATCH IT", sorted(missing)[:4]); summary.append((id, prop, "tests")); continue
        r = sh(f"VERIF_REPO={W} python3 {V}/check.py {prop}", cwd=V)
        got = "CAUGHT" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else "MISSED rc=%d" % r.returncode
        cex = [l for l in r.stdout.splitlines() if "counterexample" in l or "error" in l][:1]
        print(id, prop, got, (cex[0].strip()[:160] if cex else "")); summary.append((id, prop, got))
        sys.stdout.flush()
    sync()
    for id, prop, got in summary:
        if got != "CAUGHT" and not got.startswith("MISSED"): shutil.rmtree(os.path.join(V, "seeded", id))
    print("\n".join("%s %s %s" % x for x in summary if x[2] != "CAUGHT"))
main()
