#!/usr/bin/env python3
"""Decides one property by exhaustive bounded exploration of the real code in /repo.

usage: check.py <ID> [--thorough] [--replay FILE] [--only PROGRAM] [--keep]

Builds harness/<id>*.cpp + mc/mc_main.cpp against /repo/include (current working tree) in a private
scratch directory, explores every choice sequence of every program of the harness, writes
evidence/<ID>.json and exits 0 (held) or 1 (VIOLATION line).  Other exit codes are errors of the check.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = ["g++", "-std=c++17", "-w", "-fno-diagnostics-color", "-I", os.path.join(REPO, "include"), "-I", os.path.join(V, "mc")]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
UBSAN = ["-fsanitize=undefined", "-fno-sanitize-recover=all"]

def directives(path):
    d = {"flags": [], "assume": []}
    for line in open(path):
        m = re.match(r"//\s*mc-(flags|assume):\s*(.*)", line)
        if m:
            d[m.group(1)] += m.group(2).split() if m.group(1) == "flags" else [m.group(2).strip()]
    return d

# properties whose full bounds take seconds: both tiers explore them
FULL = set("C01 C02 C03 C04 C05 C06 C08 C11 C12 C13 C14 C15 C17 C18 C19 C20 C21 C22 C27 C28".split())

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def main():
    args = sys.argv[1:]
    pid = args[0]
    thorough = "--thorough" in args
    if "VERIF_TIER" in os.environ and not thorough and os.environ["VERIF_TIER"] == "thorough":
        thorough = True
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    only = args[args.index("--only") + 1] if "--only" in args else None
    keep = "--keep" in args
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    srcs = sorted(glob.glob(os.path.join(V, "harness", pid.lower() + "*.cpp")))
    if not srcs:
        print("no harness for", pid, file=sys.stderr); return 2
    evdir = os.path.join(V, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    rpath = os.path.join(evdir, "replays", pid + ".txt")
    if not replay and os.path.exists(rpath):
        os.unlink(rpath)
    work = tempfile.mkdtemp(prefix="vmc-%s-" % pid)
    try:
        return body(pid, tier, thorough or pid in FULL, replay, only, seed, t0, srcs, evdir, rpath, work)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)

def violation(pid, rpath):
    print("VIOLATION property=%s replay=%s" % (pid, rpath))
    sys.stdout.flush()
    return 1

def write_evidence(pid, tier, seed, cov, assumptions, t0, violations):
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 3), "violations": violations}
    tmp = os.path.join(V, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(V, "evidence", pid + ".json"))

def body(pid, tier, thorough, replay, only, seed, t0, srcs, evdir, rpath, work):
    assumptions, flags = [], []
    for s in srcs:
        d = directives(s)
        assumptions += d["assume"]
        flags += d["flags"]
    san = SAN if "asan" in flags else (UBSAN if "ubsan" in flags else [])
    opt = [f for f in flags if f.startswith("-")] or ["-O2"]
    if not any(f.startswith("-O") for f in opt):
        opt.append("-O2")
    jobs = [(s, os.path.join(work, os.path.basename(s) + ".o")) for s in srcs]
    jobs.append((os.path.join(V, "mc", "mc_main.cpp"), os.path.join(work, "mc_main.o")))
    def comp(j):
        return j[0], run(BASE + opt + san + ["-DVERIF_THOROUGH=%d" % int(thorough), "-c", j[0], "-o", j[1]])
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(comp, jobs))
    bad = [(s, r) for s, r in results if r.returncode != 0]
    if bad:
        s, r = bad[0]
        # Is it the tree that does not compile at all, or does a documented use of the API not compile any more?
        probe = os.path.join(work, "probe.cpp")
        with open(probe, "w") as f:
            for h in sorted(os.listdir(os.path.join(REPO, "include", "vecmath"))):
                if h == "glsh.h": continue  # does not compile in the original repository either
                f.write('#include <vecmath/%s>\n' % h)
            f.write("int main(){}\n")
        pr = run(BASE + ["-fsyntax-only", probe])
        if pr.returncode != 0 or "mc_main" in s or "Killed" in r.stdout or "out of memory" in r.stdout:
            print(r.stdout[:2500], file=sys.stderr); print("probe:", pr.stdout[:500], file=sys.stderr)
            print("check error: cannot build %s" % s, file=sys.stderr)
            return 2
        with open(rpath, "w") as f:
            f.write("# documented use of the library no longer compiles (headers themselves do): %s\n%s\n" % (s, r.stdout[:20000]))
        print(r.stdout[:3000])
        write_evidence(pid, tier, seed, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": False,
                       "note": "harness no longer compiles against the tree"}, assumptions, t0, 1)
        return violation(pid, rpath)
    exe = os.path.join(work, "mc")
    r = run(BASE + opt + san + [o for _, o in jobs] + ["-o", exe])
    if r.returncode != 0:
        print(r.stdout, file=sys.stderr); return 2
    build_s = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=66"
    if "--each" in sys.argv:  # development aid: one run per program, keeps going after a violation
        for n in run([exe, "--list"]).stdout.split():
            o = os.path.join(work, "o.json")
            p = run([exe, "--only", n, "--out", o] + (["--thorough"] if thorough else []), env=env)
            j = json.load(open(o)) if os.path.exists(o) else {}
            print("%-24s rc=%d traces=%s ops=%s skip=%s wall=%s" % (n, p.returncode, j.get("traces"), j.get("transitions"), j.get("skipped"), j.get("wall")))
            if p.returncode: print("    " + "\n    ".join(p.stdout.strip().split("\n")[:6])[:900])
        return 0
    if replay:
        p = subprocess.run([exe, "--replay", os.path.abspath(replay)], env=env)
        return p.returncode
    out = os.path.join(work, "out.json")
    cmd = [exe, "--out", out, "--replay-out", rpath] + (["--thorough"] if thorough else []) + (["--only", only] if only else [])
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sys.stdout.write(p.stdout[-8000:])
    if not os.path.exists(out) or p.returncode not in (0, 1):
        print("check error: explorer ended with status %s" % p.returncode, file=sys.stderr)
        return 2
    o = json.load(open(out))
    cov = {
        "states": o["states"], "transitions": o["transitions"], "traces_validated_against_impl": o["traces"],
        "samples": [{"program": q["name"], "case": q["sample"]} for q in o["programs"] if q["sample"]][:60],
        "exhaustive": o["result"] == 0 and not only,
        "rule": "states = distinct hashes of (program, inputs/observed outcome); transitions = calls of library operations made and compared with the oracle; traces = complete choice sequences executed on the real code",
        "state_count_is_lower_bound": o["state_cap_hit"], "outside_domain": o["skipped"],
        "max_deviation_bound_completed": o["max_deviation_bound"], "build_s": round(build_s, 2), "explore_s": o["wall"],
        "programs": [{k: q[k] for k in ("name", "traces", "transitions", "outside_domain", "deviation_bound")} for q in o["programs"]],
    }
    write_evidence(pid, tier, seed, cov, assumptions, t0, 1 if o["result"] else 0)
    print("%s %s: states=%d transitions=%d traces=%d build=%.1fs explore=%.1fs" % (pid, tier, o["states"], o["transitions"], o["traces"], build_s, o["wall"]))
    if o["result"] == 1:
        return violation(pid, rpath)
    if o["traces"] == 0:
        print("check error: nothing was explored", file=sys.stderr); return 2
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    return 0

def known_findings(pid):
    p = os.path.join(V, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                r.append(m.group(2).strip())
    return r

if __name__ == "__main__":
    sys.exit(main())
