#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.  usage: check.py PROPERTY [quick|thorough]"""
import hashlib, json, os, re, subprocess, sys, time, glob, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
CXX = shutil.which("clang++-18") or "clang++"
# a64, a32: the library's NEON code for 64 and 32 bit Arm on stand-ins for the intrinsics (sim/neon)
MARCH = {"v3": ["-march=x86-64-v3"], "v2": ["-march=x86-64-v2"], "v1": ["-march=x86-64"], "a64": ["-march=x86-64", "-DSIM_NEON", "-DSIM_A64"], "a32": ["-march=x86-64", "-DSIM_NEON"]}
BASE = ["-stdlib=libc++", "-std=c++17", "-W", "-Wall", "-O2", "-fno-exceptions", "-fno-rtti", "-fPIC", "-pthread"]
LIBFLAGS = ["-ffast-math", "-ftree-vectorize", "-Wno-vla-cxx-extension", "-Wno-unused-function", "-Wno-vla-extension", "-Wno-unknown-warning-option"]
SAN = ["-fsanitize-coverage=trace-pc-guard"]
STORES = ["-fsanitize-coverage=trace-pc-guard,trace-stores"]
sys.path.insert(0, SIM)
from checks import CHECKS

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def closure(src, dirs):
    """the file and every file it names in an include, transitively; all branches of conditionals count"""
    seen, todo = {}, [src]
    while todo:
        p = todo.pop()
        if p in seen: continue
        seen[p] = t = rd(p)
        for m in re.findall(rb'^\s*#\s*include\s*[<"]([^>"]+)[>"]', t, re.M):
            for d in [os.path.dirname(p)] + dirs:
                q = os.path.realpath(os.path.join(d, m.decode("utf8", "replace")))
                if os.path.isfile(q): todo.append(q)
    return [x for p in sorted(seen) for x in (os.path.relpath(p, REPO) if p.startswith(os.path.realpath(REPO) + os.sep) else os.path.basename(p), seen[p])]

def run(cmd, timeout=800):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf8", "replace")

class BuildError(Exception): pass

def compile_one(src, flags, inc_repo, kind):
    inc = [SIM] + ([os.path.join(SIM, "neon")] if "-DSIM_NEON" in flags else []) + ([REPO] if inc_repo else [])
    key = sha(CXX, flags, kind, *closure(src, inc))
    out = os.path.join(BUILD, "%s-%s.%s" % (os.path.basename(src)[:-3], key, kind))
    if not os.path.exists(out):
        tmp = "%s.%d" % (out, os.getpid())
        cmd = [CXX] + BASE + flags + [x for d in inc for x in ("-I", d)]
        if kind == "so":
            vs = os.path.join(BUILD, "export.map")
            cmd += ["-shared", "-Wl,-Bsymbolic", "-Wl,--version-script=" + vs, "-Wl,-soname," + os.path.basename(out), src, "-o", tmp]
        else:
            cmd += ["-c", src, "-o", tmp]
        rc, txt = run(cmd)
        if rc: raise BuildError("%s\n%s" % (" ".join(cmd), txt[-6000:]))
        os.rename(tmp, out)
    return out

def build(prop):
    c = CHECKS[prop]
    os.makedirs(BUILD, exist_ok=True)
    vs = os.path.join(BUILD, "export.map")
    if not os.path.exists(vs):
        with open(vs + ".%d" % os.getpid(), "w") as f: f.write("{ global: sim_register_*; local: *; };\n")
        os.rename(vs + ".%d" % os.getpid(), vs)
    jobs = []; names = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for fam in c["wrap"]:
            for isa in c["isa"]:
                names.append((fam, isa))
                fl = LIBFLAGS + MARCH[isa] + ["-DISA=" + isa] + (STORES if c.get("instr") == "stores" else SAN if c.get("instr") else [])
                jobs.append((c.get("weight", {}).get(fam, 0), fam, isa, fl))
        objs = [ex.submit(compile_one, os.path.join(SIM, s), ["-Wno-unused-function"], False, "o") for s in ["kernel.cc", "backends.cc"] + c["world"]]
        libs = {}
        for w, fam, isa, fl in sorted(jobs, key=lambda j: -j[0]):
            libs[(fam, isa)] = ex.submit(compile_one, os.path.join(SIM, "wrap_%s.cc" % fam), fl, True, "so")
        objs = [o.result() for o in objs]
        libs = {k: v.result() for k, v in libs.items()}
    reg = ["#include \"codecs.hh\"", "namespace sim { void register_all(); }"]
    for fam, isa in names: reg.append('extern "C" void sim_register_%s_%s(sim::Backend &);' % (fam, isa))
    reg.append("void sim::register_all() {")
    for fam, isa in names: reg.append('\tsim_register_%s_%s(sim::backend("%s"));' % (fam, isa, isa))
    reg.append("}")
    body = "\n".join(reg) + "\n"
    key = sha(body, *[os.path.basename(x) for x in objs + sorted(libs.values())])
    exe = os.path.join(BUILD, "%s-%s" % (prop, key))
    if not os.path.exists(exe):
        rs = os.path.join(BUILD, "reg-%s-%s.cc" % (prop, key))
        with open(rs, "w") as f: f.write(body)
        tmp = "%s.%d" % (exe, os.getpid())
        cmd = [CXX] + BASE + ["-I", SIM, rs] + objs + [libs[k] for k in names] + ["-rdynamic", "-Wl,-rpath,$ORIGIN", "-o", tmp]
        rc, txt = run(cmd)
        if rc: raise BuildError(txt[-6000:])
        os.rename(tmp, exe)
    return exe

def known_findings(prop):
    """lines: 'known: property=<id> kind=<kind> <what fails>' suppress; 'fixed: ...' never does"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                rest = line.split("kind=", 1)[1].strip()
                out.append((rest.split(" ", 1)[0], rest.split(" ", 1)[1] if " " in rest else ""))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    t0 = time.time()
    try:
        exe = build(prop)
    except BuildError as e:
        print("build failed:\n%s" % e); return 2
    if tier == "build": return 0
    tb = time.time() - t0
    W = os.cpu_count() or 4
    count, deadline = (c["quick"], 180.0) if tier == "quick" else (c.get("thorough", c["quick"] * 40), 780.0)
    if os.environ.get("SIM_COUNT"): count = int(os.environ["SIM_COUNT"])
    if os.environ.get("SIM_DEADLINE"): deadline = float(os.environ["SIM_DEADLINE"])
    tmp = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    try:
        return judge(prop, tier, seed, c, exe, tmp, W, count, deadline, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def judge(prop, tier, seed, c, exe, tmp, W, count, deadline, t0, tb):
    known = known_findings(prop)
    procs = []
    for w in range(W):
        cmd = [exe, "run", "--property", prop, "--tier", tier, "--seed", str(seed), "--first", str(w), "--step", str(W), "--count", str(count), "--deadline", str(deadline), "--out", os.path.join(tmp, "w%d" % w)]
        for k, _ in known: cmd += ["--known", k]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    errs = []
    for p in procs:
        e = p.communicate()[1].decode("utf8", "replace").strip()
        if p.returncode not in (0, 1): errs.append("worker exit %s: %s" % (p.returncode, e[-500:]))
    res = []
    for w in range(W):
        try: res.append(json.load(open(os.path.join(tmp, "w%d.json" % w))))
        except Exception as e: errs.append("worker %d: no result (%s)" % (w, e))
    tr = time.time() - t0 - tb
    viol = []
    for r in res:
        if r["violation"]:
            head = dict(l.split(" ", 1) for l in open(r["violation"]).read().split("choices", 1)[0].strip().split("\n") if " " in l)
            viol.append((int(head["run"]), r["violation"], head))
    viol.sort()
    tot = lambda k: sum(r[k] for r in res)
    ctr = {}
    kn = {}
    for r in res:
        for k, v in r["counters"].items(): ctr[k] = ctr.get(k, 0) + v
        for k, v in r["known"].items(): kn[k] = kn.get(k, 0) + v
    shapes = set(x for r in res for x in r["shapes"]); covs = set(x for r in res for x in r["covs"])
    hours = max(tr, 1e-3) / 3600
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "coverage": {"evaluations": tot("runs"), "distinct_nontrivial": len(shapes), "rule": c["rule"], "samples": [s for r in res for s in r["samples"]][:6],
                       "simulated_runs_per_hour": int(tot("runs") / hours), "seeds": "one PRNG stream per run index 0..%d derived from VERIF_SEED=%d" % (count - 1, seed),
                       "simulated_time_s": round(tot("time_us") / 1e6, 3), "simulated_events": tot("events"), "nontrivial_runs": tot("nontrivial"),
                       "choices_drawn": tot("choices"), "runs_replayed_and_compared": tot("rechecked"),
                       "faults_injected": {k[6:]: v for k, v in sorted(ctr.items()) if k.startswith("fault.")},
                       "rare_conditions_reached": {k[6:]: v for k, v in sorted(ctr.items()) if k.startswith("probe.")},
                       "counters": {k: v for k, v in sorted(ctr.items()) if not k.startswith(("fault.", "probe."))},
                       "distinct_histories": len(shapes), "exhaustive": False,
                       "real_components": c["real"], "stubbed_components": c["stub"],
                       "backends": c["isa"], "build_s": round(tb, 1), "search_s": round(tr, 1)},
          "assumptions": c.get("assume", [])}
    if any(r["instrumented"] for r in res):
        ev["coverage"]["library_edges_executed"] = tot("edges"); ev["coverage"]["library_edges_known"] = max(r["ncov"] for r in res); ev["coverage"]["distinct_edge_sets"] = len(covs)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    def write():
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    write()
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s (kind %s, %d runs)" % (prop, what, k, kn.get(k, 0)))
    if viol:
        rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
        for run_no, path, head in viol: # the first one found is reported; the others stand in should it depend on something outside the simulation
            print("run %d violates %s: %s: %s" % (run_no, prop, head["kind"], head["msg"]))
            final = os.path.join(rdir, "%s-seed%d-run%d.replay" % (prop, seed, run_no))
            small = os.path.join(tmp, "small-%d.replay" % run_no)
            if not os.environ.get("SIM_NOSHRINK"): run([exe, "shrink", "--file", path, "--out", small, "--tier", tier, "--budget", "40"], 400)
            for cand in ([small] if os.path.exists(small) else []) + [path]:
                outs = []
                for i in range(3):
                    rc, txt = run([exe, "replay", "--file", cand, "--tier", tier, "--trace", os.path.join(tmp, "trace")], 300)
                    outs.append((rc, txt.strip().split("\n")[-1] if txt.strip() else ""))
                if all(o == outs[0] for o in outs) and outs[0][0] == 1:
                    body = open(cand).read()
                    trace = open(os.path.join(tmp, "trace"), errors="replace").read()
                    with open(final, "w") as f: f.write(body + "trace:\n" + trace[-200000:])
                    print(trace[-3000:])
                    ev["coverage"]["violation"] = outs[0][1][:600]; write()
                    print("VIOLATION property=%s replay=%s" % (prop, final))
                    return 1
            if time.time() - t0 > 600: break
        print("violation did not reproduce in fresh processes: %s" % outs)
        return 2
    if errs or len(res) != W:
        print("\n".join(errs)); return 2
    print("%s: held on %d simulated runs (%d distinct histories), %.1f s build, %.1f s search" % (prop, tot("runs"), len(shapes), tb, tr))
    return 0

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--build-all":
        for p in CHECKS:
            try: print(p, os.path.basename(build(p)))
            except BuildError as e: print(p, "build failed", str(e)[-2000:]); sys.exit(2)
        sys.exit(0)
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        head = open(sys.argv[2]).read().split("\n", 1)[0].split()
        exe = build(head[1]); os.execv(exe, [exe, "replay", "--file", sys.argv[2], "--trace", "/dev/stderr"])
    sys.exit(main())
