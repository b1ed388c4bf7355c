#!/usr/bin/env python3
# determinism.py [N] [props...]: the same runs, once in one process and once spread over three, must hash alike.
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
N = int(sys.argv[1]) if len(sys.argv) > 1 else 240
props = sys.argv[2:] or sorted(check.CHECKS)
bad = 0
for p in props:
    exe = check.build(p); d = tempfile.mkdtemp(dir=check.BUILD)
    def go(tag, first, step):
        o = os.path.join(d, tag)
        subprocess.run([exe, "run", "--property", p, "--seed", "77", "--first", str(first), "--step", str(step), "--count", str(N), "--deadline", "600", "--hashes", "--out", o], stdout=subprocess.DEVNULL)
        return open(o + ".hashes").read().split("\n")
    a = sorted(go("a", 0, 1)); b = sorted(sum((go("b%d" % k, k, 3) for k in range(3)), []))
    a = [x for x in a if x]; b = [x for x in b if x]
    print(p, len(a), "same" if a == b else "DIFFERENT", flush=True); bad += a != b
    shutil.rmtree(d)
sys.exit(bool(bad))
