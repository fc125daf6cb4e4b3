#!/usr/bin/env python3
"""Measures the cost of a case per property and proposes quick_counts.json (per variant: fast, asan)."""
import sys, json, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import run
FAST, ASAN = 36.0, 16.0   # CPU seconds per quick check
out = json.load(open(os.path.join(run.VERIF, "quick_counts.json")))
for p in sys.argv[1:] or sorted(run.PROPS):
    files, mods, variants = run.PROPS[p]
    b = run.Builder(p)
    bs = {(v, bl): b.start(f"{v}.{bl}", bl, files, mods, vf) for v, vf in variants for bl in ("fast", "asan")}
    exes = {k: b.finish(x) for k, x in bs.items()}
    def cost(bl):
        tot = 0
        for v, _ in variants:
            n = 60
            while True:
                t = time.time()
                run.sh([exes[(v, bl)], "--prop", p, "--variant", v or "default", "--to", str(n)])
                t = time.time() - t
                if t > 0.4:
                    break
                n *= 3
            tot += t / n
        return tot
    cf, ca = cost("fast"), cost("asan")
    out[p] = [max(50, int(FAST / cf)), max(20, int(ASAN / ca))]
    print(p, f"{cf*1e6/len(variants):.0f} us, {ca*1e6/len(variants):.0f} us per case ->", out[p], flush=True)
    run.shutil.rmtree(b.dir)
json.dump(out, open(os.path.join(run.VERIF, "quick_counts.json"), "w"), indent=0, sort_keys=True)
