#!/usr/bin/env python3
"""Development aid: run one harness mode quickly with a persistent build.
  dev.py HARNESS MODS(,) MODE CASES [flavor] [--seed N] [--def X]"""
import sys, os, collections, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
a = sys.argv[1:]
seed, defs, rust = 1, [], None
if "--rust" in a: i = a.index("--rust"); rust = a[i+1]; del a[i:i+2]
while "--seed" in a: i = a.index("--seed"); seed = int(a[i+1]); del a[i:i+2]
while "--def" in a: i = a.index("--def"); defs.append(a[i+1]); del a[i:i+2]
h, mods, mode, n = a[0], a[1].split(","), a[2], int(a[3]); fl = a[4] if len(a) > 4 else "san"
S = "/tmp/dev"; os.makedirs(S, exist_ok=True)
B = check.Builder.__new__(check.Builder); B.scratch = S; B.gen = S + "/gen"; B.bins = {}
if not os.path.exists(B.gen):
    os.makedirs(B.gen); check.run([sys.executable, check.HERE + "/shim/gen_sbp.py", B.gen])
od = S + "/obj-" + fl + ("-" + "-".join(defs) if defs else "")
newest_inc = max([os.path.getmtime(os.path.join(check.HERE, "harness", f)) for f in os.listdir(check.HERE + "/harness") if f.endswith((".inc", ".hpp", ".cc"))])
hdr = max([os.path.getmtime(os.path.join(d, f)) for d, _, fs in list(os.walk(check.C)) + list(os.walk(check.HERE + "/shim")) for f in fs if f.endswith((".h", ".hpp", ".py"))] or [0])
if os.path.isdir(od):
    for f in os.listdir(od):
        o = os.path.join(od, f)
        if not f.endswith(".o"): continue
        t = os.path.getmtime(o); src = "/" + f[:-2]
        # recover the source path: try all known sources
        if "harness" in f and t < newest_inc: os.remove(o); continue
        if t < hdr and "gen" not in f: os.remove(o)
    srcs = {s.strip("/").replace("/", "_") + ".o": s for s in B.sources(list(check.MODS)) + [os.path.join(check.HERE, "harness", x) for x in os.listdir(check.HERE + "/harness") if x.endswith(".cc")] + [os.path.join(check.HERE, "shim/src", x) for x in os.listdir(check.HERE + "/shim/src")]}
    for f in os.listdir(od):
        if f in srcs and os.path.getmtime(os.path.join(od, f)) < os.path.getmtime(srcs[f]): os.remove(os.path.join(od, f))
exe = B.build(h, mods, fl, defs)
if rust: shutil.rmtree(od + "/rust", ignore_errors=True); [os.remove(os.path.join(od, x)) for x in os.listdir(od) if x.startswith("rust-")]; B.build_rust(rust, h, mods, fl, defs)
job = {"harness": h, "mods": mods, "mode": mode, "cases": {"quick": n}, "flavors": [fl]}
sc = tempfile.mkdtemp(prefix="devrun-")
r = check.run_job(B, "X", job, "quick", seed, 1.0, sc, 0)
shutil.rmtree(sc)
ev = collections.Counter(); nt = 0
for s in r["stats"]:
    nt += s["nontrivial"]
    for k, v in s["events"].items(): ev[k] += v
print("cases", sum(s["cases"] for s in r["stats"]), "nontrivial", nt)
print(" ".join("%s=%d" % x for x in sorted(ev.items())))
by = collections.OrderedDict()
for c, k, m, f in r["viols"]: by.setdefault(k, []).append((c, m))
for k, v in sorted(by.items(), key=lambda x: -len(x[1])): print("## %s x%d\n   case %d: %s" % (k, len(v), v[0][0], v[0][1][:500]) + ("\n   case %d: %s" % (v[-1][0], v[-1][1][:300]) if len(v) > 1 else ""))
print("inconclusive", r["inconclusive"])
print("EXE", exe)
