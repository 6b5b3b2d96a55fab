#!/usr/bin/env python3
"""Run one property check: build the code under /repo with sanitizers and the
harness' monitors, drive it, and turn what was observed into a verdict.

  check.py ID [--tier quick|thorough] [--seed N] [--scale F]
  check.py --replay FILE          re-run one recorded case verbosely
  check.py --list

exit 0: held on everything explored (known findings are printed)
exit 1: VIOLATION property=<id> replay=<path>
exit 3: the check itself could not be carried out (build error, nothing observed)
"""
import glob, json, mmap, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
from checks import CHECKS  # noqa: E402

C = os.path.join(REPO, "c")
MODS = {
    "librtcm": ["librtcm/src/*.c"],
    "libubx": ["libubx/src/*.c"],
    "libixcom": ["libixcom/src/*.c"],
    "gc": ["gnss_converters/src/*.c", "gnss_converters/src/*/*.c", "gnss_converters_extra/src/*.c"],
    "mains": ["ubx2sbp/src/*.c", "ixcom2sbp/src/*.c", "rtcm3tosbp/src/*.c", "sbp2rtcm/src/*.c"],
    "nov": ["nov2sbp/parser/*.cc", "nov2sbp/src/*.cc"],
}
SKIP = re.compile(r"/test_[a-z_0-9]*\.(c|cc)$")
INCS = ["librtcm/include", "libubx/include", "libixcom/include", "gnss_converters/include",
        "gnss_converters/src", "gnss_converters/src/ubx_ephemeris", "gnss_converters_extra/include",
        "nov2sbp", "nov2sbp/parser", "nov2sbp/src", "ubx2sbp/include", "ixcom2sbp/include",
        "rtcm3tosbp/include", "sbp2rtcm/include", "."]
FLAVORS = {
    "san": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer",
            "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
            "-fno-sanitize=function,vptr"],
    "tsan": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "zero": ["-O1", "-gline-tables-only", "-ftrivial-auto-var-init=zero"],
    "pattern": ["-O1", "-gline-tables-only", "-ftrivial-auto-var-init=pattern"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=99:handle_abort=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:strict_string_checks=0:symbolize=1:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=99",
           TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0")
for k in ("LLVM_PROFILE_FILE", "MALLOC_PERTURB_"):
    ENV.pop(k, None)


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.gen = os.path.join(scratch, "gen")
        os.makedirs(self.gen)
        r = run([sys.executable, os.path.join(HERE, "shim/gen_sbp.py"), self.gen])
        if r.returncode:
            raise CheckError("gen_sbp failed: " + r.stdout[-2000:])
        self.bins = {}

    def sources(self, mods):
        out = []
        for m in mods:
            for g in MODS[m]:
                for f in sorted(glob.glob(os.path.join(C, g))):
                    if not SKIP.search(f):
                        out.append(f)
        return out

    def plan(self, harness, mods, flavor, defs=()):
        """(flags, object directory, objects, {missing object: compile command})"""
        incs = ["-I" + os.path.join(HERE, "shim/include"), "-I" + self.gen, "-I" + os.path.join(HERE, "shim/src")]
        incs += ["-I" + os.path.join(C, i) for i in INCS] + ["-I" + os.path.join(HERE, "harness")]
        fl = FLAVORS[flavor] + ["-w", "-pthread", "-DVH_FLAVOR_" + flavor] + ["-D" + d for d in defs]
        odir = os.path.join(self.scratch, "obj-" + flavor + ("-" + "-".join(defs) if defs else ""))
        os.makedirs(odir, exist_ok=True)
        srcs = sorted(glob.glob(os.path.join(HERE, "shim/src/*.c"))) + [os.path.join(self.gen, "sbp_gen.c")]
        srcs += self.sources(mods)
        srcs += [os.path.join(HERE, "harness", "vh_main.cc"), os.path.join(HERE, "harness", harness)]
        jobs, objs = {}, []
        for s in srcs:
            o = os.path.join(odir, s.strip("/").replace("/", "_") + ".o")
            objs.append(o)
            if os.path.exists(o):
                continue
            if s.endswith(".c"):
                cmd = ["clang", "-std=gnu11", "-fno-strict-aliasing", "-D_GNU_SOURCE"]
            else:
                std = "-std=c++14" if s.startswith(C) else "-std=c++17"
                cmd = ["clang++", std]
            if s.startswith(self.gen):
                f2 = [x for x in fl if not x.startswith("-O")] + ["-O0"]
            else:
                f2 = fl
            mm = re.search(r"/(\w+_main)\.(c|cc)$", s)
            if mm and s.startswith(C):
                f2 = f2 + ["-Dmain=cli_" + mm.group(1)]
            jobs[o] = cmd + f2 + incs + ["-c", s, "-o", o]
        return fl, odir, objs, jobs

    def compile(self, jobs):
        # harnesses take longest
        todo = [jobs[k] for k in sorted(jobs, key=lambda o: (not jobs[o][-3].startswith(HERE + "/harness"), o))]
        with ThreadPoolExecutor(NPROC) as ex:
            for cmd, r in zip(todo, ex.map(run, todo)):
                if r.returncode:
                    raise CheckError("compile failed: " + " ".join(cmd[-3:]) + "\n" + r.stdout[-3000:])

    def prebuild(self, jobs):
        todo = {}
        for j in jobs:
            for f in j.get("flavors", ["san"]):
                todo.update(self.plan(j["harness"], j["mods"], f, j.get("defs", ()))[3])
        self.compile(todo)

    def build(self, harness, mods, flavor, defs=()):
        key = (harness, flavor, tuple(defs))
        if key in self.bins:
            return self.bins[key]
        fl, odir, objs, jobs = self.plan(harness, mods, flavor, defs)
        self.compile(jobs)
        exe = os.path.join(odir, harness.replace(".cc", ""))
        r = run(["clang++"] + fl + objs + ["-o", exe, "-lm"])
        if r.returncode:
            raise CheckError("link failed\n" + r.stdout[-3000:])
        self.bins[key] = exe
        return exe


    def build_rust(self, name, harness, mods, flavor, defs=()):
        """The Rust program of that name around the C objects already built, next to the harness."""
        fl, odir, objs, jobs = self.plan(harness, mods, flavor, defs)
        self.compile(jobs)
        exe = os.path.join(odir, "rust-" + name)
        if os.path.exists(exe):
            return exe
        rd = os.path.join(odir, "rust")
        base = ["rustc", "--edition", "2018", "--cap-lints", "allow", "-C", "panic=abort", "-C", "opt-level=1", "-L", rd]

        def rc(cmd):
            r = run(cmd)
            if r.returncode:
                raise CheckError("rust build failed: " + " ".join(cmd[-6:]) + "\n" + r.stdout[-3000:])
        ext = []
        if not os.path.isdir(rd):
            os.makedirs(rd)
            for f in glob.glob(os.path.join(REPO, "rust", "*.rs")):  # the libraries they name: everything is in libverif_c.a
                for lib in re.findall(r'link\(name *= *"([^"]+)"', open(f).read()):
                    rc(["ar", "rc", os.path.join(rd, "lib%s.a" % lib)])
        crates = sorted(glob.glob(os.path.join(HERE, "shim/rust/*.rs")))
        for s in crates + [os.path.join(REPO, "rust/lib.rs")]:
            c = "gnss_converters" if s.endswith("/lib.rs") else os.path.basename(s)[:-3]
            o = os.path.join(rd, "lib%s.rlib" % c)
            if not os.path.exists(o):
                rc(base + ext + ["--crate-type", "rlib", "--crate-name", c, s, "-o", o])
            ext += ["--extern", "%s=%s" % (c, o)]
        own = [o for o in objs if "_harness_" not in os.path.basename(o)]
        ar = os.path.join(rd, "libverif_c_%s.a" % name)
        if os.path.exists(ar):
            os.remove(ar)
        rc(["ar", "rc", ar] + own)
        rc(base + ext + ["-C", "linker=clang++", "--crate-name", name, os.path.join(REPO, "rust", name + ".rs"), "-o", exe,
                         "-C", "link-args=%s %s -lstdc++ -lm -lpthread -ldl" % (" ".join(x for x in fl if x.startswith("-fsanitize") or x.startswith("-fno-sanitize")), ar)])
        return exe


def norm(msg):
    msg = re.sub(r"0x[0-9a-f]+", "N", msg)
    msg = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", msg)
    msg = re.sub(r"\b(-?nan|-?inf)\b", "N", msg)
    return re.sub(r"[^A-Za-z_]+", "-", msg).strip("-")[:60]


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)")


def crash_key(text):
    """(key, summary) of a sanitizer report / assertion / signal."""
    kind, where = None, None
    m = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", text, re.M)
    if m:
        kind = "ub-" + norm(m.group(3).split(" for type")[0] if "index" in m.group(3) else m.group(3))
        where = m.group(1)
    m = re.search(r"^(?:\S+: )?(\S+?):(\d+): (.*): Assertion `(.*)' failed", text, re.M)
    if m and not kind:
        fn = re.sub(r"\(.*", "", m.group(3)).split()[-1]
        return "assert@" + fn, m.group(0)[:400]
    if not kind:
        m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z-]+)", text)
        if m:
            kind = "asan-" + m.group(1)
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([A-Za-z ]+)", text)
        if m:
            kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    if not kind:
        kind = "crash"
    fn = None
    for m in FRAME.finditer(text):
        if m.group(2).startswith(REPO + "/"):
            fn = re.sub(r"\(.*", "", m.group(1))
            break
    line = next((l for l in text.splitlines() if "runtime error" in l or "ERROR: " in l or "WARNING: Thread" in l), text[:300])
    return "%s@%s" % (kind, fn or (os.path.basename(where) if where else "?")), line.strip()[:400]


class Shard:
    """Runs cases [start,end) of one job; restarts after crashes."""
    def __init__(self, exe, job, seed, start, end, tag, scratch, thorough, digest=None):
        self.__dict__.update(locals())
        self.viols, self.stats, self.crashes, self.inconclusive = [], [], 0, []

    def once(self, start, end, limit, digest=None):
        t = os.path.join(self.scratch, "run-%s-%d" % (self.tag, start))
        out, prog, err = t + ".out", t + ".prog", t + ".err"
        for p in (out, prog):
            if os.path.exists(p):
                os.remove(p)
        with open(prog, "wb") as f:
            f.write(b"\0" * 24)
        cmd = [self.exe, "--seed", str(self.seed), "--start", str(start), "--end", str(end), "--out", out,
               "--progress", prog, "--mode", self.job.get("mode", "default"), "--repo", REPO]
        if self.thorough:
            cmd.append("--thorough")
        if digest:
            cmd += ["--digest", digest]
        cwd = tempfile.mkdtemp(dir=self.scratch)
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=ENV, cwd=cwd)
            last, since, hung = None, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.05 if last is None else 0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                with open(prog, "rb") as f:
                    b = struct.unpack("QQQ", f.read(24).ljust(24, b"\0"))
                if b != last:
                    last, since = b, time.time()
                elif time.time() - since > limit:
                    hung = True
                    p.kill()
                    p.wait()
                    break
                if os.path.getsize(err) > 64 << 20:
                    os.truncate(err, 0)
        with open(prog, "rb") as f:
            cur, done, _ = struct.unpack("QQQ", f.read(24).ljust(24, b"\0"))
        with open(err, "rb") as f:
            text = f.read().decode("utf8", "replace")
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if j["t"] == "viol":
                    self.viols.append((j["case"], j["key"], j["msg"]))
                else:
                    self.stats.append(j)
        return p.returncode, cur, done, hung, text

    def go(self):
        pos = self.start
        while pos < self.end:
            rc, cur, done, hung, text = self.once(pos, self.end, self.job.get("hang", 25),
                                                  self.digest if pos == self.start else None)
            if rc == 0 and done:
                break
            if rc in (66, 99) and done:  # tsan
                key, line = crash_key(text)
                self.viols.append((cur, key, line))
                break
            if hung:
                rc2, c2, d2, h2, t2 = self.once(cur, cur + 1, 90)
                if h2:
                    self.viols.append((cur, "hang", "case does not terminate within 90 s"))
                elif rc2 == 0:
                    self.inconclusive.append("case %d slow" % cur)
                else:
                    self.crash(cur, t2, rc2)
            else:
                self.crash(cur, text, rc)
            self.crashes += 1
            if self.crashes >= self.job.get("max_crashes", 60):
                break
            pos = cur + 1
        return self

    def crash(self, case, text, rc):
        if rc == -9:
            self.inconclusive.append("killed by the system in case %d" % case)
            return
        key, line = crash_key(text)
        tail = "\n".join(text.splitlines()[:40])
        self.viols.append((case, key, line + " | rc=%s" % rc + ("" if "@?" not in key else " | " + tail[:500])))


def run_job(b, prop, job, tier, seed, scale, scratch, idx):
    n = int(job["cases"][tier] * scale)
    shards = max(1, min(NPROC, n))
    flavors = job.get("flavors", ["san"])
    result = {"viols": [], "stats": [], "inconclusive": [], "cases": n}
    exes = {f: b.build(job["harness"], job["mods"], f, job.get("defs", ())) for f in flavors}
    for f in flavors:
        if job.get("rust"):
            b.build_rust(job["rust"], job["harness"], job["mods"], f, job.get("defs", ()))
    for fi, f in enumerate(flavors):
        todo, step = [], (n + shards - 1) // shards
        for s in range(shards):
            lo, hi = s * step, min(n, (s + 1) * step)
            if lo < hi:
                dg = os.path.join(scratch, "dig-%d-%s-%d" % (idx, f, s))
                todo.append(Shard(exes[f], job, seed, lo, hi, "%d-%s-%d" % (idx, f, s), scratch, tier == "thorough",
                                  dg if len(flavors) > 1 else None))
        with ThreadPoolExecutor(NPROC) as ex:
            for sh in ex.map(lambda x: x.go(), todo):
                result["viols"] += [(c, k, m, f) for c, k, m in sh.viols]
                result["inconclusive"] += sh.inconclusive
                if fi == 0:
                    result["stats"] += sh.stats
                else:
                    result.setdefault("extra_stats", []).extend(sh.stats)
    if len(flavors) > 1:
        dig = {}
        for f in flavors:
            for p in glob.glob(os.path.join(scratch, "dig-%d-%s-*" % (idx, f))):
                for line in open(p):
                    if line.endswith("\n"):
                        c, d = line.split()
                        dig.setdefault(int(c), {})[f] = d
        cmpd = 0
        for c, d in sorted(dig.items()):
            if len(d) > 1:
                cmpd += 1
                if len(set(d.values())) > 1:
                    result["viols"].append((c, "indeterminate-output",
                                            "output differs between builds that differ only in the initial contents of automatic variables: %s" % d,
                                            "twin"))
        result["twin_compared"] = cmpd
    return result


def main():
    av = sys.argv[1:]
    if av and av[0] == "--list":
        for k in CHECKS:
            print(k)
        return 0
    if av and av[0] == "--replay":
        return replay(av[1])
    prop = av[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = 1.0
    i = 1
    while i < len(av):
        if av[i] == "--tier":
            tier = av[i + 1]
        elif av[i] == "--seed":
            seed = int(av[i + 1])
        elif av[i] == "--scale":
            scale = float(av[i + 1])
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="gnsschk-")
    try:
        b = Builder(scratch)
        b.prebuild(spec["jobs"])
        viols, ev, distinct, dcases, samples, inconc = [], {}, set(), set(), [], []
        evals = nt = 0
        jobs_ev = []
        tb = 0.0
        for idx, job in enumerate(spec["jobs"]):
            r = run_job(b, prop, job, tier, seed, scale, scratch, idx)
            je = {}
            jc = jn = 0
            for s in r["stats"]:
                jc += s["cases"]
                jn += s["nontrivial"]
                for k, v in s["events"].items():
                    je[k] = je.get(k, 0) + v
                distinct.update((idx, d) for d in s["distinct"])
                dcases.update((idx, d) for d in s["casehashes"])
                for x in s["samples"]:
                    if len([y for y in samples if y.startswith("[%d" % idx)]) < 3:
                        samples.append("[%d:%s] %s" % (idx, job.get("mode", "default"), x))
            evals += jc
            nt += jn
            jobs_ev.append({"harness": job["harness"], "mode": job.get("mode", "default"), "flavors": job.get("flavors", ["san"]),
                            "cases": jc, "nontrivial": jn, "events": je, "twin_outputs_compared": r.get("twin_compared", 0)})
            inconc += r["inconclusive"]
            viols += [(idx,) + v for v in r["viols"]]
        known = json.load(open(os.path.join(HERE, "known_findings.json")))
        kf = [f for f in known["findings"] if f["property"] == prop]
        seen_known, fresh = {}, []
        for idx, case, key, msg, fl in viols:
            hit = next((f for f in kf if re.fullmatch(f["key"], key)), None)
            if hit:
                seen_known.setdefault(hit["key"], hit)
            else:
                fresh.append((idx, case, key, msg, fl))
        for f in kf:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, f["what"], "" if f["key"] in seen_known else " (not triggered in this run)"))
        rc = 0
        if fresh:
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            bykey = {}
            for v in fresh:
                bykey.setdefault(v[2], []).append(v)
            for key, vs in list(bykey.items())[:12]:
                idx, case, _, msg, fl = vs[0]
                p = os.path.join(HERE, "replay", "%s-%s-%d.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", key)[:60], case))
                job = spec["jobs"][idx]
                json.dump({"property": prop, "job": idx, "case": case, "seed": seed, "tier": tier, "key": key,
                           "flavor": fl, "message": msg, "occurrences": len(vs)}, open(p, "w"), indent=1)
                print("  %s: %s (x%d, job %s/%s case %d) %s" % (prop, key, len(vs), job["harness"], job.get("mode", "default"), case, msg[:600]))
                print("VIOLATION property=%s replay=%s" % (prop, p))
            rc = 1
        elif not evals or not dcases:
            raise CheckError("nothing observed (evaluations=%d distinct=%d)" % (evals, len(distinct)))
        else:
            for idx, job in enumerate(spec["jobs"]):
                for e in job.get("require", []):
                    if not jobs_ev[idx]["events"].get(e):
                        raise CheckError("monitored event %s never observed" % e)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": evals, "distinct_nontrivial": len(dcases),
                         "nontrivial_cases": nt, "distinct_behaviours_observed": len(distinct), "rule": spec["rule"], "samples": samples or ["(none)"],
                         "jobs": jobs_ev, "inconclusive": inconc,
                         "known_findings_triggered": sorted(seen_known)},
            "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2), "violations": len(fresh)},
            open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s: %d cases, %d non-trivial, %d distinct (%d behaviours), %d violation(s), %.1f s" % (
            prop, tier, evals, nt, len(dcases), len(distinct), len(fresh), time.time() - t0))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


COMMON_ASSUMPTIONS = [
    "libsbp and libswiftnav (empty git submodules here) are replaced by the stand-ins in shim/, written from their public interfaces",
    "held on the executions listed, not proved",
]


def replay(path):
    j = json.load(open(path))
    spec = CHECKS[j["property"]]
    job = spec["jobs"][j["job"]]
    scratch = tempfile.mkdtemp(prefix="gnsschk-")
    try:
        b = Builder(scratch)
        fl = j["flavor"] if j["flavor"] in FLAVORS else job.get("flavors", ["san"])[0]
        exe = b.build(job["harness"], job["mods"], fl, job.get("defs", ()))
        if job.get("rust"):
            b.build_rust(job["rust"], job["harness"], job["mods"], fl, job.get("defs", ()))
        cmd = [exe, "--seed", str(j["seed"]), "--start", str(j["case"]), "--end", str(j["case"] + 1), "--out", "/dev/stderr",
               "--mode", job.get("mode", "default"), "--repo", REPO, "--verbose"]
        if j["tier"] == "thorough":
            cmd.append("--thorough")
        return subprocess.run(cmd, env=ENV, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("check error: %s" % e)
        sys.exit(3)
