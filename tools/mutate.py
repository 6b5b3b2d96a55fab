#!/usr/bin/env python3
"""Development aid: mutation analysis. Makes small changes to the sources of the
converters one at a time, runs the harness modes that observe the file and lists
the changes none of them noticed (survivors), to be read by a person.
  mutate.py FILE(relative to c/) [--sample N] [--jobs J] [--scale F] [--out FILE] [--only LINE,LINE] [--seed N]"""
import glob, json, os, random, re, struct, subprocess, sys, threading, queue
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
R = lambda *m: [("rtcm.cc", x, n) for x, n in m]
MAP = [
    ("librtcm/src/bits", R(("bits", 3000))), ("librtcm/src/logging", R(("log", 300))), ("librtcm/src/msm_utils", R(("util", 1500)) + [("r2s.cc", "msmutil", 1000)]),
    ("librtcm/src/ssr", R(("ssr", 4000), ("hostile", 3000))), ("librtcm/src/sta", R(("sta", 6000), ("hostile", 3000))), ("librtcm/src/eph", R(("eph", 6000), ("hostile", 3000))),
    ("librtcm/src/", R(("legacy", 4000), ("msm", 4000), ("sta", 6000), ("hostile", 3000)) + [("r2s.cc", "wrap", 400)]),
    ("libubx/", [("ubx.cc", m, n) for m, n in (("codec", 4000), ("obs", 500), ("imu", 300), ("codechost", 1500))]), ("libixcom/", [("ixcom.cc", m, n) for m, n in (("codec", 4000), ("conv", 500), ("frame", 500), ("hostile", 300))]),
    ("gnss_converters/src/rtcm3_sbp_eph", [("r2s.cc", m, n) for m, n in (("eph", 3000), ("wrap", 400), ("hostile", 1000))]), ("gnss_converters/src/rtcm3_sbp_ssr", [("r2s.cc", m, n) for m, n in (("ssr", 2000), ("hostile", 1000))]),
    ("gnss_converters/src/rtcm3_utils", [("r2s.cc", "msmutil", 1500), ("r2s.cc", "values", 600), ("r2s.cc", "eph", 2000), ("s2r.cc", "obs", 1000), ("s2r.cc", "eph", 1500), ("r2s.cc", "ssr", 500)]),
    ("gnss_converters/src/rtcm3_sbp.c", [("r2s.cc", m, n) for m, n in (("values", 500), ("time", 600), ("seq", 500), ("mix", 500), ("station", 600), ("text", 600), ("diag", 400), ("ssr", 500), ("eph", 500), ("wrap", 300), ("frame", 300), ("hostile", 800), ("pair:seq", 60))]),
    ("gnss_converters/src/time_truth", [("tt.cc", "seq", 2000), ("tt.cc", "conc", 200)]), ("gnss_converters/src/ixcom", [("ixcom.cc", m, n) for m, n in (("conv", 1000), ("frame", 1000), ("hostile", 500))]),
    ("gnss_converters/src/nmea", [("nm.cc", m, n) for m, n in (("content", 600), ("form", 600), ("sched", 300), ("hostile", 600))]), ("gnss_converters/src/sbp_nmea", [("nm.cc", m, n) for m, n in (("sched", 500), ("content", 500), ("form", 300), ("hostile", 600))]),
    ("gnss_converters/src/options", [("cli_rtcm.cc", "cli", 300), ("r2s.cc", "values", 400)]), ("gnss_converters/src/ubx_sbp", [("ubx.cc", m, n) for m, n in (("obs", 800), ("imu", 800), ("frame", 500), ("eph", 800), ("hostile", 800))]),
    ("gnss_converters/src/", [("ubx.cc", "eph", 2500), ("ubx.cc", "hostile", 600), ("r2s.cc", "wrap", 300)]),
    ("gnss_converters_extra/src/sbp_rtcm3_eph", [("s2r.cc", m, n) for m, n in (("eph", 2500), ("hostile", 400))]), ("gnss_converters_extra/", [("s2r.cc", m, n) for m, n in (("obs", 1200), ("frames", 700), ("eph", 800), ("conv", 300), ("hostile", 400))]),
    ("nov2sbp/src", [("cli_nov.cc", "cli", 200), ("nov.cc", "sbp", 500)]), ("nov2sbp/", [("nov.cc", m, n) for m, n in (("frame", 1000), ("fields", 1000), ("sbp", 1000), ("hostile", 1000), ("again", 100))]),
    ("rtcm3tosbp/", [("cli_rtcm.cc", "cli", 500)]), ("ubx2sbp/", [("cli_ubx.cc", "cli", 400)]), ("ixcom2sbp/", [("cli_ixcom.cc", "cli", 400)]), ("sbp2rtcm/", [("cli_s2r.cc", "cli", 400)])]
IGNORE = {"vel.accuracy-unit", "back.glo-p-code"}
GC = ["librtcm", "libubx", "libixcom", "gc"]
MODS = {"rtcm.cc": ["librtcm"], "nov.cc": ["nov"], "cli_nov.cc": ["nov"]}

def mask(text):
    """The text with comments, strings, assertions, logging and preprocessor lines blanked."""
    t = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'|^[ \t]*#(?:[^\n]*\\\n)*[^\n]*', lambda m: re.sub(r"[^\n]", " ", m.group()), text, flags=re.S | re.M)
    t = re.sub(r"\b(assert|static_assert|log_\w+|fprintf|printf|BITSTREAM_LOG)\s*\([^;]*;", lambda m: re.sub(r"[^\n]", " ", m.group()), t)
    return t

def mutants(text):
    t = mask(text); out = []
    def add(a, b, s, kind): out.append((a, b, s, kind))
    SW = {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<": ["<="], ">": [">="], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "%": ["+"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"], "+=": ["-="], "-=": ["+="], "|=": ["&="], "&=": ["|="]}
    for m in re.finditer(r"(?<=[\w)\]] )(<=|>=|==|!=|&&|\|\||<<|>>|<|>|\+=|-=|\|=|&=|\+|-|\*|/|%|&|\|)(?=[ \n])", t):
        for s in SW[m.group(1)]: add(m.start(1), m.end(1), s, "op")
    for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?=[uU]?[lL]*\b)(?![.\w]*[.eEpP]|[xX.])", t):
        v = int(m.group(1), 0); add(m.start(1), m.end(1), str(v + 1), "num");
        if v: add(m.start(1), m.end(1), str(v - 1), "num")
    for m in re.finditer(r"(?<![\w.])\d+\.\d*(?:[eE][-+]?\d+)?(?=f?\b|[^\w])", t): add(m.start(), m.end(), "(%s * 1.01 + 0.001)" % m.group() , "flt")
    for m in re.finditer(r"\b(true|false)\b", t): add(m.start(), m.end(), "false" if m.group() == "true" else "true", "bool")
    for m in re.finditer(r"(?<=[;{}:])\s*\n([ \t]*)((?!return\b|case\b|default\b|goto\b|typedef\b|static\b|extern\b|using\b)[A-Za-z_][^;{}#]*;)", t):
        st = m.group(2)
        if re.match(r"(?:const\s+)?(?:unsigned\s+|struct\s+)?[A-Za-z_][\w:<>]*[\s*&]+[A-Za-z_]\w*\s*(?:\[[^\]]*\]\s*)*(?:=|;|\{|\()", st) and not re.match(r"\w+\s*(=|\()", st): continue
        add(m.start(2), m.end(2), ";", "del")
    for m in re.finditer(r"\bcontinue;", t): add(m.start(), m.end(), "break;", "flow")
    for m in re.finditer(r"(?<=if \()|(?<=while \()", t):
        d, i = 1, m.start()
        while i < len(t) and d: d += {"(": 1, ")": -1}.get(t[i], 0); i += 1
        if t[m.start() - 4:m.start() - 1].startswith("if"): add(m.start(), i - 1, "true", "cond"); add(m.start(), i - 1, "false", "cond")
    for m in re.finditer(r"\bMIN\(", t): add(m.start(), m.end(), "MAX(", "op")
    for m in re.finditer(r"\bMAX\(", t): add(m.start(), m.end(), "MIN(", "op")
    return out

def main():
    a = sys.argv[1:]; opt = {}
    for k in ("sample", "jobs", "scale", "out", "only", "seed", "from"):
        if "--" + k in a: i = a.index("--" + k); opt[k] = a[i + 1]; del a[i:i + 2]
    S = os.environ.get("MUT_DIR", "/tmp/mut"); os.makedirs(S, exist_ok=True)
    B = check.Builder.__new__(check.Builder); B.scratch, B.gen, B.bins = S, S + "/gen", {}
    if not os.path.exists(B.gen): os.makedirs(B.gen); check.run([sys.executable, check.HERE + "/shim/gen_sbp.py", B.gen])
    J = int(opt.get("jobs", 8)); scale = float(opt.get("scale", 1)); lock = threading.Lock(); res = open(opt.get("out", S + "/survivors.jsonl"), "a")
    for f in a:
        full = os.path.join(check.C, f); text = open(full).read(); runs = next(r for p, r in MAP if f.startswith(p)); ms = mutants(text)
        if "only" in opt: L = set(map(int, opt["only"].split(","))); ms = [m for m in ms if text.count("\n", 0, m[0]) + 1 in L]
        if "from" in opt: W = [json.loads(l) for l in open(opt["from"])]; W = {(w["pos"], w["to"]) for w in W if w["file"] == f}; ms = [m for m in ms if (m[0], m[2]) in W]
        if "sample" in opt and len(ms) > int(opt["sample"]): random.seed(int(opt.get("seed", 1))); ms = sorted(random.sample(ms, int(opt["sample"])))
        plans = {}
        for h, _, _ in runs:
            if h in plans: continue
            mods = MODS.get(h, GC + ["mains"] if h.startswith("cli") else GC); fl, od, objs, jobs = B.plan(h, mods, "san"); B.compile(jobs)
            mine = [o for o in objs if o.endswith("/" + full.strip("/").replace("/", "_") + ".o")]; assert len(mine) == 1, (h, f, mine)
            incs = None; plans[h] = (fl, [o for o in objs if o != mine[0]])
            q = check.Builder.plan; 
        # the command that compiles this file
        os.rename(mine[0], mine[0] + ".keep"); cmd = B.plan(h, mods, "san")[3][mine[0]]; os.rename(mine[0] + ".keep", mine[0])
        todo = queue.Queue(); [todo.put(m) for m in ms]; count = {"killed": 0, "survived": 0, "nocompile": 0}
        def work(k):
            d = S + "/w%d" % k; os.makedirs(d, exist_ok=True)
            while True:
                try: m = todo.get_nowait()
                except queue.Empty: return
                src = os.path.join(d, os.path.basename(f)); open(src, "w").write(text[:m[0]] + m[2] + text[m[1]:])
                c = [x for x in cmd if x != "-gline-tables-only"]; i = c.index("-c"); c = c[:i] + ["-I" + os.path.dirname(full), "-c", src, "-o", d + "/m.o"]
                if subprocess.run(c, capture_output=True).returncode: count["nocompile"] += 1; continue
                by = None; exes = {}
                for h, mode, n in runs:
                    if h not in exes:
                        fl, objs = plans[h]; exes[h] = d + "/" + h[:-3]
                        r = subprocess.run(["clang++"] + [x for x in fl if x != "-gline-tables-only"] + objs + [d + "/m.o", "-o", exes[h], "-lm"], capture_output=True)
                        if r.returncode: by = "link"; break
                    out = d + "/out"; open(out, "w").close(); open(d + "/prog", "wb").write(b"\0" * 24); run = d + "/cwd"; os.makedirs(run, exist_ok=True)
                    try: rc = subprocess.run([exes[h], "--seed", "7", "--start", "0", "--end", str(int(n * scale)), "--out", out, "--progress", d + "/prog", "--mode", mode, "--repo", check.REPO], env=dict(check.ENV, VH_FIRST="1"), cwd=run, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=20 + 40 * scale).returncode
                    except subprocess.TimeoutExpired: rc = "hang"
                    if rc != 0: by = "%s %s rc=%s" % (h, mode, rc); break
                    keys = {json.loads(l)["key"] for l in open(out, errors="replace") if '"viol"' in l} - IGNORE
                    if keys: by = mode + " " + sorted(keys)[0]; break
                with lock:
                    count["killed" if by else "survived"] += 1
                    if not by:
                        ln = text.count("\n", 0, m[0]) + 1; l0 = text.rfind("\n", 0, m[0]) + 1; l1 = text.find("\n", m[1])
                        res.write(json.dumps({"file": f, "line": ln, "pos": m[0], "to": m[2], "kind": m[3], "old": text[l0:l1].strip(), "new": (text[l0:m[0]] + "⟦" + m[2] + "⟧" + text[m[1]:l1]).strip()}) + "\n"); res.flush()
        ts = [threading.Thread(target=work, args=(k,)) for k in range(J)]; [t.start() for t in ts]; [t.join() for t in ts]
        print(f, len(ms), count, flush=True)
main()
