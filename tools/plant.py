"""Helpers for planting a bug: edit a scratch copy of the repository, record the
diff, and confirm that the demonstration tells the two trees apart."""
import os, subprocess
W = "/tmp/seedwt/repo"
def ed(f, a, b, nth=0):
    f = os.path.join(W, "c", f); s = open(f).read(); i = -1
    for _ in range(nth + 1): i = s.index(a, i + 1)
    open(f, "w").write(s[:i] + b + s[i + len(a):])
def reset():
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
    subprocess.run(["git", "-C", W, "fetch", "-q", os.environ.get("SEED_REPO", "/repo"), "HEAD"]); subprocess.run(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"])
def seed(id, prop, needs, what, *eds):
    reset()
    for e in eds: ed(*e)
    r = subprocess.run([os.path.join(os.path.dirname(__file__), "mkseed.sh"), id, prop, needs, what], capture_output=True, text=True)
    print(r.stdout, r.stderr); reset()
def demo(id, cc, san=""):
    """Writes a demonstration: compiles the converters with the shim and runs demo.cc."""
    here = os.path.dirname(os.path.abspath(__file__)); d = os.path.join(here, "..", "seeded", id)
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rm", "-rf", os.path.abspath(os.path.join(d, "shim"))])
    subprocess.run(["cp", "-r", os.path.join(here, "..", "shim"), os.path.join(d, "shim")]); subprocess.run(["rm", "-rf", os.path.abspath(os.path.join(d, "shim", "__pycache__"))])
    open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(here, "demo.sh")).read().replace("@SAN@", san))
    open(os.path.join(d, "demo.cc"), "w").write(cc)
def demo_cli(id, prog, py):
    """Writes a demonstration that runs one of the programs."""
    demo(id, ""); here = os.path.dirname(os.path.abspath(__file__)); d = os.path.join(here, "..", "seeded", id); os.remove(os.path.join(d, "demo.cc"))
    open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(here, "demo_cli.sh")).read().replace("@PROG@", prog))
    open(os.path.join(d, "demo.py"), "w").write(py)
