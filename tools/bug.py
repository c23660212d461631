"""tools/bug.py ID [notest] [nocheck] [budget=N]: validate one planted bug against /repo"""
import json, os, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
i = sys.argv[1]; d = f"{H}/seeded/{i}"; meta = json.load(open(f"{d}/meta.json"))
b = [a for a in sys.argv if a.startswith("budget=")]
def sh(*c, **k): return subprocess.run(c, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def demo():
    r = sh("bash", f"{d}/demo.sh", cwd=R, timeout=300); return r.returncode, r.stdout[-300:]
assert not sh("git", "-C", R, "status", "--short").stdout, "dirty /repo"
c0 = demo()
r = sh("git", "-C", R, "apply", f"{d}/patch.diff")
if r.returncode: print(i, "DOES NOT APPLY", r.stdout); sys.exit(1)
try:
    c1 = demo()
    t = "-"
    if "notest" not in sys.argv: t = sh("bash", f"{H}/tools/rt.sh").stdout.strip().splitlines()[-1]
    k = "-"
    if "nocheck" not in sys.argv:
        t0 = time.time(); r = sh(f"{H}/check", meta["property"], *(["--budget", b[0][7:]] if b else []), cwd=H)
        k = f"rc={r.returncode} {time.time()-t0:.0f}s " + r.stdout.strip()[:300]
finally:
    sh("git", "-C", R, "checkout", "--", ".")
print(f"{i}: demo clean={c0[0]} patched={c1[0]} | tests {t} | {meta['property']} check {k}")
if c0[0] or not c1[0]: print(c0, c1)
