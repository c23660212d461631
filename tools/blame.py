"""tools/blame.py: which lines do the planted bugs change? (base = original lines)"""
import os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
for i in sorted(os.listdir(f"{H}/seeded")):
    orig = own = add = 0
    for line in open(f"{H}/seeded/{i}/patch.diff"):
        if line.startswith("--- "): f = line[6:].strip()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line)[1])
        elif line.startswith("+++") or line.startswith(("diff", "index")): continue
        elif line.startswith("-"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", f"{n},{n}", "--", f], capture_output=True, text=True).stdout
            if line[1:].strip() and not line[1:].strip().startswith(("#", "//")):
                if b.lstrip("^").startswith(base[:30]): orig += 1
                else: own += 1
            n += 1
        elif line.startswith("+"): add += 1
        else: n += 1
    print(f"{i:28} original -{orig} own -{own} +{add}", "" if orig else "<-- no original line")
