"""For every planted bug: does its patch apply, and does it change a line of the original repository?"""
import os, re, subprocess, sys
BASE = "d13157a"
for d in sorted(os.listdir("/verif/seeded")):
    p = f"/verif/seeded/{d}/patch.diff"
    if not os.path.exists(p):
        continue
    ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True).returncode == 0
    f, n, orig, mine = None, 0, 0, 0
    for l in open(p):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.split("\n")
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("-"):
            orig += "^" in blame[n][:1]
            mine += "^" not in blame[n][:1]
            n += 1
        elif l.startswith(" "):
            n += 1
    print(f"{d:32} applies={ok} original={orig} own={mine}", "" if ok and orig else "  <-- CHECK")
