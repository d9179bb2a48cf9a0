"""Lays out .build/rinex: a package directory of links to /repo's working tree,
with a Cargo.toml derived from /repo's by leaving out its git dependencies (they
cannot be fetched offline). Same idea as /opt/vp/overlay.py, but it writes only
below /verif/.build. Dev-dependencies, benches and the lib's own tests are not
needed, so those sections are dropped too."""
import os, re, sys

REPO = os.environ.get("RNX_REPO", "/repo")
OUT = sys.argv[1]
text = open(f"{REPO}/Cargo.toml").read()
for name in re.findall(r"^([\w-]+)\s*=\s*\{[^}\n]*\bgit\s*=[^\n]*\n", text, re.M):
    n = re.escape(name)
    text = re.sub(rf"^{n}\s*=\s*\{{[^\n]*\bgit\s*=[^\n]*\n", "", text, flags=re.M)
    text = re.sub(rf'"(dep:{n}|{n}\??/[^"\n]+)"\s*,?', "", text)
text = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", text)
text = re.sub(r"(?ms)^\[\[(bench|example|test)\]\].*?(?=^\[|\Z)", "", text)

def write(path, new):
    if not os.path.exists(path) or open(path).read() != new:
        open(path, "w").write(new)

os.makedirs(OUT, exist_ok=True)
write(f"{OUT}/Cargo.toml", text)
SKIP = {"Cargo.toml", "Cargo.lock", ".git", "target"}
want = {e for e in os.listdir(REPO) if e not in SKIP}
for e in want:
    if not os.path.lexists(f"{OUT}/{e}"):
        os.symlink(f"{REPO}/{e}", f"{OUT}/{e}")
for e in os.listdir(OUT):
    p = f"{OUT}/{e}"
    if os.path.islink(p) and e not in want:
        os.unlink(p)
    elif os.path.islink(p) and os.readlink(p) != f"{REPO}/{e}":
        os.unlink(p)
        os.symlink(f"{REPO}/{e}", p)
