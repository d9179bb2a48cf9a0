"""Mutation sweep, for judging the checks (no registered check uses it).
mutate.py WORKDIR SEED COUNT: seeded small changes of non-test lines of /repo/src, one at a time, in a
scratch copy; the simulator is built against each and every check runs a reduced number of runs.
Appends one line per mutant to WORKDIR/log.jsonl."""
import json, os, random, re, shutil, subprocess, sys, time
W, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
RUNS = os.environ.get("MUT_RUNS", "700")
THREADS = os.environ.get("MUT_THREADS", "2")
SKIP = ("/tests/", "/qc/", "/processing/", "/binex/", "/rtcm", "mask.rs", "decim.rs", "repair.rs", "/split.rs", "bibliography",
        "doris/record.rs", "ionex/formatting.rs", "navigation/formatting.rs", "src/reader.rs", "src/differential.rs", "src/merge.rs",
        "src/ground_position.rs", "src/writer.rs", "/record.rs~", "meteo/record.rs", "observation/record.rs", "ionex/record.rs",
        "navigation/record.rs", "stomessage.rs", "eopmessage.rs", "cs/mod.rs", "hatanaka/obs.rs", "gnss_time.rs")
rng = random.Random(SEED)
os.makedirs(W, exist_ok=True)
REPO, HOME = f"{W}/repo", f"{W}/verif"

def sh(cmd, t, **k):
    try:
        return subprocess.run(cmd, shell=True, timeout=t, capture_output=True, text=True, **k)
    except subprocess.TimeoutExpired as e:
        subprocess.run(f"pkill -9 -f {HOME}/", shell=True)
        return None

def setup():
    if not os.path.exists(REPO):
        sh(f"mkdir -p {W} && git clone -q /repo {REPO}", 600)
    sh(f"git -C {REPO} fetch -q && git -C {REPO} reset -q --hard origin/HEAD", 600)
    os.makedirs(HOME, exist_ok=True)
    sh(f"rm -rf {HOME}/sim {HOME}/tools && cp -a /verif/sim /verif/tools /verif/known_findings.json {HOME}/", 600)
    if not os.path.exists(f"{HOME}/.build"):
        os.makedirs(f"{HOME}/.build")

def lines():
    out = []
    for d, _, fs in os.walk(f"{REPO}/src"):
        for f in fs:
            p = f"{d}/{f}"
            if not p.endswith(".rs") or any(s in p for s in SKIP):
                continue
            only = os.environ.get("MUT_ONLY")
            if only and not re.search(only, p):
                continue
            src = open(p).read().split("\n")
            cut = next((i for i, l in enumerate(src) if "#[cfg(test)]" in l), len(src))
            infn = False
            skip_cfg = False
            for i, l in enumerate(src[:cut]):
                t = l.strip()
                if not t or t.startswith(("//", "#", "use ", "pub use", "pub mod", "mod ", "*", "/*")):
                    continue
                if re.search(r"\b(error|warn|debug|info|trace|panic|unimplemented)!", t):
                    continue
                out.append((p, i, l))
    return out

def mutants(l):
    m = []
    def sub(pat, rep, name):
        for x in re.finditer(pat, l):
            m.append((name, l[:x.start()] + (rep(x) if callable(rep) else rep) + l[x.end():]))
    sub(r" < ", " <= ", "lt"); sub(r" <= ", " < ", "le"); sub(r" > ", " >= ", "gt"); sub(r" >= ", " > ", "ge")
    sub(r" == ", " != ", "eq"); sub(r" != ", " == ", "ne"); sub(r" && ", " || ", "and"); sub(r" \|\| ", " && ", "or")
    sub(r" \+ ", " - ", "add"); sub(r" - ", " + ", "sub"); sub(r" \* ", " / ", "mul"); sub(r" / ", " * ", "div"); sub(r" % ", " / ", "rem")
    sub(r" \+= ", " -= ", "addas"); sub(r" -= ", " += ", "subas")
    sub(r"(?<![\w.\"])(\d{1,6})(?![\w.\"])", lambda x: str(int(x[1]) + 1), "int+")
    sub(r"(?<![\w.\"])([1-9]\d{0,5})(?![\w.\"])", lambda x: str(int(x[1]) - 1), "int-")
    sub(r"(?<![\w.])(\d+\.\d+)(?![\w.])", lambda x: str(float(x[1]) * 2 + 1), "float")
    sub(r"\btrue\b", "false", "true"); sub(r"\bfalse\b", "true", "false")
    sub(r"\.is_some\(\)", ".is_none()", "some"); sub(r"\.is_none\(\)", ".is_some()", "none"); sub(r"\.is_ok\(\)", ".is_err()", "ok")
    sub(r"\.is_empty\(\)", ".is_empty() == false", "empty")
    sub(r"\bif (?!let)([^{]+) \{", lambda x: f"if !({x[1]}) {{", "ifnot")
    sub(r"\.min\(", ".max(", "min"); sub(r"\.max\(", ".min(", "max"); sub(r"\.first\(", ".last(", "first"); sub(r"\.last\(", ".first(", "last")
    sub(r"\.trim\(\)", ".trim_start()", "trim"); sub(r"\.trim_end\(\)", "", "trimend"); sub(r"\.rev\(\)", "", "rev")
    sub(r"\.contains\(\"", ".contains(\"~", "contains"); sub(r"\.eq\(\"", ".eq(\"~", "eqs"); sub(r"\.starts_with\(", ".ends_with(", "starts")
    sub(r"=> Ok\(", "=> Err(ParsingError::NonSupportedConstellation).or(Err(ParsingError::EpochFormat)).map(|x: ()| x).and(Ok(", "x") if False else None
    t = l.strip()
    if t.endswith(";") and re.match(r"(\*?[a-z_][\w.\[\]]*(\.\w+\(.*\)|\s*(=|\+=|-=|\|=)\s.*)|continue|break);$", t) and not t.startswith(("let", "return", "pub", "type")):
        m.append(("del", l[: len(l) - len(l.lstrip())] + "/* */"))
    sub(r"\bcontinue;", "break;", "cont"); sub(r"\bbreak;", "continue;", "brk")
    sub(r"write!\(", lambda x: x[0], "") if False else None
    sub(r"\{:0?>?\d+", lambda x: x[0][:-1] + str((int(x[0][-1]) + 1) % 10), "fmt")
    sub(r"Some\(([a-z_]\w*)\)$", "None", "retnone")
    return [x for x in m if x[1] != l]

IDS = None
def run(ids):
    caught = []
    for i in ids:
        r = sh(f"cd {HOME} && RNX_HOME={HOME} RNX_RUNS={RUNS} RNX_SECONDS=40 RNX_THREADS={THREADS} {HOME}/.build/target/release/rnxsim check {i}", 120)
        if r is None:
            caught.append((i, "timeout")); break
        if r.returncode == 1:
            c = re.findall(r"run \d+: ([\w-]+):", r.stdout)
            caught.append((i, c[0] if c else "?"))
            if os.environ.get("MUT_FIRST"):
                break
        elif r.returncode != 0:
            caught.append((i, f"rc{r.returncode}")); break
    return caught

def main():
    setup()
    env = f"cd {HOME} && . /opt/vp/env.sh && RNX_REPO={REPO} python3 tools/overlay.py .build/rinex && cd sim && RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=1 CARGO_PROFILE_RELEASE_INCREMENTAL=true CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_DEBUG=0 CARGO_TARGET_DIR={HOME}/.build/target cargo build --release --offline -q -j 3"
    print("base build", sh(env, 1200).returncode, flush=True)
    ids = [l.split()[0] for l in sh(f"{HOME}/.build/target/release/rnxsim list", 60).stdout.split("\n") if l.strip()]
    order = ids
    base = run(ids)
    print("base", base, flush=True)
    L = lines()
    # weight files evenly-ish: pick a file first, by square root of its size
    by = {}
    for x in L:
        by.setdefault(x[0], []).append(x)
    files = list(by)
    wts = [len(by[f]) ** 0.7 for f in files]
    done = 0
    while done < COUNT:
        f = rng.choices(files, wts)[0]
        p, i, l = rng.choice(by[f])
        ms = mutants(l)
        if not ms:
            continue
        name, new = rng.choice(ms)
        src = open(p).read().split("\n")
        if src[i] != l:
            continue
        src[i] = new
        t0 = time.time()
        orig = open(p).read()
        open(p, "w").write("\n".join(src))
        try:
            b = sh(env, 600)
            if b is None or b.returncode != 0:
                res = "nobuild"
            else:
                res = run(order)
        finally:
            open(p, "w").write(orig)
        if res == "nobuild":
            continue
        done += 1
        rec = dict(file=p[len(REPO) + 1:], line=i + 1, op=name, old=l.strip(), new=new.strip(), caught=res, s=round(time.time() - t0))
        open(f"{W}/log.jsonl", "a").write(json.dumps(rec) + "\n")
        print(("CAUGHT " if res else "SURVIVED ") + json.dumps(rec), flush=True)
main()
