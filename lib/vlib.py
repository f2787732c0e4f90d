"""Shared machinery: building /repo, running real Alusus programs, running TLC, evidence, verdicts."""
import json, os, re, subprocess, sys, time, hashlib, random, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ALUSUS_REPO", "/repo")
BUILD = REPO + "/_build"
WORK = VERIF + "/work"
SPEC = VERIF + "/spec"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = 8
T0 = time.time()


class CheckError(Exception):
    """The check itself could not give an answer (exit code 2)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# --------------------------------------------------------------------------- building /repo
def clean_env(extra=None):
    e = {k: v for k, v in os.environ.items() if k in ("HOME", "TERM", "TMPDIR")}
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["LANG"] = "C.UTF-8"
    if extra:
        e.update(extra)
    return e


def build_repo():
    """Incremental build of the working tree in /repo/_build (a folder git ignores there)."""
    os.makedirs(WORK, exist_ok=True)
    with open(WORK + "/build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cfg = ["cmake", "-S", "Sources", "-B", "_build", "-G", "Ninja", "-Wno-dev",
               "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_C_COMPILER=/usr/bin/gcc",
               "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
               "-DPython3_EXECUTABLE=/opt/vp/python3-fixed-date",
               "-DLLVM_DIR=/opt/vp/llvm-compat/cmake", "-DCMAKE_ENABLE_EXPORTS=ON",
               "-DCppInteropTest_BINARY_DIR=%s/_build/Tests" % REPO,
               "-DCMAKE_INSTALL_PREFIX=%s/_build/install" % REPO]
        for cmd in (cfg, ["ninja", "-C", "_build"]):
            e = clean_env()
            e["PATH"] = VERIF + "/lib/nogit:" + e["PATH"]
            r = subprocess.run(cmd, cwd=REPO, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError("building /repo failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    log("repo built")


def alusus_env(extra=None):
    e = clean_env({"LD_LIBRARY_PATH": BUILD + "/Core:" + BUILD + "/Spp",
                   "ALUSUS_LIBS": REPO + "/Sources/Srt:" + BUILD + "/Spp:" + BUILD + "/Srt"})
    if extra:
        e.update(extra)
    return e


class Run:
    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall


def run_alusus(path, timeout=60, cwd=None, env=None, stdin=None, args=()):
    """Run the real compiler/JIT on a source file; returns Run. rc<0: killed by signal."""
    t = time.time()
    try:
        r = subprocess.run([BUILD + "/Core/alusus.dbg", path] + list(args), cwd=cwd or os.path.dirname(path),
                           env=alusus_env(env), input=stdin if stdin is not None else b"",
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return Run(r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace"),
                   False, time.time() - t)
    except subprocess.TimeoutExpired as e:
        return Run(None, (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace"),
                   True, time.time() - t)


def pmap(fn, items, workers=NCPU):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def notices(text):
    """Parse printed notices -> list of (severity, code, message, [(file,line,col),...])."""
    res = []
    lines = ANSI.sub("", text).split("\n")
    i = 0
    while i < len(lines):
        m = re.match(r"(?:.*?)\b(ERROR|WARNING|ATTENTION|BLOCKER|INFO[A-Z]*)\s+([A-Z]+[0-9]+): (.*)$", lines[i])
        if m:
            locs = []
            j = i + 1
            if "these locations" in m.group(3) or m.group(3).rstrip().endswith(":"):
                while j < len(lines) and re.match(r"\S.*\(\d+,\d+\)$", lines[j]):
                    j += 1
                if j < len(lines) and lines[j].rstrip().endswith(":"):
                    j += 1
            while j < len(lines):
                q = re.match(r"\s+(?:(?:from|من)\s+)?(.*?) ?\((\d+),(\d+)\)", lines[j])
                if not q:
                    break
                locs.append((q.group(1), int(q.group(2)), int(q.group(3))))
                j += 1
            res.append((m.group(1), m.group(2), m.group(3), locs))
            i = j
        else:
            i += 1
    return res


# --------------------------------------------------------------------------- TLC
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


def tlc_classpath():
    jars = [TLA_JAR]
    d = os.path.dirname(TLA_JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and os.path.join(d, f) != TLA_JAR:
            jars.append(os.path.join(d, f))
    return ":".join(jars)


class TlcResult:
    pass


def tlc(module, cfg, workdir, data=None, workers=NCPU, timeout=600, extra=(), heap="6g", env=None):
    """Run TLC on SPEC/<module>.tla with config text cfg, in workdir (module files are found via
    the TLA library path).  data: dict name -> json-able, written as workdir/<name>.json.
    Result: .ok, .violated (invariant name or 'deadlock' or 'postcondition' or None), .state (text of
    the last state), .generated, .distinct, .out"""
    os.makedirs(workdir, exist_ok=True)
    for n, d in (data or {}).items():
        with open("%s/%s.json" % (workdir, n), "w") as f:
            json.dump(d, f)
    cfgp = workdir + "/%s.cfg" % module
    with open(cfgp, "w") as f:
        f.write(cfg)
    # TLC wants the root module in the working directory; imported modules come from SPEC.
    shutil.copy("%s/%s.tla" % (SPEC, module), workdir)
    meta = workdir + "/meta"
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", tlc_classpath(),
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfgp] + list(extra) + [workdir + "/%s.tla" % module]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=workdir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(clean_env(env), PATH=os.environ.get("PATH", "") + ":/usr/bin:/bin"))
    except subprocess.TimeoutExpired as e:
        raise CheckError("TLC timed out on %s after %ds\n%s" % (module, timeout, (e.stdout or b"").decode()[-2000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.out = r.stdout.decode("utf-8", "replace")
    res.rc = r.returncode
    res.wall = time.time() - t
    with open(workdir + "/tlc.out", "w") as f:
        f.write(res.out)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", res.out)
    res.generated, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"Finished computing initial states: (\d+) distinct", res.out)
    res.initial = int(m[-1]) if m else 0
    m = re.findall(r"depth of the complete state graph search is (\d+)", res.out)
    res.depth = int(m[-1]) if m else 0
    res.violated = None
    m = re.search(r"Error: Invariant (\S+) is violated", res.out)
    if m:
        res.violated = m.group(1)
    elif re.search(r"Error: Deadlock reached", res.out):
        res.violated = "deadlock"
    elif re.search(r"Error: Action property (\S+) is violated", res.out):
        res.violated = re.search(r"Error: Action property (\S+) is violated", res.out).group(1)
    elif re.search(r"Temporal properties were violated", res.out):
        res.violated = "temporal"
    elif re.search(r"(?i)postcondition.*(violated|false)", res.out):
        res.violated = "postcondition"
    res.ok = res.rc == 0 and "Model checking completed. No error has been found" in res.out
    res.state = ""
    st = re.split(r"\nState \d+: ?[^\n]*\n|\n\d+: <[^\n]*>\n", res.out)
    if len(st) > 1:
        res.state = st[-1].split("\n\n")[0]
    m = re.search(r"is violated by the initial state:\n((?:.|\n)*?)\n\n", res.out)
    if m:
        res.state = m.group(1)
    if not res.ok and res.violated is None:
        raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, res.rc, res.out[-3500:]))
    return res


def state_var(state, name):
    m = re.search(r"/\\ %s = ((?:.|\n)*?)(?=\n/\\ |\Z)" % re.escape(name), state)
    return m.group(1).strip() if m else None


def action_coverage(out):
    """Parse -coverage output: action name -> (distinct, total)."""
    cov = {}
    for m in re.finditer(r"<(\w+) line [^>]*>: (\d+):(\d+)", out):
        n, d, t = m.group(1), int(m.group(2)), int(m.group(3))
        if n in cov:
            cov[n] = (max(cov[n][0], d), max(cov[n][1], t))
        else:
            cov[n] = (d, t)
    return cov


# --------------------------------------------------------------------------- known findings
def known_findings(pid):
    p = VERIF + "/known_findings.txt"
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


# --------------------------------------------------------------------------- the check object
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.samples = []
        self.dir = "%s/%s" % (WORK, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rng = random.Random(SEED * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if not isinstance(s, str) else s[:1500])

    def violation(self, desc, files):
        """files: dict filename -> text, written to replay/<pid>-<n>/"""
        n = len(self.violations) + 1
        d = "%s/replay/%s-%d" % (VERIF, self.pid, n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, t in files.items():
            with open(d + "/" + f, "w") as fh:
                fh.write(t if isinstance(t, str) else json.dumps(t, indent=1))
        with open(d + "/README", "w") as fh:
            fh.write(desc + "\n")
        self.violations.append((desc, d))
        log("violation:", desc[:600])
        return d

    def write_evidence(self):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.violations)}
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self):
        self.write_evidence()
        for desc, d in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, d), flush=True)
        log("done:", "VIOLATED" if self.violations else "held", json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)}))
        sys.exit(1 if self.violations else 0)


def main_guard(fn):
    try:
        fn()
    except SystemExit:
        raise
    except CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
