"""C20: the same programs run in place by the JIT, in a preprocess block, built into an executable, and written with the
Arabic words of the language, against what the specifications (CallSpec, LaySpec, Exec, GlobSpec with ModeTrace,
the container histories) say they do."""
import copy, importlib.util, os, random, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
from batch import *
import execgen, execcheck, histcheck
from arabic import arabic, letters, library

AR_LIB = os.path.join(REPO, "Sources/Srt/مـتم/متم.أسس")


def load(name):
    """the renderer and the generator of another check"""
    spec = importlib.util.spec_from_file_location(name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    src = open(spec.origin).read().replace("\nmain_guard(run)\n", "\n")
    exec(compile(src, spec.origin, "exec"), m.__dict__)
    return m


def compose(mode, header, items, tail, rng, rename, obj):
    """items: [(definitions, statements)] -> source text"""
    defs = header + "\n" + "\n".join(d for d, _ in items) + "\n"
    stms = "\n".join(s for _, s in items) + "\n" + tail
    if mode.startswith("exe"):
        body = "@expname[main] function main(): Int { %s return 0; };\n" % stms
        text = defs + body
    elif mode.startswith("pre"):
        text = defs + "preprocess { %s };\n" % stms
    else:
        text = defs + stms + "\n"
    if mode.endswith("ar"):
        text = arabic(text, rng, rng.choice([1, 1, 0.7]), rename)
        name = "اشمل \"مـتم/متم.أسس\"؛\n"
        if "اشمل" not in text.split("\n")[0]:
            name = 'import "مـتم/متم.أسس";\n'
        text = name + text
    if mode.startswith("exe"):
        text = 'import "Spp";\n' + text
        text += '\nif !Spp.buildMgr.buildObjectFileForElement(main~ast, "%s", 0) { printf("@ build failed\\n"); fflush(0); };\n' % obj
    return text


def sh(cmd, timeout=60, stdin=None, env=None):
    try:
        r = subprocess.run(cmd, input=stdin or b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, **(env or {})))
        return Run(r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace"), False, 0)
    except subprocess.TimeoutExpired as e:
        return Run(None, (e.stdout or b"").decode("utf-8", "replace"), "", True, 0)


class Out:
    def __init__(self, out, rc, note, text, errs):
        self.out, self.rc, self.note, self.text, self.errs = out, rc, note, text, errs


def execute(c, mode, path, text, obj, timeout=120, stdin=None, env=None):
    with open(path, "w") as f:
        f.write(text)
    r = run_alusus(path, timeout, stdin=stdin, env=env) if not mode.startswith("exe") else run_alusus(path, timeout)
    c.add("evaluations", 1)
    errs = [n[:3] for n in notices(r.out + r.err) if n[0] in ("ERROR", "BLOCKER")]
    if not mode.startswith("exe"):
        return Out(r.out, r.rc, "timeout" if r.timeout else "", text, errs)
    if errs or r.rc != 0 or not os.path.exists(obj):
        return Out("", r.rc, "not built: " + (r.out + r.err)[-1500:], text, errs)
    exe = obj[:-2] + ".exe"
    g = sh(["gcc", "-no-pie", obj, "-o", exe, "-lm"], timeout=60)
    if g.rc:
        return Out("", None, "not linked: " + (g.out + g.err)[-1500:], text, errs)
    r = sh([exe], timeout=timeout, stdin=stdin, env=env)
    os.remove(obj)
    os.remove(exe)
    return Out(r.out, r.rc, "timeout" if r.timeout else "", text, errs)


def run_modes(c, name, mode, header, items, rename, bundle, tail='printf("@ 0\\n"); fflush(0);', ok=None):
    """items: [(definitions, statements)] -> [Out of the bundle the item was in]; a bundle that fails runs item by item"""
    tag = name + "_" + mode
    seeds = [c.rng.randrange(1 << 30) for _ in items]

    def one(ids):
        path = "%s/%s_%d_%d%s" % (c.dir, tag, ids[0], len(ids), random.Random(seeds[ids[0]]).choice([".alusus", ".أسس"]) if mode.endswith("ar") else ".alusus")
        obj = "%s/%s_%d_%d.o" % (c.dir, tag, ids[0], len(ids))
        text = compose(mode, header, [items[i] for i in ids], tail, random.Random(seeds[ids[0]]), rename, obj)
        o = execute(c, mode, path, text, obj)
        good = not o.errs and o.rc == 0 and not o.note and re.search(r"^@ (0|9 0 0)$", o.out, re.M)
        if not good and not o.note:
            o.note = "stopped, rc=%s %s %s" % (o.rc, o.errs[:2], o.out[-500:])
        return ids, good, o
    groups = [list(range(i, min(i + bundle, len(items)))) for i in range(0, len(items), bundle)]
    res, again = [None] * len(items), []
    for ids, good, o in pmap(one, groups):
        for i in ids:
            res[i] = o
        if not good and len(ids) > 1:
            again += [[i] for i in ids]
    for ids, good, o in pmap(one, again):
        res[ids[0]] = o
    return res


def split(src):
    """definitions and the final statement of a rendered program"""
    s = src.rstrip("\n")
    i = s.rindex("\n")
    return s[:i + 1], s[i + 1:]


def family(c, name, mode, header, preds, srcs, judge, rename, bundle):
    """programs with a predicted observation"""
    outs = run_modes(c, name, mode, header, [split(s) for s in srcs], rename, bundle)
    c.add("traces_validated_against_impl", len(srcs))
    bad = 0
    for i, ((p, x), o) in enumerate(zip(preds, outs)):
        ob = Obs(parse_events(o.out).get(i + 1, []), o.errs, "", o.out)
        m = judge(p, x, ob) or o.note
        if m:
            bad += 1
            if bad <= 2:
                c.violation("%s (%s): %s; %s" % (name, mode, m, o.note[:300]),
                            {"program.alusus": o.text, "abstract.json": {"program": p, "expected": x}, "output.txt": o.out})
    log("%s %s: %d programs, %d differ" % (name, mode, len(srcs), bad))
    c.add("programs_" + mode, len(srcs))
    c.sample({"mode": mode, "source": outs[-1].text[-1500:], "expected": preds[-1][1]})


def calls(c, n, modes):
    m = load("c19")
    progs = [m.Gen(c.rng).prog(c.rng.randint(3, 12)) for _ in range(n)]
    extra = {m.key([q["bodies"], q["state"]]): (q["slotsig"], q["mslotsig"]) for q in progs}
    preds = [(p, x) for p, x in predict(c, "CallRun", "Objs = %d\nBatched = TRUE\nMaxLen = 0" % m.NV, "calls", progs,
                                        ["InvCells", "InvSlots", "InvNested"], timeout=3000, heap="8g", count=False) if m.small(p, x)]
    srcs = []
    for k, (p, x) in enumerate(preds):
        p["slotsig"], p["mslotsig"] = extra[m.key([p["bodies"], p["state"]])]
        srcs.append(m.Render(k + 1, p, x, k).program())
    for mode in modes:
        family(c, "calls", mode, m.HEADER, preds, srcs, m.judge, [r"[a-z]\w*\d", "pick", "Box", "K", "H", "P\\d+", "main", "n", "p\\d", "q\\d"] if mode == "ar" else [r"[a-z]\d+"], 20)


def layouts(c, n, modes):
    m = load("c17")
    progs = [m.rand_program(c.rng) for _ in range(n)]
    preds = predict(c, "LayRun", "Batched = TRUE\nMaxMembers = 0", "layouts", progs, ["InvLayout", "InvReadBack"], timeout=3000, heap="8g", count=False)
    srcs = []
    for i, (p, x) in enumerate(preds):
        r = m.Render(i + 1, p, x)
        srcs.append(r.program())
        m.EXPECT[json.dumps(p, sort_keys=True)] = r.exp
    for mode in modes:
        family(c, "layouts", mode, m.HEADER, preds, srcs, m.judge, [r"m\d+_\d+", r"[a-z]\d+", "C\\d+", "P\\d+"], 20)


def control(c, n, modes):
    """objects, scopes and control flow: Exec.tla judges the trace"""
    progs = []
    for k in range(n):
        progs.append(execgen.Gen(c.rng, c.rng.choice([0.2, 0.5, 0.8])).program())
    seed = c.rng.randrange(1 << 30)
    rng = random.Random(seed)
    items = []
    for i, p in enumerate(progs):
        items.append((execgen.Render(p, rng).module("P%d" % i), 'printf("== %d\\n"); ser = 0; P%d.main(); printf("--end\\n"); fflush(0);' % (i, i)))
    for mode in modes:
        outs = run_modes(c, "control", mode, execgen.PRELUDE, items, [r"[a-z]\d+", "P\\d+"], 20)
        obs = []
        for i, o in enumerate(outs):
            t = execgen.parse_trace(o.out, execcheck.LIMIT).get(i, [])
            if t[-1:] == ["end"]:
                t = t[:-1]
            elif len(t) <= execcheck.LIMIT:
                t = t + [["!", 0, 0, 0]]
            obs.append((t[:execcheck.LIMIT], len(t) > execcheck.LIMIT, o.note))
        r = execcheck.validate(c, progs, obs, "control_" + mode)
        c.add("traces_validated_against_impl", len(progs))
        c.add("programs_" + mode, len(progs))
        log("control %s: %d programs, %d events, %s" % (mode, len(progs), sum(len(o[0]) for o in obs), "ok" if r.ok else "rejected"))
        if not r.ok:
            pi = int(state_var(r.state, "p")) - 1
            c.violation("control (%s): the execution is not one the specification allows: %s at event %s; %s" % (mode, r.violated, state_var(r.state, "tr"), outs[pi].note[:300]),
                        {"program.alusus": outs[pi].text, "trace.json": obs[pi][0], "output.txt": outs[pi].out, "tlc.txt": r.out[-8000:]})


GLOB = r'''import "alusus_spp";
def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];
def fflush: @expname[fflush] function (p: Int[64])=>Int[32];
def T: class {
  def n: Int; def id: Int;
  handler this~init(d: Int, i: Int) { this.n = i * 100 - (i / 1000) * 100000; this.id = i; printf("@ 5 %d 0\n", i) };
  handler this~terminate() { printf("@ 6 %d 0\n", this.id); };
};
func us(v: Int, n: Int): Int { printf("@ 1 %d %d\n", v, n); return 0 };
func ic(v: Int, n: Int): Int { printf("@ 3 %d %d\n", v, n); return 0 };
func mk(v: Int): Int { printf("@ 4 %d 0\n", v); return 0 };
func ii(d: Int, i: Int): Int { printf("@ 5 %d 0\n", i); return i * 100 - (i / 1000) * 100000 };
func no(): Word[1] { return 1 == 2 };
'''


def globs(c, n, modes):
    """global variables: initialised before anything runs, terminated when a built program exits"""
    m = load("c07")
    progs = []

    while len(progs) < n:
        p = m.rand_prog(c.rng, False)
        if m.circular(p):
            continue
        body = [a for i in p["items"] for a in i["body"]]
        if c.rng.random() < 0.5 and len(body) > 3:
            body = c.rng.sample(body, 3)
        p["items"] = [{"kind": "stmt", "body": body}]
        progs.append(p)
    renders, items = [], []
    for i, p in enumerate(progs):
        r = m.Render(p, i + 1, random.Random(c.rng.randrange(1 << 30)))
        src = r.source()
        lines = src.rstrip("\n").split("\n")
        assert lines[-1].startswith("{")
        # the entry as a function
        src = "\n".join(lines[:-1]) + "\n" + "func E%d() %s;\n" % (i + 1, lines[-1][:-1])
        renders.append(r)
        items.append((src, "E%d();" % (i + 1)))
    for mode in modes:
        globs_ran(c, m, mode, progs, renders, run_modes(c, "globals", mode, GLOB, items, [r"[a-z]+\d+", "[A-Z]\\d+"], 20, 'printf("@ 9 0 0\\n"); fflush(0);'))
    # every Arabic library file loads, and programs behave the same with it
    root = os.path.join(REPO, "Sources/Srt")
    found = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs if f.endswith(".أسس"))
    sets = [[f] for f in found if f not in OUTSIDE]
    sets += [c.rng.sample([f for f, in sets], 4) for _ in range(n // 20)]
    sel = [i % n for i in range(len(sets))]
    jobs = [(k, i, "".join('import "%s";\n' % f for f in fs) + GLOB) for k, (i, fs) in enumerate(zip(sel, sets))]

    rngs = [random.Random(c.rng.randrange(1 << 30)) for _ in jobs]

    def one(job):
        k, i, head = job
        d = copy.copy(c)
        d.rng = rngs[k]
        return run_modes(d, "files%d" % k, "ar" if k % 2 else "jit", head, [items[i]], [r"[a-z]+\d+", "[A-Z]\\d+"], 1, 'printf("@ 9 0 0\\n"); fflush(0);')[0]
    globs_ran(c, m, "files", [progs[i] for i in sel], [renders[i] for i in sel], pmap(one, jobs), [i + 1 for i in sel])


def globs_ran(c, m, mode, progs, renders, outs, nums=None):
    batch = []
    for i, (p, r, o) in enumerate(zip(progs, renders, outs)):
        ev = m.events(o.out).get(nums[i] if nums else i + 1, [])
        if o.note:
            ev = ev + [[99, 0, 0]]
        batch.append({"prog": p, "mode": "exe" if mode.startswith("exe") else "jit", "events": ev,
                      "objs": [v for v in range(1, len(p["vars"]) + 1) if not r.isint(v)]})
    r = tlc("ModeTrace", "SPECIFICATION Spec\nINVARIANTS InvUse InvOnce InvAfter Report\nCHECK_DEADLOCK FALSE\n",
            c.dir + "/tlc_glob_" + mode, {"batch": {"batch": batch}}, timeout=700)
    if not r.ok:
        raise CheckError("the specification breaks its own invariant %s\n%s" % (r.violated, r.state))
    c.add("states", r.distinct)
    c.add("transitions", r.generated)
    c.add("traces_validated_against_impl", len(progs))
    c.add("programs_" + mode, len(progs))
    done = {int(x) for x in re.findall(r'<<"@D", (\d+)>>', r.out)}
    bad = [i for i in range(len(progs)) if i + 1 not in done]
    log("globals %s: %d programs, %d differ" % (mode, len(progs), len(bad)))
    for i in bad[:2]:
        c.violation("globals (%s): the events are not a behaviour of ModeTrace: %s; %s" % (mode, batch[i]["events"], outs[i].note[:300]),
                    {"program.alusus": outs[i].text, "trace.json": batch[i], "output.txt": outs[i].out})


# they load libraries that are not part of the repository (libcurl, libzip and the Apm web framework)
OUTSIDE = ("مـحا.أسس", "ضـغط.أسس", "مـتم/شـبكة.أسس")
LIBS = {"c12": ["مـتم/مـصفوفة.أسس"], "c13": ["مـتم/تـطبيق.أسس", "مـتم/نـص.أسس", "مـتم/مـصفوفة.أسس", "مـتم/ذاكـرة.أسس"],
        "c14": ["مـتم/نـص.أسس", "مـتم/نـص_عريض.أسس", "مـتم/مـنشئ_نص.أسس", "مـتم/مـصفوفة.أسس"],
        "c15": ["مـتم/سندات.أسس", "مـتم/مـصفوفة.أسس", "مـتم/ذاكـرة.أسس"]}


def histories(c, name, kinds, n, modes):
    """the container and string drivers of C12-C15"""
    m = load(name)
    for kind, A, consts, hists in kinds(m, n):
        for mode in modes:
            tag = "%s_%s_%s" % (name, kind, mode)
            src = A.source
            i = src.rstrip().rindex("\n") + 1
            B = copy.copy(A)
            if mode.endswith("ar"):
                files = LIBS[name]
                src = arabic(src, c.rng, 1.0, [r"[a-z]\d*"], KEEP.get(name, ()), library(files))
                src = "".join('اشمل "%s"؛\n' % f for f in ["مـتم/متم.أسس"] + files) + src
                i = src.rstrip().rindex("\n") + 1
            if mode.startswith("exe"):
                obj = "%s/%s.o" % (c.dir, tag)
                text = 'import "Spp";\n' + src[:i] + "@expname[main] function main(): Int { %s return 0; };\n" % src[i:].strip()
                text += 'if !Spp.buildMgr.buildObjectFileForElement(main~ast, "%s", 0) { printf("@ build failed\\n"); };\n' % obj
                path = "%s/%s.alusus" % (c.dir, tag)
                with open(path, "w") as f:
                    f.write(text)
                r = run_alusus(path, 120)
                exe = obj[:-2] + ".exe"
                g = sh(["gcc", "-no-pie", obj, "-o", exe, "-lm"]) if os.path.exists(obj) else None
                if g is None or g.rc:
                    c.violation("%s: not built: %s" % (tag, (r.out + r.err + (g.err if g else ""))[-1500:]), {"driver.alusus": text, "output.txt": r.out + r.err})
                    continue
                B.runner = lambda path, inp, timeout, env, exe=exe: sh([exe], timeout, inp, env)
                src = text
            B.source = src
            hs = hists()
            histcheck.check_recorded(c, B, hs, consts, tag)
            c.add("traces_validated_against_impl", len(hs))
            c.add("histories_" + mode, len(hs))
            for e in (".o", ".exe"):
                if os.path.exists("%s/%s%s" % (c.dir, tag, e)):
                    os.remove("%s/%s%s" % (c.dir, tag, e))


KEEP = {}
KINDS = {
    "c12": lambda m, n: [(k, m.adt(k, 4), "NA=4 Vals={1} MaxSeq=100", lambda: [h for h in (m.rand_history(RNG, 4, RNG.choice([10, 25, 50])) for _ in range(n)) if h]) for k in ("object", "int")],
    "c13": lambda m, n: [(k, m.adt(k, 3), "NM=3 Keys={1,2,3,4,5,6,7,8} Vals={1} MaxSeq=100", lambda: [h for h in (m.rand_history(RNG, 3, RNG.choice([10, 30, 60])) for _ in range(n)) if h]) for k in ("int", "str")],
    "c14": lambda m, n: [(k + str(b), m.adt(k, s, b), "NS=%d NB=%d Lits={1} MaxSeq=1000 Wide=FALSE" % (s, b), lambda k=k, s=s, b=b: [h for h in (m.rand_history(RNG, k, s, b, RNG.choice([10, 30])) for _ in range(n)) if h]) for k, s, b in (("char", 3, 0), ("char", 2, 2), ("wide", 3, 0))],
    "c15": lambda m, n: [("refs", m.adt((3, 2, 2, 2, 2)), "NR=%d NBase=%d NW=%d NU=%d NArr=%d MaxObj=%d MaxArr=%d MaxLive=%d" % (3, 2, 2, 2, 2, 20, 12, 20), lambda: [h for h in (m.rand_history(RNG, (3, 2, 2, 2, 2), RNG.choice([15, 40])) for _ in range(n)) if h])],
}
RNG = random.Random(SEED)


def check():
    c = Check("C20", "model_checked+conformance")
    build_repo()
    k = 8 if THOROUGH else 1
    modes = ["ar", "exe", "pre", "exe_ar"]
    if os.environ.get("ONLY", "globs") == "globs":
        globs(c, 240 * k, modes)
    if os.environ.get("ONLY", "hist") == "hist":
        for name in ("c12", "c13", "c14", "c15"):
            histories(c, name, KINDS[name], 120 * k, ["ar", "exe", "exe_ar"] if name in ("c12", "c15") or THOROUGH else [c.rng.choice(["exe", "exe_ar"]), "ar"])
    if os.environ.get("ONLY"):
        return
    calls(c, 240 * k, modes)
    layouts(c, 160 * k, modes)
    control(c, 160 * k, modes)
    c.finish()


if __name__ == "__main__":
    main_guard(check)
