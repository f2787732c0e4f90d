"""C18: the Core's building blocks: overlay containers (OvlRun), signals (SigRun), shared references (RefRun), arrays,
maps and subset indices (VecRun).  Histories from the specifications are run by harnesses built from the headers."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *


def build(c, src):
    out = c.dir + "/" + src.split(".")[0]
    r = subprocess.run(["bash", VERIF + "/drivers/core/build.sh", src, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=clean_env({"ALUSUS_REPO": REPO}))
    if r.returncode != 0:
        log("the harness %s does not build against this tree\n%s" % (src, r.stdout[-1500:]))
        return None
    return out


def drive(binary, lines):
    """-> per line the list of output lines, ending with "!died ..." if the process ended there"""
    env = alusus_env()
    env["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0"
    chunks = [lines[i::NCPU] for i in range(NCPU)]

    def one(ch):
        res, deaths = [], 0
        while len(res) < len(ch):
            pr = subprocess.Popen(["timeout", "-k", "1", str(30 + len(ch) // 100), binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  text=True, errors="replace", env=env)
            stdout, stderr = pr.communicate("".join(l + "\n" for l in ch[len(res):]))
            cur = []
            for l in stdout.split("\n"):
                if l == ".":
                    res.append(cur)
                    cur = []
                elif l:
                    cur.append(l)
            if len(res) < len(ch):
                m = re.search(r"(AddressSanitizer: [\w-]+|runtime error: .*)", stderr)
                res.append(cur + ["!died %s" % (m.group(1) if m else "hang" if pr.returncode == 124 else "exit %d" % pr.returncode)])
                deaths += 1
                if deaths > 5:
                    return res + [None] * (len(ch) - len(res))
        return res
    parts = pmap(one, chunks)
    out = [None] * len(lines)
    for i in range(NCPU):
        out[i::NCPU] = parts[i]
    return out


def judge(c, name, binary, items):
    """items: (line, expected output lines, spec item)"""
    got = drive(binary, [l for l, _, _ in items])
    bad = 0
    c.add("traces_validated_against_impl", len(items))
    for (l, exp, p), g in zip(items, got):
        if g is None or g == exp:
            continue
        bad += 1
        if bad <= 3:
            k = next((i for i in range(max(len(g), len(exp))) if i >= len(g) or i >= len(exp) or g[i] != exp[i]), 0)
            c.violation("%s: history %s: at output line %d: expected %r, found %r" % (
                name, l, k + 1, exp[k] if k < len(exp) else "nothing", g[k] if k < len(g) else "nothing"),
                {"history.txt": l, "expected.txt": "\n".join(exp), "observed.txt": "\n".join(g), "spec.json": p})
    log("%s: %d histories compared, %d differ" % (name, len(items), bad))
    if items:
        l, exp, p = items[len(items) // 2]
        c.sample({"part": name, "history": l, "expected": exp[-3:], "observed": (got[len(items) // 2] or [])[-3:]})


def unique(preds):
    seen = {}
    for p, x in preds:
        seen[json.dumps(p)] = (p, x)
    return list(seen.values())


# ------------------------------------------------------------------ overlay containers
KEYS = ["a", "b", "c", "d"]


def ovl_op(o, is_map):
    k = o["k"] if is_map and o["k"] else "-"
    f = {"add": "add {c} {k} {v}", "insert": "insert {c} {k} {i} {v}", "set": "set {c} {k} {v}", "setat": "setat {c} {i} {v}", "remove": "remove {c} {k}",
         "removeat": "removeat {c} {i}", "clear": "clear {c}", "base": "base {c} {i}", "destroy": "destroy {c}"}[o["o"]]
    return f.format(c=o["c"], k=k, i=o["i"], v=o["v"])


def ovl_expected(p, x):
    out, dead = [], set()
    for op, s in zip(p["ops"], x):
        if op["o"] == "destroy":
            dead.add(op["c"])
        out.append("r %d" % s["r"])
        for c in (1, 2, 3):
            if c not in dead:
                out.append("%d" % c + "".join(" %s=%d%s" % (e["k"], e["v"], "*" if e["inh"] else "") for e in s["s"][c - 1]))
    return out


def O(o, c, k="", i=0, v=0):
    return {"o": o, "c": c, "k": k, "i": i, "v": v}


def ovl_beginnings():
    m = [[], [O("add", 2, "a", 0, 91), O("add", 2, "b", 0, 92), O("base", 1, "", 2)],
         [O("base", 2, "", 3), O("base", 1, "", 2), O("add", 3, "a", 0, 91), O("add", 2, "b", 0, 92), O("set", 1, "a", 0, 93)],
         [O("add", 1, "b", 0, 91), O("add", 1, "a", 0, 92), O("add", 2, "a", 0, 93), O("base", 1, "", 2), O("base", 2, "", 3)]]
    l = [[], [O("add", 2, v=91), O("add", 2, v=92), O("base", 1, "", 2), O("setat", 1, "", 0, 93)],
         [O("base", 2, "", 3), O("base", 1, "", 2), O("add", 3, v=91), O("add", 2, v=92), O("add", 1, v=93), O("setat", 1, "", 1, 94)]]
    return [{"kind": "map", "ops": b} for b in m] + [{"kind": "list", "ops": b} for b in l]


def ovl_random(rng):
    kind = rng.choice(["map", "list"])
    ops, live = [], {1, 2, 3}
    for v in range(1, rng.randint(8, 26)):
        c = rng.choice(sorted(live))
        o = rng.choice(["add", "add", "add", "insert", "set", "setat", "setat", "remove", "removeat", "base", "base", "clear", "destroy"])
        if kind == "list" and o in ("set", "remove"):
            o = "add"
        if o in ("clear", "destroy") and rng.random() < 0.7:
            o = "add"
        if o == "base":
            if c == 3:
                c = rng.choice(sorted(live))
            hi = [b for b in live if b > c]
            if c == 3:
                continue
            ops.append(O("base", c, "", rng.choice([0] + hi + hi)))
        else:
            ops.append(O(o, c, rng.choice(KEYS) if kind == "map" and o in ("add", "insert", "set", "remove") else "", rng.randint(0, 5) if o in ("insert", "setat", "removeat") else 0, v))
        if o == "destroy":
            live.discard(c)
            if not live:
                break
    return {"kind": kind, "ops": ops}


def overlay(c, binary):
    invs = ["InvTail", "InvKeys", "InvOverlay"]
    keys = "{" + ", ".join('"%s"' % k for k in ("a", "b", "c")) + "}"

    def run(name, preds):
        preds = unique(preds)
        for kind, labels in (("map", ("sm", "smi", "pm")), ("list", ("sl", "pl"))):
            for lab in labels:
                judge(c, "%s %s" % (name, lab), binary,
                      [(lab + " " + ";".join(ovl_op(o, kind == "map") for o in p["ops"]), ovl_expected(p, x), p) for p, x in preds if p["kind"] == kind])
    d = 3 if THOROUGH else 2
    preds = predict(c, "OvlRun", "Batched = FALSE\nDepth = %d\nMapKeys = %s" % (d, keys), "overlay", ovl_beginnings(), invs, timeout=3000, heap="12g", count=False)
    run("overlay from %d beginnings, all %d operations" % (len(ovl_beginnings()), d), preds)
    rnd = [ovl_random(c.rng) for _ in range(20000 if THOROUGH else 2500)]
    preds = predict(c, "OvlRun", "Batched = TRUE\nDepth = 0\nMapKeys = %s" % keys, "overlay_random", rnd, invs, timeout=3000, heap="12g", count=False)
    run("overlay random", preds)


# ------------------------------------------------------------------ signals
def sig_op(o):
    n = o["o"]
    if n == "plan":
        return "plan %d %s" % (o["s"], sig_op(o["then"]).replace(" ", ","))
    return {"connect": "connect {g} {s}", "disconnect": "disconnect {g} {s}", "off": "off {s}", "kill": "kill {s}", "alloff": "alloff {g}", "emit": "emit {g}"}[n].format(**o)


def sig_expected(p, x, kind):
    def ev(e):
        if e["s"]:
            return "c %d %d" % (e["g"], e["s"])
        return "d %d" % e["g"] + (" %d" % e["r"] if kind != "void" else "")
    out = [ev(e) for e in x["log"]] + ["end"]
    for g in (1, 2):      # one more emission each, of what is connected in the end
        yes = 0
        for s in x["conn"][g - 1]:
            out.append("c %d %d" % (g, s))
            yes += s % 2 == 0
            if kind == "any" and yes:
                break
        out.append("d %d" % g + (" %d" % yes if kind != "void" else ""))
    out.append("d 3" + (" 0" if kind != "void" else ""))
    return out


NOOP = {"o": "-", "g": 0, "s": 0}


def S(o, g=0, s=0, then=NOOP):
    return {"o": o, "g": g, "s": s, "then": then}


def sig_random(rng, nslots=4):
    def simple(live):
        o = rng.choice(["connect", "connect", "disconnect", "disconnect", "off", "kill", "emit", "emit", "alloff"])
        if o == "kill" and rng.random() < 0.4:
            o = "connect"
        if not live:
            o = "emit"
        g = rng.randint(1, 2) if o in ("connect", "disconnect", "emit", "alloff") else 0
        s = rng.choice(sorted(live)) if o in ("connect", "disconnect", "off", "kill") else 0
        return S(o, g, s)
    ops, live, all_ = [], set(range(1, nslots + 1)), list(range(1, nslots + 1))
    for s in all_:
        for g in (1, 2):
            if rng.random() < 0.6:
                ops.append(S("connect", g, s))
    rng.shuffle(ops)
    for _ in range(rng.randint(3, 12)):
        if rng.random() < 0.45:
            s = rng.choice(all_)
            t = simple(set(all_))
            ops.append(S("plan", 0, s, {k: t[k] for k in ("o", "g", "s")}))
        elif rng.random() < 0.5:
            ops.append(S("emit", rng.randint(1, 2)))
        else:
            ops.append(simple(set(all_)))
    return ops


def signals(c, binary):
    invs = ["InvOnce", "InvLive", "InvOrder"]

    def run(name, preds):
        preds = unique(preds)
        for kind in ("void", "bool", "any"):
            judge(c, "%s %s" % (name, kind), binary,
                  [(kind + " " + ";".join(sig_op(o) for o in p["ops"]), sig_expected(p, x, kind), p) for p, x in preds if p["mode"] == ("any" if kind == "any" else "void")])
    cn = [S("connect", 1, 1), S("connect", 1, 2), S("connect", 1, 3)]
    begin = [cn, cn + [S("connect", 2, 1), S("connect", 2, 2)]]
    begin = [{"mode": m, "ops": b} for m in ("void", "any") for b in begin]
    sets = "Signals = {1, 2}\nSlots = {1, 2, 3}"
    # plan, emit, and what shows afterwards
    preds = predict(c, "SigRun", "Batched = FALSE\nDepth = %d\n%s" % (3 if THOROUGH else 2, sets), "signals", begin, invs, timeout=3000, heap="12g", count=False)
    run("signals, all histories", preds)
    rnd = [{"mode": c.rng.choice(["void", "any"]), "ops": sig_random(c.rng)} for _ in range(30000 if THOROUGH else 4000)]
    preds = predict(c, "SigRun", "Batched = TRUE\nDepth = 0\nSignals = {1, 2}\nSlots = {1, 2, 3, 4}", "signals_random", rnd, invs, timeout=3000, heap="12g", count=False)
    run("signals random", preds)


# ------------------------------------------------------------------ references
def ref_op(o):
    return ("%s %d %d" % (o["o"], o["a"], o["b"])) if o["o"] in ("set", "link", "swap") else "%s %d" % (o["o"], o["a"])


def refs(c, binary):
    invs = ["InvCount", "InvDead", "InvOnce"]

    def run(name, preds):
        items = []
        for p, x in unique(preds):
            exp = ["".join("%d:%d " % (s["val"][v], s["cnt"][v]) for v in range(3)) + "|" + "".join(" %d" % d for d in s["dead"]) for s in x["seen"]] \
                + [" ".join(["left"] + [str(o) for o in sorted(x["gone"])])]
            items.append(("ref " + ";".join(ref_op(o) for o in p["ops"]), exp, p))
        # the last line, what is left when the variables go, is compared as a set: everything must be gone
        got = judge_refs(c, name, binary, items)

    def R(*l):
        return {"ops": [{"o": o, "a": a, "b": b} for o, a, b in l]}
    begin = [R(), R(("new", 1, 0), ("new", 2, 0), ("link", 1, 2)), R(("new", 1, 0), ("new", 2, 0), ("new", 3, 0), ("link", 1, 2), ("link", 2, 3), ("release", 2, 0), ("release", 3, 0)),
             R(("new", 1, 0), ("weak", 1, 0), ("link", 1, 1), ("set", 3, 1))]
    sets = "Vars = {1, 2, 3}"
    preds = predict(c, "RefRun", "Batched = FALSE\nDepth = %d\n%s" % (4 if THOROUGH else 3, sets), "refs", begin if not THOROUGH else begin, invs, timeout=3000, heap="12g", count=False)
    run("references, all histories", preds)
    rnd = []
    for _ in range(20000 if THOROUGH else 3000):
        l = [("new", 1, 0), ("new", 2, 0)]
        for _ in range(c.rng.randint(4, 20)):
            o = c.rng.choice(["new", "set", "set", "release", "link", "link", "link", "next", "next", "weak", "strong", "swap"])
            l.append((o, c.rng.randint(1, 3), c.rng.randint(1, 3) if o in ("set", "link", "swap") else 0))
        rnd.append(R(*l))
    preds = predict(c, "RefRun", "Batched = TRUE\nDepth = 0\n%s" % sets, "refs_random", rnd, invs, timeout=3000, heap="12g", count=False)
    run("references random", preds)


def judge_refs(c, name, binary, items):
    full = items
    got = drive(binary, [l for l, _, _ in full])
    c.add("traces_validated_against_impl", len(full))
    bad = 0
    for (l, exp, p), g in zip(full, got):
        if g is None:
            continue
        h = list(g)
        if h and h[-1].startswith("left"):
            h[-1] = " ".join(["left"] + [str(n) for n in sorted(int(y) for y in h[-1].split()[1:])])
        if h != exp:
            bad += 1
            if bad <= 3:
                k = next((i for i in range(max(len(h), len(exp))) if i >= len(h) or i >= len(exp) or h[i] != exp[i]), 0)
                c.violation("%s: history %s: at output line %d: expected %r, found %r" % (
                    name, l, k + 1, exp[k] if k < len(exp) else "nothing", h[k] if k < len(h) else "nothing"),
                    {"history.txt": l, "expected.txt": "\n".join(exp), "observed.txt": "\n".join(g), "spec.json": p})
    log("%s: %d histories compared, %d differ" % (name, len(full), bad))


# ------------------------------------------------------------------ arrays, maps, subset indices
def vec_op(o):
    return "%s %d %d %d %d" % (o["o"], o["a"], o["i"], o["k"], o["v"])


def vectors(c, binary):
    invs = ["InvKeys"]

    def run(name, preds):
        preds = unique(preds)
        for kind, labels in (("array", ["array"]), ("map", ["map", "mapi"]), ("subset", ["subset"])):
            for lab in labels:
                items = []
                for p, x in preds:
                    if p["kind"] == kind:
                        exp = ["".join("".join("%d=%d " % (e["k"], e["v"]) for e in s[v]) + "| " for v in range(2)).rstrip(" ") for s in x]
                        items.append((lab + " " + ";".join(vec_op(o) for o in p["ops"]), [e + " " for e in exp], p))
                judge(c, "%s %s" % (name, lab), binary, items)

    def V(o, a=1, i=0, k=0, v=0):
        return {"o": o, "a": a, "i": i, "k": k, "v": v}
    begin = [{"kind": "array", "ops": [V("add", 1, v=91), V("add", 1, v=92), V("assign", 2, 1)]}, {"kind": "map", "ops": []},
             {"kind": "map", "ops": [V("put", k=2, v=91), V("put", k=1, v=92), V("put", k=3, v=93), V("put", k=4, v=94)]}, {"kind": "subset", "ops": []},
             {"kind": "subset", "ops": [V("insert", i=i, v=i % 2) for i in range(4)]}]
    sets = "Vars = {1, 2}\nKeys = {1, 2, 3, 4}"
    preds = predict(c, "VecRun", "Batched = FALSE\nDepth = %d\n%s" % (4 if THOROUGH else 3, sets), "vectors", begin, invs, timeout=3000, heap="12g", count=False)
    run("containers, all histories", preds)
    rnd = []
    for _ in range(20000 if THOROUGH else 3000):
        kind = c.rng.choice(["array", "map", "subset"])
        ops = []
        for n in range(1, c.rng.randint(6, 24)):
            if kind == "array":
                o = c.rng.choice(["add", "add", "insert", "remove", "assign", "copy", "reserve", "clear"])
                ops.append(V(o, c.rng.randint(1, 2), c.rng.randint(1, 2) if o == "assign" else c.rng.randint(0, 8), 0, n))
            elif kind == "map":
                o = c.rng.choice(["put", "put", "insert", "insert", "del", "remove"] + (["clear"] if c.rng.random() < 0.1 else []))
                ops.append(V(o, 1, c.rng.randint(0, 5), c.rng.randint(1, 9), n))
            else:
                o = c.rng.choice(["insert", "insert", "update", "remove"])
                ops.append(V(o, 1, c.rng.randint(0, 9), 0, c.rng.randint(0, 1)))
        rnd.append({"kind": kind, "ops": ops})
    preds = predict(c, "VecRun", "Batched = TRUE\nDepth = 0\nVars = {1, 2}\nKeys = {1, 2, 3, 4, 5, 6, 7, 8, 9}", "vectors_random", rnd, invs, timeout=3000, heap="12g", count=False)
    run("containers random", preds)


def check():
    c = Check("C18", "model_checked+conformance")
    build_repo()
    os.makedirs(c.dir, exist_ok=True)
    ovl, basics = pmap(lambda s: build(c, s), ["overlay.cpp", "basics.cpp"])
    if not ovl and not basics:
        raise CheckError("no harness builds against this tree")
    if basics:
        signals(c, basics)
        refs(c, basics)
        vectors(c, basics)
    if ovl:
        overlay(c, ovl)
    c.cov["bounds"] = "all histories of the stated length from each beginning, random histories of up to 26 operations; three containers in a chain, two signals, four slots, three reference variables"
    c.finish()


if __name__ == "__main__":
    main_guard(check)
