import os, sys, json, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import execgen

LIMIT = 260


def source(progs, rng, first=0):
    out = [execgen.PRELUDE]
    for i, p in enumerate(progs):
        out.append(execgen.Render(p, rng).entry("P%d" % (first + i), first + i))
    return "\n".join(out) + "\n"


def observe(check, progs, tag, bundle=25, timeout=60):
    """Run all programs on the real compiler; returns list of (obs, truncated, note)."""
    res = [None] * len(progs)
    srcs = [None] * len(progs)

    def run(group):
        i0, ps = group
        path = "%s/%s_%d_%d.alusus" % (check.dir, tag, i0, len(ps))
        with open(path, "w") as f:
            f.write(source(ps, check.rng, i0))
        r = run_alusus(path, timeout)
        tr = execgen.parse_trace(r.out, LIMIT)
        return (i0, ps, r, tr)

    groups = [(i, progs[i:i + bundle]) for i in range(0, len(progs), bundle)]
    again = []
    for (i0, ps, r, tr) in pmap(run, groups):
        check.add("evaluations", 1)
        complete = all(tr.get(i0 + j, [None])[-1:] == ["end"] for j in range(len(ps))) and r.rc == 0
        if not complete and len(ps) > 1:
            again += [(i0 + j, [ps[j]]) for j in range(len(ps))]
            continue
        for j in range(len(ps)):
            res[i0 + j] = (tr.get(i0 + j, []), r)
    for (i0, ps, r, tr) in pmap(run, again):
        check.add("evaluations", 1)
        res[i0] = (tr.get(i0, []), r)
    final = []
    for (t, r) in res:
        note = ""
        if t[-1:] == ["end"]:
            t = t[:-1]
        else:
            note = "program did not finish: rc=%s timeout=%s\n%s" % (r.rc, r.timeout, (r.out + r.err)[-2000:])
            if len(t) <= LIMIT:
                t = t + [["!", 0, 0, 0]]        # an event no specification step produces
        trunc = len(t) > LIMIT
        final.append((t[:LIMIT], trunc, note))
    return final


CFG = """SPECIFICATION Spec
INVARIANT Conforms
INVARIANT NoDoubleDestroy
INVARIANT NoUseAfterDestroy
INVARIANT Owned
INVARIANT NoLeak
INVARIANT SerialsUnique
"""


def validate(check, progs, obs, tag, timeout=700, extra=()):
    data = [p.data(o[0], o[1]) for p, o in zip(progs, obs)]
    r = tlc("Exec", CFG, check.dir + "/tlc_" + tag, {"batch": data}, timeout=timeout, extra=extra)
    check.add("states", r.distinct)
    check.add("transitions", r.generated)
    return r


def check_programs(check, progs, tag, timeout=700):
    obs = observe(check, progs, tag)
    log("observed", len(progs), "programs,", sum(len(o[0]) for o in obs), "events, truncated:", sum(o[1] for o in obs),
        "unfinished:", sum(1 for o in obs if o[2]))
    live = list(range(len(progs)))
    r = validate(check, progs, obs, tag, timeout)
    if r.ok and r.initial != len(progs):
        raise CheckError("TLC explored %d of %d programs" % (r.initial, len(progs)))
    if r.ok:
        check.add("traces_validated_against_impl", len(progs))
        return obs
    # confirm by running the program again, alone
    pi = int(state_var(r.state, "p")) - 1
    tr = int(state_var(r.state, "tr"))
    one = observe(check, [progs[pi]], tag + "_again")
    r2 = validate(check, [progs[pi]], one, tag + "_again", timeout)
    if r2.ok:
        raise CheckError("rejection of %s program %d did not repeat" % (tag, pi))
    d = check.violation("%s: the execution of the program is not one the specification allows: %s at event %d of the trace (%s)\n%s"
                        % (tag, r2.violated, tr, obs[pi][0][max(0, tr - 1):tr], one[0][2]),
                        {"program.alusus": source([progs[pi]], check.rng), "trace.json": one[0][0],
                         "batch.json": [progs[pi].data(one[0][0], one[0][1])], "tlc.txt": r2.out[-20000:]})
    return obs


def from_tree(tree, classes):
    """Number the nodes of a syntax tree produced by ExecGen.tla; fresh event numbers."""
    p = execgen.Prog()
    p.classes = classes
    cnt = [0]
    kids = {"block": ["l"], "if": ["c", "a", "b"], "while": ["c", "b"], "for": ["i", "c", "u", "b"], "defi": ["e"],
            "defo": ["e"], "asg": ["e"], "mark": ["e"], "bin": ["a", "b"], "logic": ["a", "b"], "not": ["a"],
            "get": ["o"], "tmp": ["e"], "expr": ["e"], "call": ["args"], "ret": [], "break": [], "continue": []}

    def conv(t):
        n = dict(t)
        if n["k"] in ("ev", "mark"):
            cnt[0] += 1
            n["n"] = cnt[0]
        for f in kids.get(n["k"], []):
            v = n[f]
            if isinstance(v, list):
                n[f] = [conv(x) for x in v]
            elif isinstance(v, dict):
                n[f] = conv(v)
        return p.n(**n)

    b = conv(tree)
    p.fns = [{"x": "main", "params": [], "ret": "void", "c": 0, "body": b, "rec": ""}]
    p.main = 1
    return p


def generated_space(check, depth, objects):
    """The exhaustive program spaces defined by ExecGen.tla."""
    d = check.dir + "/gen"
    cfg = "SPECIFICATION Spec\nCONSTANT Depth = %d\nCONSTANT Objects = %s\n" % (depth, "TRUE" if objects else "FALSE")
    r = tlc("ExecGen", cfg, d, workers=1)
    if not r.ok:
        raise CheckError("ExecGen failed: " + r.out[-2000:])
    cl = [{"own": 1, "members": []}]
    return ([from_tree(t, cl) for t in json.load(open(d + "/loops.json"))],
            [from_tree(t, cl) for t in json.load(open(d + "/formulas.json"))])
