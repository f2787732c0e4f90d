"""C06: overload resolution against OverSpec.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

NAMES = {"I0": "Int[0]", "F32": "Float[32]", "F64": "Float[64]", "P": "ptr", "PI": "ptr[Int[32]]", "PA": "ptr[A]", "PB": "ptr[B]"}
for b in (8, 16, 32, 64):
    NAMES["I%d" % b] = "Int[%d]" % b
    NAMES["W%d" % b] = "Word[%d]" % b
NAMES["W1"] = "Word[1]"
for t in "ABCDEGHK":
    NAMES[t] = t
VALS = [t for t in NAMES if t != "I0"]

PRE = """import "alusus_spp";
def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];
def fflush: @expname[fflush] function (f: ptr)=>Int[32];
class A { def x: Int[32]; };
class B { @injection def a: A; def y: Int[32]; };
class C { def x: Int[32]; handler this~cast[Int[32]] return this.x; };
class D { def x: Int[32]; handler this~cast[Float[64]] return 1.5; handler this~cast[ptr[Int[32]]] return this.x~ptr; };
class E { def x: Int[32]; handler this~cast[ref[Int[32]]] return this.x; };
class G { def b: B; handler this~cast[ref[B]] return this.b; };
class K { def x: Int[32]; handler this~cast[H] { def r: H; return r; }; handler this~cast[Word[8]] return 1; };
class H { def x: Int[32]; handler this~cast[K] { def r: K; return r; } };
def gi: Int[32]; def ga: A; def gb: B;
""" + "".join("def g_%s: %s;\nfunc v_%s (): %s { return g_%s };\n" % (t, n, t, n, t) for t, n in NAMES.items())


def ptext(ps):
    r = []
    for i, p in enumerate(ps):
        n = NAMES.get(p["t"], "any")
        r.append("p%d: %s" % (i, {"v": n, "r": "ref[%s]" % n, "t": "temp_ref[%s]" % n,
                                  "p": "...any" if n == "any" else "...[%s, %d, %d]" % (n, p["lo"], p["hi"])}[p["k"]]))
    return ", ".join(r)


def render(p, n):
    def body(c):
        return '{ printf("@ %d %s\\n") }' % (n, "_".join(map(str, c)))
    out, inner = [], ""
    types = []
    args, decl = [], ""
    for i, a in enumerate(p["args"]):
        t = a["t"]
        if t == "N":
            args.append("0")
        elif a["k"] == "v":
            args.append("v_%s()" % t)
        else:
            decl += " def a%d: %s;" % (i, NAMES[t])
            args.append("a%d" % i)
    S = p["scopes"]
    form = p["form"]
    member = form != "plain"
    name = {"ctor": "~init", "call": "", "add": " +", "assign": " ="}.get(form, ".f")
    for s in range(len(S), 0, -1):
        for g, cs in enumerate(S[s - 1]["inj"], 1):
            types.append("class J%d_%d { def q: Int[32];\n%s };" % (s, g, "\n".join(
                "handler this.f (%s) %s;" % (ptext(c), body((s, g, i))) for i, c in enumerate(cs, 1))))
        for g, cs in enumerate(S[s - 1]["uses"], 1):
            types.append("module M%d_%d {\n%s };" % (s, g, "\n".join(
                "func f (%s) %s;" % (ptext(c), body((s, -g, i))) for i, c in enumerate(cs, 1))))
    text = "module R%d {\n" % n + "\n".join(types) + "\n"
    for s in range(len(S), 0, -1):
        x = S[s - 1]
        open_ = "" if s == len(S) else "class Q1 {\n" if s == 1 and member else "func go {\n" if s == 1 else "module Q%d {\n" % s
        text += open_ + "".join("use M%d_%d;\n" % (s, g) for g in range(1, len(x["uses"]) + 1))
        if s == 1 and member:
            text += "def q: Int[32];\n"
        for g in range(1, len(x["inj"]) + 1):
            text += "@injection def j%d: J%d_%d;\n" % (g, s, g)
        for i, c in enumerate(x["cands"], 1):
            text += ("handler this" + name + " (%s) %s;\n" if member and s == 1 else "func f (%s) %s;\n") % (ptext(c), body((s, 0, i)))
        if s == 1 and not member:
            text += ("func go {%s f(%s) };\n" if len(S) == 1 else "%s f(%s);\n") % (decl, ", ".join(args))
    text += "};\n" * (len(S) - 1)
    path = "".join("Q%d." % k for k in range(len(S) - 1, 1, -1))
    if member:
        text += "func go { %s%s };\n" % (decl, {
            "ctor": "def k: %sQ1(%s)", "member": "def k: %sQ1; k.f(%s)", "call": "def k: %sQ1; k(%s)", "add": "def k: %sQ1; k + %s",
            "assign": "def k: %sQ1; k = %s"}[form] % (path, ", ".join(args)))
        path = ""
    return text + "};\nR%d.%sgo();\n" % (n, path)


def judge(p, x, o):
    if x["kind"] == "run":
        want = [["_".join(map(str, x["id"]))]]
        if o.errors:
            return "rejected"
        return "" if o.events == want else "another candidate ran"
    if o.events:
        return "ran"
    return "" if o.errors else "accepted"


def rand_par(rng, pool, packs=True):
    t = rng.choice(pool)
    x = rng.random()
    if packs and x < 0.12:
        lo = rng.choice([0, 0, 1, 2])
        if rng.random() < 0.3:
            return {"k": "p", "t": "any", "lo": 0, "hi": 0}
        return {"k": "p", "t": rng.choice(["I32", "I64", "F64", "W8", "F32"]), "lo": lo, "hi": rng.choice([0, 0, max(lo, 1), lo + 1, lo + 2])}
    return {"k": "v" if x < 0.65 else "r" if x < 0.82 else "t", "t": t, "lo": 0, "hi": 0}


GROUPS = [["I8", "I16", "I32", "I64", "W8", "W16", "W32", "W64"], ["I32", "I64", "F32", "F64", "W1"], ["I32", "P", "PI", "PA", "PB"],
          ["A", "B", "G", "PA", "PB"], ["I32", "I64", "F64", "C", "D", "E"], ["I32", "W8", "H", "K", "C"], VALS]


def rand_prog(rng):
    pools = [rng.choice(GROUPS) for _ in range(rng.choice([1, 1, 2, 2, 2, 3, 3]))]
    args = []
    for pool in pools:
        t = rng.choice(pool)
        args.append({"k": "v", "t": "N"} if rng.random() < 0.05 else {"k": rng.choice("rrv"), "t": t})
    if rng.random() < 0.05:
        args = []

    def cand():
        ps = []
        for pool in pools:
            p = rand_par(rng, pool, len(ps) == len(pools) - 1)
            if rng.random() < 0.35 and args and len(ps) < len(args) and args[len(ps)]["t"] != "N" and p["k"] != "p":
                p["t"] = args[len(ps)]["t"]
            ps.append(p)
        if rng.random() < 0.08:
            ps = ps[:-1]
        if rng.random() < 0.05:
            if not ps or ps[-1]["k"] != "p":
                ps.append(rand_par(rng, rng.choice(GROUPS)))
        return ps

    def cands(n):
        r = []
        for _ in range(n):
            c = cand()
            if c not in r:
                r.append(c)
        return r
    S = []
    form = rng.choice(["plain"] * 5 + ["member", "member", "ctor", "call", "add", "assign"])
    member = form != "plain"
    if form in ("add", "assign"):
        pools, args = pools[:1], args[:1]
        if not args:
            args.append({"k": "v", "t": rng.choice(pools[0])})
    for s in range(rng.choice([1, 2, 2, 2, 3])):
        inj = [cands(rng.randint(1, 2)) for _ in range(rng.choice([0, 0, 1, 2]))] if s == 0 else []
        uses = [cands(rng.randint(1, 2)) for _ in range(rng.choice([0, 0, 0, 1, 2]))] if not (member and s == 0) else []
        S.append({"cands": cands(rng.choice([0, 1, 2, 2, 3, 4])), "inj": inj, "uses": uses})
    if len(S) == 1:
        S[0]["inj"] = []
    if member:
        S = [S[0], {"cands": [], "inj": [], "uses": []}]
    if form in ("ctor", "call", "add", "assign"):
        S[0]["inj"] = []
        S[0]["cands"] = [x for x in S[0]["cands"] if (not len(x) and form == "call") or x and (x[-1]["k"] != "p")] or [[rand_par(rng, VALS, False)]]
        if form in ("add", "assign"):
            S[0]["cands"] = [x for x in S[0]["cands"] if len(x) == 1]
        if not S[0]["cands"]:
            S[0]["cands"] = [[rand_par(rng, VALS, False)]]
    return {"scopes": S, "args": args, "form": form}


def pack_prog(rng):
    """calls of up to six arguments to candidates with bounded packs: alone, after other parameters, two together"""
    nums = ["I32", "I64", "F64", "W8", "F32", "I16"]
    pool = rng.sample(nums, rng.choice([1, 2, 2, 3]))
    args = []
    while len(args) < rng.choice([1, 2, 3, 4, 5, 6]):
        args += [{"k": "v" if rng.random() < 0.7 else "r", "t": rng.choice(pool)}] * rng.choice([1, 1, 2, 3])

    def cand():
        ps = [rand_par(rng, pool, False) for _ in range(rng.choice([0, 0, 1, 2]))]
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            lo = rng.choice([0, 0, 1, 2, 3])
            ps.append({"k": "p", "t": rng.choice([t for t in pool if t != "I16"] or ["I32"]), "lo": lo, "hi": rng.choice([0, max(lo, 1), lo + 1, lo + 2, lo + 3])})
        return ps           # (no other parameter can follow a pack)

    def cands(n):
        r = []
        for _ in range(n):
            x = cand()
            if x not in r:
                r.append(x)
        return r
    S = [{"cands": cands(rng.choice([1, 1, 2, 3])), "inj": [], "uses": [cands(1)] if rng.random() < 0.2 else []}]
    if rng.random() < 0.3:
        S.append({"cands": cands(1), "inj": [], "uses": []})
    return {"scopes": S, "args": args[:6], "form": "plain"}


INVS = ("InvOrderFree", "InvNoBetter", "Report")


def check(c, preds, tag):
    items = [(render(p, i + 1), x["kind"] != "run") for i, (p, x) in enumerate(preds)]
    return compare(c, tag, preds, items, PRE, judge, bundle=60, reject_bundle=100)


def run():
    build_repo()
    c = Check("C06")
    c.cov["rule"] = ("every argument of OverRun's space (variables and values of 22 types, null) against every one-parameter candidate, "
                     "every pair of such candidates, seeded random calls of up to 6 arguments to candidates with bounded packs, and seeded random calls (up to 3 arguments, 4 candidates per scope, packs, nested "
                     "modules, injections, use statements, member calls): the real compiler must run the candidate OverSpec names, or reject the call")
    c.assumptions = ["which of two equally good custom casts of one class converts an argument is left open"]
    preds = predict(c, "OverRun", 'Mode = "single"', "single", invs=INVS)
    c.cov["single_space"] = len(preds)
    check(c, preds, "single")
    preds = predict(c, "OverRun", 'Mode = "pair"', "pair", invs=INVS)
    c.cov["pair_space"] = len(preds)
    if not THOROUGH:
        preds = c.rng.sample(preds, 2500)
    check(c, preds, "pair")
    preds = predict(c, "OverRun", 'Mode = "batch"', "random", progs=[rand_prog(c.rng) for _ in range(15000 if THOROUGH else 2500)], invs=INVS)
    check(c, preds, "random")
    preds = predict(c, "OverRun", 'Mode = "batch"', "packs", progs=[pack_prog(c.rng) for _ in range(8000 if THOROUGH else 1200)], invs=INVS)
    check(c, preds, "packs")
    c.finish()


if __name__ == "__main__":
    main_guard(run)
