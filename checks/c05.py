"""C05 name resolution: spec/NameSpec.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from batch import *

PRE = r'''import "alusus_spp";
def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];
def fflush: @expname[fflush] function (p: ptr)=>Int[32];
'''


def ident(p, d):
    """the number that identifies definition d when it is reached"""
    return d * 8


class Render:
    def __init__(self, p, n):
        self.p, self.n, self.q = p, n, p["query"]
        self.chain = []
        s = self.q["scope"]
        while s:
            self.chain.append(s)
            s = p["scopes"][s - 1]["parent"]

    def d(self, i, late):
        x = self.p["defs"][i - 1]
        k, nm = x["kind"], x["name"]
        blk = self.p["scopes"][x["scope"] - 1]["kind"] == "blk"
        if (late and not (k == "var" and blk and x["arg"])) or (not late and k == "var" and blk and x["arg"]):
            return ""
        if k == "var" or k == "shared":
            return "%sdef %s: Int(%d);" % ("@shared " if k == "shared" else "", nm, ident(self.p, i))
        if k == "member":
            return "def %s: Int;" % nm
        if k == "fun":
            return "func %s(%s): Int { return %d };" % (nm, ", ".join("x%d: Int" % j for j in range(x["arg"])), ident(self.p, i))
        if k == "cls":
            return "class %s { def z: array[Word[8], %d] };" % (nm, ident(self.p, i))
        if k == "alias":
            return "def %s: alias %s;" % (nm, ".".join(x["path"]))
        if k == "in":
            return "%s %s { %s };" % ({"mod": "module", "cls": "class"}[self.p["scopes"][x["arg"] - 1]["kind"]], nm, self.body(x["arg"]))
        return ""

    def query(self):
        q = self.q
        r = ".".join(q["path"])
        if q["form"] == "val":
            return 'printf("@ %d %%d\\n", %s);' % (self.n, r)
        if q["form"] == "call":
            return 'printf("@ %d %%d\\n", %s(%s));' % (self.n, r, ", ".join(["1"] * q["arity"]))
        return 'def tt: ptr[%s]; printf("@ %d %%d\\n", tt~cnt~size);' % (r, self.n)

    def fn(self, s):
        """function scope s: definition text and the text of a call of it from its own scope"""
        ps = [(i, x) for i, x in enumerate(self.p["defs"], 1) if x["scope"] == s]
        b = [i for i, x in enumerate(self.p["scopes"], 1) if x["parent"] == s][0]
        return ("func g%d(%s) { %s };" % (s, ", ".join("%s: Int" % x["name"] for _, x in ps), self.body(b)),
                "g%d(%s)" % (s, ", ".join(str(ident(self.p, i)) for i, _ in ps)))

    def body(self, s):
        p = self.p
        out = ["use %s;" % ".".join(u["path"]) for u in p["uses"] if u["scope"] == s]
        mine = [i for i, x in enumerate(p["defs"], 1) if x["scope"] == s]
        out += [self.d(i, False) for i in mine]
        for i, x in enumerate(p["scopes"], 1):
            if x["parent"] == s and x["kind"] in ("fn", "blk"):
                if x["kind"] == "fn":
                    f, call = self.fn(i)
                    out.append(f)
                    if p["scopes"][s - 1]["kind"] == "blk":
                        out.append(call + ";")
                else:
                    out.append("{ %s };" % self.body(i))
        if s == self.q["scope"]:
            out.append(self.query())
        out += [self.d(i, True) for i in mine]
        return " ".join(o for o in out if o)

    def source(self):
        # the outermost function of the chain is called from the root
        fns = [s for s in self.chain if self.p["scopes"][s - 1]["kind"] == "fn"]
        top = fns[-1]
        path, s = [], self.p["scopes"][top - 1]["parent"]
        while s != 1:
            d = [x for x in self.p["defs"] if x["kind"] == "in" and x["arg"] == s][0]
            path.insert(0, d["name"])
            s = d["scope"]
        return "module P%d { %s };\n%s.%s;\n" % (self.n, self.body(1), ".".join(["P%d" % self.n] + path), self.fn(top)[1])


CODES = {"unknown": ("SPPA1007", "SPPA1006", "SPPA1008", "SPPG1007"), "otherfunc": ("SPPA1015",), "early": ("SPPG1024",)}


def judge(p, x, o):
    if x["kind"] == "def":
        if o.errors:
            return "a visible definition was not found"
        if len(o.events) != 1 or o.events[0] not in [[str(ident(p, d))] for d in x["d"]]:
            return "the name resolved to another definition"
        return ""
    if o.events:
        return "a name that must be rejected (%s) was resolved" % x["why"]
    if not o.errors:
        return "no error was reported (%s)" % x["why"]
    if all(e[1] != 1 for e in o.errors):
        return "the error is not located at the reference"
    return ""


def rand_prog(rng):
    names = ["a", "b", "c"]
    scopes = [("mod", 0)]
    defs, uses = [], []

    def add(s, name, kind, arg=0, path=()):
        defs.append({"scope": s, "name": name, "kind": kind, "arg": arg, "path": list(path)})
    # modules and classes
    for _ in range(rng.randint(2, 5)):
        par = rng.choice([i for i, x in enumerate(scopes, 1) if x[0] in ("mod", "cls")])
        scopes.append((rng.choice(["mod", "mod", "cls"]), par))
        add(par, "M%d" % len(scopes), "in", len(scopes))
    cont = [i for i, x in enumerate(scopes, 1)]

    def anc(x):
        out = []
        while x:
            out.append(x)
            x = scopes[x - 1][1]
        return out

    def mpath(t, at):
        """path naming container t from scope at (an ancestor's child may start it)"""
        ch, y = [], t
        while y != 1:
            ch.insert(0, y)
            y = scopes[y - 1][1]
        starts = [i for i, m in enumerate(ch) if scopes[m - 1][1] in anc(at)]
        return ["M%d" % m for m in ch[rng.choice(starts):]]
    # chain of functions and blocks
    s = rng.choice(cont)
    home = s
    depth = rng.randint(1, 2)
    for k in range(depth):
        scopes.append(("fn", s))
        s = len(scopes)
        for nm in names:
            if rng.random() < 0.2:
                add(s, nm, "param")
        scopes.append(("blk", s))
        s = len(scopes)
        for _ in range(rng.randint(0, 2)):
            scopes.append(("blk", s))
            s = len(scopes)
    q = s
    for i, (k, par) in enumerate(scopes, 1):
        for nm in names:
            x = rng.random()
            if k == "mod" and x < 0.4:
                add(i, nm, rng.choice(["var", "fun", "cls"]), rng.randint(0, 2))
            elif k == "cls" and x < 0.4:
                add(i, nm, rng.choice(["shared", "fun", "cls", "member"]), rng.randint(0, 2))
            elif k == "blk" and x < 0.25:
                add(i, nm, rng.choice(["var", "var", "shared", "fun", "cls"]), rng.choice([0, 0, 0, 1]))
            if defs and defs[-1]["kind"] == "fun" and defs[-1]["name"] == nm and defs[-1]["scope"] == i and rng.random() < 0.4:
                add(i, nm, "fun", (defs[-1]["arg"] + 1) % 3)
        if k in ("mod", "cls", "blk") and rng.random() < 0.5:
            mods = [t for t in cont[1:] if scopes[t - 1][0] == "mod"]
            for t in rng.sample(mods, min(len(mods), rng.randint(1, 2))):
                uses.append({"scope": i, "path": mpath(t, i)})
    for i, (k, par) in enumerate(scopes, 1):
        if k == "fn":
            continue
        if rng.random() < 0.3:
            # no alias can lead back to itself: its target's name comes earlier
            tg = [d for d in defs if d["scope"] in cont[1:] and d["name"] in "abc"]
            if tg:
                d = rng.choice(tg)
                an = rng.choice([x for x in "bcefef" if x > d["name"]])
                if not any(e["scope"] == i and e["name"] == an for e in defs):
                    up = [x["name"] for x in defs if x["scope"] in anc(i) and x["name"] in names and x["name"] < an]
                    if up and rng.random() < 0.5:
                        add(i, an, "alias", 0, [rng.choice(up)])
                    else:
                        add(i, an, "alias", 0, mpath(d["scope"], i) + [d["name"]])
        if rng.random() < 0.1:
            add(i, "N%d" % i, "alias", 0, mpath(rng.choice(cont[1:]), i))
    path = [rng.choice(names + ["e", "f"])]
    if rng.random() < 0.3:
        pre = mpath(rng.choice(cont[1:]), q)
        ns = [d["name"] for d in defs if d["name"][0] == "N"]
        if ns and rng.random() < 0.3:
            pre = [rng.choice(ns)]
        path = pre + path
    form, arity = rng.choice(["val", "val", "call", "type"]), rng.randint(0, 2)
    ks = [d for d in defs if d["name"] in "abcef" and scopes[d["scope"] - 1][0] != "cls" or d["kind"] == "shared"]
    if ks and rng.random() < 0.85:
        # ask for something of a kind that exists
        al, d = rng.choice(ks), None
        d = al
        while d is not None and d["kind"] == "alias":
            d = next((e for e in defs if e["name"] == d["path"][-1] and e["kind"] != "alias"), None)
        if d is not None:
            form = {"fun": "call", "cls": "type"}.get(d["kind"], "val")
            arity = d["arg"] if d["kind"] == "fun" else 0
            path[-1] = al["name"]
            if al["scope"] in cont[1:] and rng.random() < 0.4:
                path = mpath(al["scope"], q) + [al["name"]]
            elif rng.random() < 0.6:
                path = path[-1:]
    return {"scopes": [{"kind": k, "parent": p} for k, p in scopes], "defs": defs, "uses": uses,
            "query": {"scope": q, "form": form, "path": path, "arity": arity}}


INVS = ("InvSound", "InvVisible", "InvDirectFirst", "InvStays", "Report")


def check(c, preds, tag):
    items = [(Render(p, i + 1).source(), x["kind"] != "def") for i, (p, x) in enumerate(preds)]
    compare(c, tag, preds, items, PRE, judge, bundle=60, reject_bundle=100)


def run():
    build_repo()
    c = Check("C05")
    c.cov["rule"] = ("every program of NameRun's space (five nested scopes and two used modules, one name) and seeded random ones "
                     "(nested modules, classes, functions and blocks, several kinds of definitions, aliases, use statements, plain and "
                     "qualified references as value, call or type); each must do what NameSpec's machine says: print the number of "
                     "the definition, or be rejected with an error on the line of the reference")
    c.assumptions = ["aliases that stand for nothing and two variables of one name in one scope are outside"]
    preds = predict(c, "NameRun", 'Mode = "gen"', "space", invs=INVS)
    c.cov["program_space"] = len(preds)
    if not THOROUGH:
        preds = c.rng.sample(preds, min(len(preds), 2500))
    check(c, preds, "space")
    rp = [rand_prog(c.rng) for _ in range(20000 if THOROUGH else 4000)]
    preds = predict(c, "NameRun", 'Mode = "batch"', "random", progs=rp, invs=INVS)
    preds = [(p, x) for p, x in preds if x["kind"] != "outside"]
    check(c, preds, "random")
    c.finish()


if __name__ == "__main__":
    main_guard(run)
