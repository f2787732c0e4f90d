"""C10: template instances are functions of their arguments, against TplSpec.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

TYPES = ["K1", "K2", "K3"]
ALLTYPES = TYPES + ["M1.K1", "M2.K1"]
STRS = ["ab", "abc", "a,b", "b", "a]", "3", "K1", "", "a.b", 'q"']
CONSTS = {"type": ALLTYPES, "int": ["3", "4", "16", "32", "0", "10", "259", "65539", "4294967299", "4294967312"], "str": STRS, "func": ["g1", "g2"], "mod": ["M1", "M2"], "num": ["8", "16", "32", "64"]}
NAMES = {"type": "T", "int": "i", "str": "s", "func": "f", "mod": "m", "num": "w"}
HEADER = """import "alusus_spp";
def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];
def fflush: @expname[fflush] function (p: Int[64])=>Int;
""" + "".join('class %s { def x: Int; @shared func tag() { printf("%s"); }; };\n' % (k, k) for k in TYPES) + """
func g1(): Int { return 1; }; func g2(): Int { return 2; };
module M1 { func v(): Int { return 1; }; class K1 { def y: Int; @shared func tag() { printf("M1K1"); }; }; };
module M2 { func v(): Int { return 2; }; class K1 { def y: Int; @shared func tag() { printf("M2K1"); }; }; };
def c3: 3; def c16: 0h10; def sab: "ab"; def ak1: alias K1; def ag1: alias g1; def am1: alias M1; def W32: alias Int[0h20];
def T: alias K3; def i: 4; def s: "outer"; def f: alias g2; def m: alias M2;
"""
SPELL = {"3": ["3", "0h3", "c3", "0b11"], "16": ["16", "0h10", "c16", "0x10", "0o20"], "ab": ['"ab"', "sab"], "K1": ["K1", "ak1"], "g1": ["g1", "ag1"],
         "M1": ["M1", "am1"], "32": ["32", "0h20"], "10": ["10", "0hA", "0ha"], "4": ["4", "i", "0o4"], "K3": ["K3", "T"]}


def uname(n, p, u):
    x = p["units"][u - 1]
    return ("%s%d" % ({"class": "C", "func": "F", "meth": "mt"}[x["kind"]], u)) + ("" if x["kind"] == "meth" else "_%d" % n)


def scope_names(p, u):
    """names of the parameters in scope of unit u, as in Env; a name hidden by an inner one is None"""
    x = p["units"][u - 1]
    own = names_of(x)
    if not x["owner"]:
        return own
    return [q if q not in own else None for q in names_of(p["units"][x["owner"] - 1])] + own


def names_of(x):
    cnt, res = {}, []
    for k in x["kinds"]:
        cnt[k] = cnt.get(k, 0) + 1
        res.append(NAMES[k] + ("" if cnt[k] == 1 else str(cnt[k])))
    return res


def expr(n, p, x, scope, rng, kind=None, plain=False):
    if x["e"] == "par":
        return scope[x["n"] - 1]
    if x["e"] == "alias":
        return "a%d_%d" % (x["n"], n)
    if x["e"] == "const":
        c = x["c"]
        if kind == "num":
            return rng.choice({"32": ["Int[32]", "Int", "W32", "Int[0h20]"], "16": ["Int[16]", "Int[0h10]"]}.get(c, ["Int[%s]" % c]))
        hidden = set(scope) | {"T", "i"} if scope else set()
        opts = [q for q in SPELL.get(c, ['"%s"' % c.replace('"', '\\"')] if kind == "str" else [c]) if q not in hidden]
        if kind == "str":
            opts = [q for q in opts if q.startswith('"') or q == "sab"] or ['"%s"' % c.replace('"', '\\"')]
        return rng.choice(opts)
    u = x["u"]
    a = [expr(n, p, y, scope, rng, k) for y, k in zip(x["a"], p["units"][u - 1]["kinds"])]
    t = uname(n, p, u) + "[" + ", ".join(a) + "]"
    if p["units"][u - 1]["owner"]:
        t = expr(n, p, x["o"], scope, rng) + "." + t
    return t


def unit_of(p, x):
    while x["e"] == "alias":
        x = p["aliases"][x["n"] - 1]
    return x["u"] if x["e"] == "inst" else 0


def call(n, p, x, scope, rng, unit=None):
    t = expr(n, p, x, scope, rng)
    u = unit if unit else unit_of(p, x)
    return t + (".run();" if p["units"][u - 1]["kind"] == "class" else "();")


def render(n, p, seed):
    rng = random.Random(seed)
    out = []

    def tags(x):
        t = ""
        for j, (nm, k) in enumerate(zip(names_of(x), x["kinds"])):
            if j:
                t += ' printf(",");'
            t += {"type": " %s.tag();", "int": ' printf("%%ld", %s~cast[Int[64]]);', "str": ' printf("%%s", %s);', "func": ' printf("g%%d", %s());',
                  "mod": ' printf("M%%d", %s.v());', "num": ' printf("w%%d", %s~size);'}[k] % nm
        return t

    def body(u):
        x = p["units"][u - 1]
        t = ""
        for o in x["body"]:
            if o["k"] == "bump":
                t += " q = q + 1;"
            elif o["k"] == "show":
                t += ' printf("@ %d "); %s printf(" %%d\\n", q);' % (n, ("otag();" if x["kind"] == "meth" else "") + (
                    "tag();" if x["kind"] == "class" else ' printf("%s(");%s printf(")");' % (uname(0, p, u).split("_")[0], tags(x))))
            else:
                t += " " + call(n, p, o["x"], scope_names(p, u), rng)
        return t

    def params(u):
        x = p["units"][u - 1]
        r = []
        for nm, k, d in zip(names_of(x), x["kinds"], x["defs"]):
            kw = {"type": "type", "num": "type", "int": "integer", "str": "string", "func": "function", "mod": "module"}[k]
            r.append("%s: %s" % (nm, kw) + ("" if d["e"] == "none" else " = " + expr(n, p, d, ["T", "i", "s", "f", "m"], rng, k)))
        return "[" + ", ".join(r) + "]"
    aliases = []
    for j, a in enumerate(p["aliases"], 1):
        t = expr(n, p, a, [], rng)
        aliases.append("def a%d_%d: %s%s;" % (j, n, "" if t[0].isdigit() else "alias ", t))
    defs = []
    for u, x in enumerate(p["units"], 1):
        if x["kind"] == "func":
            defs.append("func %s%s() { @shared def q: Int;%s };" % (uname(n, p, u), params(u), body(u)))
        elif x["kind"] == "class":
            t = "class %s%s { def x: Int; @shared def q: Int; @shared func tag() { printf(\"C%d(\");%s printf(\")\"); };" % (uname(n, p, u), params(u), u, tags(x))
            t += " @shared func otag() { tag(); }; @shared func run() {%s };" % body(u)
            for w, y in enumerate(p["units"], 1):
                if y["owner"] == u:
                    t += " @shared func %s%s() { @shared def q: Int;%s };" % (uname(n, p, w), params(w), body(w))
            defs.append(t + " };")
    both = aliases + defs
    rng.shuffle(both)
    out += both
    out.append("if 1 == 1 {")
    for j, it in enumerate(p["items"]):
        if it["k"] == "call":
            out.append("  " + call(n, p, it["x"], [], rng))
        else:
            a, b = expr(n, p, it["x"], [], rng), expr(n, p, it["y"], [], rng)
            out.append("  if 1 == 2 { def o: ref[%s]; def r: ptr[%s]; r = o~ptr; };" % (a, b))
    out.append("};")
    return "\n".join(out) + "\n"


def tag_of(p, v):
    """what a value prints; kinds are those of the parameters it is bound to"""
    def one(w, k):
        if w["u"]:
            return tag_of(p, w)
        return ("w%d" % (int(w["c"]) // 8)) if k == "num" else w["c"].replace(".", "") if k == "type" else w["c"]
    u = p["units"][v["u"] - 1]
    a, t = v["a"], ""
    if u["owner"]:
        t, a = tag_of(p, a[0]), a[1:]
    return t + "%s%d(%s)" % ({"class": "C", "func": "F", "meth": "mt"}[u["kind"]], v["u"], ",".join(one(w, k) for w, k in zip(a, u["kinds"])))


def judge(p, x, o):
    if not x["ok"]:
        return "" if o.errors and not o.events else "assigning pointers to different instances is accepted"
    if o.errors:
        return "rejected: %s" % o.errors
    want = [[tag_of(p, e["v"]), str(e["n"])] for e in x["ev"]]
    got = [[" ".join(e[:-1]), e[-1]] for e in o.events]
    if want == got:
        return ""
    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return "event %d: %s, not %s" % (k, (got[k:] or ["none"])[0], (want[k:] or ["none"])[0])


NONE = {"e": "none", "c": "", "n": 0, "u": 0, "o": 0, "a": []}


def ex(**k):
    return dict(NONE, **k)


def rand_prog(rng):
    nu = rng.randint(1, 4)
    units, aliases = [], []
    allk = ["type", "type", "type", "int", "int", "str", "func", "mod", "num"]
    for u in range(1, nu + 1):
        owners = [v for v in range(1, u) if units[v - 1]["kind"] == "class"]
        kind = rng.choice(["class", "class", "func", "func", "meth"] if owners else ["class", "class", "func"])
        ks = [rng.choice(allk) for _ in range(rng.randint(1, 3))]
        nd = rng.randint(0, len(ks)) if rng.random() < 0.4 else 0
        units.append({"kind": kind, "owner": rng.choice(owners) if kind == "meth" else 0, "kinds": ks,
                      "defs": [NONE] * (len(ks) - nd) + [ex(e="const", c=rng.choice(CONSTS[k])) for k in ks[len(ks) - nd:]], "body": []})
    small = {k: rng.sample(v, min(len(v), 2)) for k, v in CONSTS.items()}

    def arg(k, scope, depth, top):
        """an expression of kind k; scope: [(index, kind)] usable parameters"""
        c = [("par", j) for j, q in scope if q == k] * 2
        if k == "type":
            c += [("inst", v) for v in range(1, top) if units[v - 1]["kind"] == "class"] if depth < 2 else []
            c += [("alias", j) for j, (q, _, least) in enumerate(al, 1) if q == "type" and least <= top]
        c += [("const", q) for q in small[k]]
        w, z = rng.choice(c)
        if w == "par":
            return ex(e="par", n=z)
        if w == "alias":
            return ex(e="alias", n=z)
        if w == "inst":
            return inst(z, scope, depth + 1, top)
        return ex(e="const", c=z)

    def inst(v, scope, depth, top):
        y = units[v - 1]
        nreq = sum(1 for d in y["defs"] if d["e"] == "none")
        a = [arg(k, scope, depth, top) for k in y["kinds"][:rng.randint(max(1, nreq), len(y["kinds"]))]]
        return ex(e="inst", u=v, a=a, o=inst(y["owner"], scope, depth + 1, top) if y["owner"] else 0)
    al = []     # (kind, expression, lowest unit number that may use it)
    for _ in range(rng.randint(0, 3)):
        cl = [v for v in range(1, nu + 1) if units[v - 1]["kind"] == "class"]
        if cl:
            v = rng.choice(cl)
            e = inst(v, [], 0, v)
            al.append(("type", e, v + 1))
    for u in range(1, nu + 1):
        x = units[u - 1]
        names = scope_names({"units": units}, u)
        kinds = (units[x["owner"] - 1]["kinds"] if x["owner"] else []) + x["kinds"]
        scope = [(j, k) for j, (nm, k) in enumerate(zip(names, kinds), 1) if nm]
        body = [{"k": "bump", "x": NONE, "y": NONE}]
        for _ in range(rng.choice([0, 1, 1, 2]) if u > 1 else 0):
            body.append({"k": "call", "x": inst(rng.randint(1, u - 1), scope, 0, u), "y": NONE})
        body.append({"k": "show", "x": NONE, "y": NONE})
        if rng.random() < 0.3:
            rng.shuffle(body)
        x["body"] = body
    items = []
    for _ in range(rng.randint(2, 6)):
        c = [("u", v) for v in range(1, nu + 1)] + [("a", j) for j, q in enumerate(al, 1) if q[0] == "type"]
        w, z = rng.choice(c)
        items.append({"k": "call", "x": inst(z, [], 0, nu + 1) if w == "u" else ex(e="alias", n=z), "y": NONE})
    cl = [v for v in range(1, nu + 1) if units[v - 1]["kind"] == "class"]
    if cl and rng.random() < 0.4:
        v = rng.choice(cl)
        e = [inst(v, [], 0, nu + 1) for _ in range(2)]
        if rng.random() < 0.5:
            e[1] = json.loads(json.dumps(e[0]))
        for j, q in enumerate(al, 1):
            if q[0] == "type" and rng.random() < 0.3:
                e[0] = ex(e="alias", n=j)
        items.append({"k": "same", "x": e[0], "y": e[1]})
    return {"units": units, "aliases": [q[1] for q in al], "items": items}


INVS = ("InvOneInstance", "InvOwnState", "InvClosed", "Report")


def run():
    build_repo()
    c = Check("C10")
    c.cov["rule"] = ("TplRun's space (a class and a function template, every sequence of three uses from a pool of spellings of their arguments) "
                     "and seeded random programs (class, function and member templates over types, integers, strings, functions and modules, "
                     "defaults, aliases, nested uses): the instance reached and its state must be those of TplSpec's machine")
    for tag, preds in (("space", None), ("random", None)):
        if tag == "space":
            preds = predict(c, "TplRun", 'Mode = "gen"', "space", invs=INVS)
            c.cov["program_space"] = len(preds)
            preds = preds if THOROUGH else c.rng.sample(preds, 400)
        else:
            preds = predict(c, "TplRun", 'Mode = "batch"', "random", progs=[rand_prog(c.rng) for _ in range(5000 if THOROUGH else 500)], invs=INVS)
        c.add("events_checked", sum(len(x["ev"]) for _, x in preds))
        items = [(render(i + 1, p, c.rng.randrange(1 << 30)), not x["ok"]) for i, (p, x) in enumerate(preds)]
        compare(c, tag, preds, items, HEADER, judge, bundle=10)
    c.finish()


if __name__ == "__main__":
    main_guard(run)
