"""C19: calls through every callee form, against CallSpec.tla: each body reports its receiver and parameters on entry
and on leaving, the final cells are compared."""
import os, random, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

HEADER = 'import "alusus_spp";\ndef printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];\ndef fflush: @expname[fflush] function (p: Int[64])=>Int;\n'
NV, NO = 4, 4
OPS = ["+", "-", "*", "/", "%", "&", "|", "==", "<", ">=", "<<", "!="]
METHODS = ("meth", "tmeth", "get", "set", "opeq", "op", "paren", "asptr", "mfunc")
TY = {"i": "Int", "l": "Int[64]", "d": "Float[64]"}


def key(p):
    return json.dumps(p, sort_keys=True)


class Render:
    def __init__(self, n, p, x, seed=0):
        self.n, self.p, self.x = n, p, x
        self.B = p["bodies"]
        self.rng = random.Random(zlib.crc32(key(p).encode()) + seed)
        self.aliases = set()
        # how each slot is kept
        self.slot = [self.rng.choice(["var", "box", "arr"]) for _ in p["state"]["slots"]]

    def sig(self, b, this=False, types_only=False):
        ps = ["this: ref[K]"] if this else []
        ps += ["p%d: %s" % (i + 1, "ref[Int]" if q["ref"] else TY[q["t"]]) for i, q in enumerate(b["params"])]
        return ", ".join(ps)

    def ret(self, b):
        return {"sum": "Int", "ref": "ref[Int]", "this": "ref[K]", "none": ""}[b["ret"]["k"]]

    def colon(self, b):
        return ": " + self.ret(b) if self.ret(b) else ""

    def args(self, b, a):
        return ", ".join(self.expr(x) for x in a)

    def recv(self, r, bare=False):
        k = r["k"]
        if k == "obj":
            return self.rng.choice({1: ["o1", "o1", "rk", "o1~ptr~cnt"], 2: ["o2", "o2", "h2", "h2.kr"], 3: ["oa(1)", "(oa(0)~ptr + 1)~cnt"], 4: ["h.k", "h", "h"]}[r["n"]])
        if k == "this":
            return "this"
        if k == "deref":
            return "q%d~cnt" % r["n"]
        if k == "pick":
            return "pick(%s)" % self.expr(r["a"][0])
        return self.expr(r)

    def expr(self, e):
        k = e["k"]
        if k == "lit":
            return str(e["n"]) if e["n"] >= 0 else "-%di32" % -e["n"]
        if k == "var":
            return self.rng.choice(["x%d", "x%d", "P%d.x%%d" % self.n]) % e["n"]
        if k == "par":
            return "p%d" % e["n"]
        if k == "fld":
            return self.recv(e["r"][0]) + ".n"
        if k == "plus":
            return "(%s + %d)" % (self.expr(e["a"][0]), e["n"])
        r = self.recv(e["r"][0]) if e["r"] else ""
        if k == "slot":
            s = self.p["slotsig"][e["n"] - 1]
            return {"var": "s%d", "box": "box.s%d", "arr": "sa%d(1)"}[self.slot[e["n"] - 1]] % e["n"] + "(%s)" % self.args(s, e["a"])
        if k == "mslot":
            return "%s.ms%d(%s)" % (r, e["n"], self.args(None, e["a"]))
        c = e["c"]
        b = self.B[c - 1]
        a = self.args(b, e["a"])
        f = b["form"]
        name = "f%d" % c
        if f in ("func", "late"):
            w = self.rng.choice(["", "", "q", "a"])
            if w == "q":
                name = "P%d.%s" % (self.n, name)
            elif w == "a":
                self.aliases.add(c)
                name = "a%d" % c
            return "%s(%s)" % (name, a)
        if f == "nested":
            return self.rng.choice(["N.", "P%d.N." % self.n]) + "%s(%s)" % (name, a)
        if f == "used":
            return "%s(%s)" % (name, a)
        if f == "shared":
            return "K.%s(%s)" % (name, a)
        if f == "tmpl":
            return "%s[%s](%s)" % (name, TY[self.tt(b)], a)
        if f == "pack":
            n = len(e["a"])
            return "%s({%s})" % (name, a) if self.rng.random() < 0.5 else "%s(%s)" % (name, ", ".join([str(n)] + ([a] if a else [])))
        if f in ("meth", "asptr", "mfunc"):
            return "%s.%s(%s)" % (r, name, a)
        if f == "tmeth":
            return "%s.%s[%s](%s)" % (r, name, TY[self.tt(b)], a)
        if f == "get":
            return "%s.%s" % (r, name)
        if f == "set":
            return "(%s.%s = %s)" % (r, name, a)
        if f == "opeq":
            return "(%s.%s %s= %s)" % (r, name, b["op"], a)
        if f == "op":
            return "(%s %s %s)" % (r, b["op"], a)
        if f == "paren":
            return "%s(%s)" % (r, a)
        raise CheckError(f)

    def tt(self, b):
        return next((q["t"] for q in b["params"] if not q["ref"]), "i")

    def report(self, c, at, b, this):
        fm, vs = ["%d"], ["this.n" if this else "0"]
        for i, q in enumerate(b["params"]):
            fm.append("%ld" if q["t"] == "l" and not q["ref"] else "%d")
            vs.append("p%d~cast[Int]" % (i + 1) if q["t"] == "d" and not q["ref"] else "p%d" % (i + 1))
        return 'printf("@ %d %d %d %s\\n", %s);' % (self.n, c, at, " ".join(fm), ", ".join(vs))

    def body(self, c):
        b = self.B[c - 1]
        this = b["form"] in METHODS
        s = [self.report(c, 1, b, this)]
        for q in b["eff"]:
            if q["e"] == "par":
                s.append("p%d += %d;" % (q["i"], q["n"]))
            elif q["e"] == "var":
                s.append("x%d += %d;" % (q["i"], q["n"]))
            elif q["e"] == "this":
                s.append("this.n += %d;" % q["n"])
            else:
                s.append(self.expr(q["x"][0]) + ";")
        s.append(self.report(c, 2, b, this))
        k = b["ret"]["k"]
        if k == "sum":
            s.append("return %s;" % " + ".join([str(b["ret"]["i"])] + ["p%d%s" % (i + 1, "~cast[Int]" if q["t"] != "i" else "") for i, q in enumerate(b["params"])]))
        elif k == "ref":
            s.append("return p%d;" % b["ret"]["i"])
        elif k == "this":
            s.append("return this;")
        return " ".join(s)

    def define(self, c):
        """-> (where, text)"""
        b = self.B[c - 1]
        f, name, body = b["form"], "f%d" % c, self.body(c)
        co = self.colon(b)
        if f in ("func", "late"):
            return "P", "func %s(%s)%s { %s };" % (name, self.sig(b), co, body)
        if f == "nested":
            return "N", "func %s(%s)%s { %s };" % (name, self.sig(b), co, body)
        if f == "used":
            return "U", "func %s(%s)%s { %s };" % (name, self.sig(b), co, body)
        if f == "shared":
            return "K", "func %s(%s)%s { %s };" % (name, self.sig(b), co, body)
        tsig = ", ".join("p%d: %s" % (i + 1, "ref[Int]" if q["ref"] else "T" if q["t"] == self.tt(b) else TY[q["t"]]) for i, q in enumerate(b["params"]))
        if f == "tmpl":
            return "P", "func %s [T: type] (%s)%s { %s };" % (name, tsig, co, body)
        if f == "pack":
            return "P", "func %s(cnt: Int, args: ...Int)%s { %s %s };" % (name, co, " ".join("def p%d: Int = args~next_arg[Int];" % (i + 1) for i in range(len(b["params"]))), body)
        if f == "meth":
            return "K", "handler this.%s(%s)%s { %s };" % (name, self.sig(b), co, body)
        if f == "asptr":
            return "K", "handler this.%s(%s)%s as_ptr { %s };" % (name, self.sig(b), co, body)
        if f == "mfunc":
            return "K", "@member function %s(%s)%s { %s };" % (name, self.sig(b, True), co, body)
        if f == "tmeth":
            return "K", "handler [T: type] this.%s(%s)%s { %s };" % (name, tsig, co, body)
        if f == "get":
            return "K", "handler this.%s%s { %s };" % (name, co, body)
        if f == "set":
            return "K", "handler this.%s = (%s)%s { %s };" % (name, self.sig(b), co, body)
        if f == "opeq":
            return "K", "handler this.%s %s= (%s)%s { %s };" % (name, b["op"], self.sig(b), co, body)
        if f == "op":
            return "K", "handler this %s (%s)%s { %s };" % (b["op"], self.sig(b), co, body)
        return "K", "handler this(%s)%s { %s };" % (self.sig(b), co, body)

    def address(self, c):
        b = self.B[c - 1]
        return {"func": "f%d", "late": "f%d", "nested": "N.f%d", "used": "f%d", "shared": "K.f%d", "mfunc": "K.f%d", "meth": "K.f%d"}[b["form"]] % c + "~ptr" if b["form"] != "tmpl" else "f%d[%s]~ptr" % (c, TY[self.tt(b)])

    def stmt(self, t):
        o = t["o"]
        if o == "do":
            return self.expr(t["x"][0]) + ";"
        if o == "print":
            return 'printf("@ %d 0 1 0 %%d\\n", %s~cast[Int]);' % (self.n, self.expr(t["x"][0]))
        if o == "set":
            return "%s = %s;" % (self.expr(t["l"][0]), self.expr(t["x"][0]))
        if o == "fp":
            return {"var": "s%d", "box": "box.s%d", "arr": "sa%d(1)"}[self.slot[t["i"] - 1]] % t["i"] + " = %s;" % self.address(t["n"])
        if o == "mp":
            return "%s.ms%d = %s;" % (self.recv({"k": "obj", "n": t["q"], "a": []}), t["i"], self.address(t["n"]))
        return "q%d = %s~ptr;" % (t["i"], {1: "o1", 2: "o2", 3: "oa(1)", 4: "h.k"}[t["n"]])

    def program(self):
        st = self.p["state"]
        main = ["oa(1)~init();"] if any(b["form"] == "asptr" for b in self.B) else []      # arrays do not initialize their elements
        main += ["o1.n = %d; o2.n = %d; oa(1).n = %d; h.k.n = %d; h2.kr~ptr = o2~ptr; rk~ptr = o1~ptr;" % tuple(st["cells"][NV:NV + NO])]
        main += ["x%d = %d;" % (i + 1, st["cells"][i]) for i in range(NV)]
        main += [self.stmt({"o": "fp", "i": i + 1, "n": c}) for i, c in enumerate(st["slots"])]
        for o in range(NO):
            for i, c in enumerate(st["mslots"][o]):
                main.append(self.stmt({"o": "mp", "i": i + 1, "n": c, "q": o + 1}))
        main += [self.stmt({"o": "q", "i": i + 1, "n": c}) for i, c in enumerate(st["qs"])]
        main += [self.stmt(t) for t in self.p["stmts"]]
        main.append('printf("@ %d cells %s\\n", %s, o1.n, o2.n, oa(1).n, h.k.n);' % (self.n, " ".join(["%d"] * (NV + NO)), ", ".join("x%d" % (i + 1) for i in range(NV))))
        at = {"P": [], "N": [], "U": [], "K": ["def n: Int;"]}
        for c in range(1, len(self.B) + 1):
            w, s = self.define(c)
            at[w].append(s)
        for i, s in enumerate(self.p["mslotsig"]):
            at["K"].append("def ms%d: ptr[@member function (%s)%s];" % (i + 1, self.sig(s, True), "=>" + self.ret(s) if self.ret(s) else ""))
        box, arrs = [], []
        for i, s in enumerate(self.p["slotsig"]):
            t = "ptr[function (%s)%s]" % (self.sig(s), "=>" + self.ret(s) if self.ret(s) else "")
            if self.slot[i] == "var":
                arrs.append("def s%d: %s;" % (i + 1, t))
            elif self.slot[i] == "box":
                box.append("def s%d: %s;" % (i + 1, t))
            else:
                arrs.append("def sa%d: array[%s, 2];" % (i + 1, t))
        self.rng.shuffle(at["K"])
        out = ["module P%d {" % self.n, "class K {\n%s\n};" % "\n".join(at["K"])]
        out.append("class H { def z: Int[64]; @injection def k: K; }; class H2 { @injection def kr: ref[K]; };")
        out.append("class Box { def z: Int; %s };" % " ".join(box))
        out.append("def o1: K; def o2: K; def oa: array[K, 2]; def h: H; def h2: H2; def rk: ref[K]; def q1: ptr[K]; def q2: ptr[K]; def box: Box;")
        out.append(" ".join("def x%d: Int;" % (i + 1) for i in range(NV)) + " " + " ".join(arrs))
        out.append('func pick(i: Int): ref[K] { printf("@ %d 0 0 0 %%d\\n", i); if (i & 1) == 0 return o1; return o2 };' % self.n)
        out.append("use U; module U { %s }; module N { %s };" % ("\n".join(at["U"]), "\n".join(at["N"])))
        out += at["P"]
        out += ["def a%d: alias f%d;" % (c, c) for c in sorted(self.aliases)]
        out.append("func main() {\n%s\n};\n};\nP%d.main();" % ("\n".join(main), self.n))
        return "\n".join(out) + "\n"


def judge(p, x, o):
    exp = [[str(t["f"]), str(t["at"]), str(t["th"])] + [str(v) for v in t["vals"]] for t in x["trace"]] + [["cells"] + [str(v) for v in x["cells"]]]
    if o.errors:
        return "rejected"
    if o.events != exp:
        k = next(i for i in range(max(len(exp), len(o.events)) + 1) if i >= len(exp) or i >= len(o.events) or exp[i] != o.events[i])
        return "event %d: expected %s, found %s" % (k + 1, exp[k] if k < len(exp) else "nothing", o.events[k] if k < len(o.events) else "nothing")
    return ""


# ---- generation

def E(k, n=0, c=0, a=(), r=()):
    return {"k": k, "n": n, "c": c, "a": list(a), "r": list(r)}


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.B = []
        self.slotsig, self.mslotsig, self.slotset, self.mslotset = [], [], [], []
        self.slots, self.mslots = [], []

    def recv(self, upto, env, d):
        r = self.rng.random()
        if env and env.get("this") and r < 0.35:
            return E("this")
        if r < 0.6:
            return E("obj", self.rng.randint(1, NO))
        if r < 0.7:
            return E("deref", self.rng.randint(1, 2))
        if r < 0.85 and d < 2:
            return E("pick", a=[self.val(upto, env, d + 1)])
        cs = [i for i, b in enumerate(self.B[:upto]) if b["ret"]["k"] == "this"]
        if cs and d < 2:
            return self.call(self.rng.choice(cs) + 1, upto, env, d + 1)
        return E("obj", self.rng.randint(1, NO))

    def call(self, c, upto, env, d):
        b = self.B[c - 1]
        a = [self.ref(upto, env, d + 1) if q["ref"] else self.val(upto, env, d + 1) for q in b["params"]]
        return E("call", c=c, a=a, r=[self.recv(upto, env, d + 1)] if b["form"] in METHODS else [])

    def anycall(self, upto, env, d, kinds):
        cs = [i + 1 for i, b in enumerate(self.B[:upto]) if b["ret"]["k"] in kinds]
        opts = [("call", c) for c in cs]
        if upto == len(self.B) and not env:
            opts += [("slot", i) for i, s in enumerate(self.slotsig) if s["ret"]["k"] in kinds] * 2
            opts += [("mslot", i) for i, s in enumerate(self.mslotsig) if s["ret"]["k"] in kinds] * 2
        if not opts:
            return None
        k, i = self.rng.choice(opts)
        if k == "call":
            return self.call(i, upto, env, d)
        s = (self.slotsig if k == "slot" else self.mslotsig)[i]
        a = [self.ref(upto, env, d + 1) if q["ref"] else self.val(upto, env, d + 1) for q in s["params"]]
        return E(k, n=i + 1, a=a, r=[self.recv(upto, env, d + 1)] if k == "mslot" else [])

    def val(self, upto, env, d):
        r = self.rng.random()
        if r < 0.3 or d > 3:
            return E("lit", self.rng.randint(-9, 99))
        if r < 0.45 and d < 3:
            e = self.anycall(upto, env, d + 1, ("sum", "ref"))
            if e:
                return e
        if r < 0.55:
            return E("plus", self.rng.randint(1, 9), a=[self.ref(upto, env, d + 1)])
        return self.ref(upto, env, d)

    def ref(self, upto, env, d):
        r = self.rng.random()
        if env and env["ints"] and r < 0.5:
            return E("par", self.rng.choice(env["ints"]))
        if r < 0.65 and d < 3:
            e = self.anycall(upto, env, d + 1, ("ref",))
            if e:
                return e
        if r < 0.8:
            return E("var", self.rng.randint(1, NV))
        return E("fld", r=[self.recv(upto, env, d + 1)])

    def body(self):
        rng = self.rng
        form = rng.choice(["func", "func", "nested", "used", "shared", "tmpl", "pack", "meth", "meth", "tmeth", "get", "set", "opeq", "op", "paren", "asptr", "mfunc"])
        meth = form in METHODS
        np = {"get": 0, "set": 1, "opeq": 1, "op": 1}.get(form, rng.randint(0, 3))
        if form == "pack":
            np = rng.randint(1, 4)
        params = [{"ref": form not in ("pack", "set") and rng.random() < 0.4, "t": "i"} for _ in range(np)]
        for q in params:
            if not q["ref"] and form not in ("pack", "set") and rng.random() < 0.3:
                q["t"] = rng.choice("ld")
        if form == "paren":
            used = {len(b["params"]) for b in self.B if b["form"] == "paren"}
            if np in used:
                return
        op = ""
        if form == "op":
            op = rng.choice(OPS)
            if op in [b["op"] for b in self.B if b["form"] == "op"]:
                return
        if form == "opeq":
            op = rng.choice(["+", "-", "*", "/", "%"])
        refs = [i + 1 for i, q in enumerate(params) if q["ref"]]
        kinds = ["sum", "sum"]
        if form not in ("set", "opeq", "op", "get"):
            kinds += ["none"] + (["ref"] * 2 if refs else []) + (["this"] * 2 if meth and form != "tmeth" else [])
        k = rng.choice(kinds)
        b = {"form": form, "op": op, "params": params, "eff": [], "ret": {"k": k, "i": rng.choice(refs) if k == "ref" else rng.randint(0, 50) if k == "sum" else 0}}
        n = len(self.B)
        env = {"this": meth, "ints": [i + 1 for i, q in enumerate(params) if q["t"] == "i"]}
        for _ in range(rng.randint(0, 3)):
            r = rng.random()
            if r < 0.4 and np:
                b["eff"].append({"e": "par", "i": rng.randint(1, np), "n": rng.randint(1, 9), "x": []})
            elif r < 0.6:
                b["eff"].append({"e": "var", "i": rng.randint(1, NV), "n": rng.randint(1, 9), "x": []})
            elif r < 0.8 and meth:
                b["eff"].append({"e": "this", "i": 0, "n": rng.randint(1, 9), "x": []})
            elif n and form != "asptr":      # the objects' own initialization would need them
                e = self.anycall(n, env, 2, ("sum", "ref", "none", "this"))
                if e:
                    b["eff"].append({"e": "do", "i": 0, "n": 0, "x": [e]})
        self.B.append(b)

    def prog(self, nstmts):
        rng = self.rng
        want = rng.randint(3, 9)
        while len(self.B) < want:
            self.body()
        same = {}
        for i, b in enumerate(self.B):
            if b["form"] in ("func", "nested", "used", "shared", "tmpl"):
                same.setdefault(("f", json.dumps([b["params"], b["ret"]["k"]])), []).append(i + 1)
            elif b["form"] in ("mfunc", "meth"):
                same.setdefault(("m", json.dumps([b["params"], b["ret"]["k"]])), []).append(i + 1)
        for (k, _), l in sorted(same.items()):
            if rng.random() < 0.8:
                # other bodies of the same signature, to have something to choose from
                if len(l) < 2:
                    s = self.B[l[0] - 1]
                    self.B.append({"form": rng.choice(["func", "nested", "shared"]) if k == "f" else "mfunc", "op": "", "params": s["params"], "eff": [],
                                   "ret": {"k": s["ret"]["k"], "i": s["ret"]["i"] + (7 if s["ret"]["k"] == "sum" else 0)}})
                    l.append(len(self.B))
                sig = {"params": self.B[l[0] - 1]["params"], "ret": self.B[l[0] - 1]["ret"]}
                (self.slotsig if k == "f" else self.mslotsig).append(sig)
                (self.slotset if k == "f" else self.mslotset).append(l)
        state = {"cells": [rng.randint(1, 60) for _ in range(NV + NO)], "slots": [rng.choice(l) for l in self.slotset],
                 "mslots": [[rng.choice(l) for l in self.mslotset] for _ in range(NO)], "qs": [rng.randint(1, NO) for _ in range(2)], "trace": []}
        stmts = []
        n = len(self.B)

        def S(o, **k):
            d = {"o": o, "x": [], "l": [], "i": 0, "n": 0, "q": 0}
            d.update(k)
            stmts.append(d)
        while len(stmts) < nstmts:
            r = rng.random()
            if r < 0.45:
                e = self.anycall(n, None, 0, ("sum", "ref", "none", "this"))
                if e:
                    S("do", x=[e])
            elif r < 0.6:
                S("print", x=[self.val(n, None, 0)])
            elif r < 0.75:
                S("set", x=[self.val(n, None, 1)], l=[self.ref(n, None, 1)])
            elif r < 0.84 and self.slotset:
                i = rng.randrange(len(self.slotset))
                S("fp", i=i + 1, n=rng.choice(self.slotset[i]))
            elif r < 0.92 and self.mslotset:
                i = rng.randrange(len(self.mslotset))
                S("mp", i=i + 1, n=rng.choice(self.mslotset[i]), q=rng.randint(1, NO))
            else:
                S("q", i=rng.randint(1, 2), n=rng.randint(1, NO))
        return {"bodies": self.B, "state": state, "stmts": stmts, "slotsig": self.slotsig, "mslotsig": self.mslotsig}


def small(p, x):
    """values stay far from the limits of the types"""
    return all(abs(v) < 10 ** 8 for t in x["trace"] for v in t["vals"]) and len(x["trace"]) < 400


def check():
    c = Check("C19", "model_checked+conformance")
    build_repo()
    invs = ["InvCells", "InvSlots", "InvNested"]

    def go(name, consts, progs, bundle, timeout=800, cap=None):
        extra = {key([q["bodies"], q["state"]]): (q["slotsig"], q["mslotsig"]) for q in progs}
        preds = predict(c, "CallRun", "Objs = %d\n%s" % (NV, consts), name, progs, invs, timeout=timeout, heap="12g", count=False)
        preds = [(p, x) for p, x in preds if small(p, x)]
        if cap and len(preds) > cap:
            c.cov["specified_" + name] = len(preds)
            preds = c.rng.sample(preds, cap)
        items = []
        for k, (p, x) in enumerate(preds):
            p["slotsig"], p["mslotsig"] = extra[key([p["bodies"], p["state"]])]
            items.append((Render(k + 1, p, x, k).program(), False))
        compare(c, name, preds, items, HEADER, judge, bundle=bundle)
    pools = [Gen(c.rng).prog(24) for _ in range(40 if THOROUGH else 10)]
    go("pairs", "Batched = FALSE\nMaxLen = 2", pools, 20, 3000, None if THOROUGH else 500)
    progs = [Gen(c.rng).prog(c.rng.randint(3, 12)) for _ in range(8000 if THOROUGH else 1500)]
    go("random", "Batched = TRUE\nMaxLen = 0", progs, 20, 3000)
    c.cov["bounds"] = "all pairs of statements of pools of 24 (sampled in quick), random programs of up to 12 statements over up to 14 bodies, 17 callee forms"
    c.finish()


if __name__ == "__main__":
    main_guard(check)
