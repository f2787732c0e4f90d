"""C11: macros and preprocess statements, against MacSpec.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

HEADER = """import "Spp"; import "Core/Data"; import "Srl/Map"; use Srl;
def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];
def fflush: @expname[fflush] function (p: Int[64])=>Int;
"""
PREC = {"add": 1, "sub": 1, "mul": 2}
SIGN = {"add": "+", "sub": "-", "mul": "*"}


def nd(k, s="", v=0, c=(), n="", z="", m=()):
    return {"k": k, "s": s, "n": n, "z": z, "v": v, "c": list(c), "m": list(m)}


class Render:
    def __init__(self, n, p):
        self.n, self.p = n, p

    def name(self, t):
        return "%s__%s__%s" % (t["s"], t["n"], t["z"]) if t["n"] else t["s"]

    def ex(self, t, least=0):
        k, c = t["k"], t["c"]
        if k == "num":
            return str(t["v"])
        if k == "chr":
            return "'%s'~cast[Int]" % t["s"]
        if k in ("id", "oid"):
            return self.name(t)
        if k == "str":
            return '"%s"' % ("%s{{%s}}%s" % (t["s"], t["n"], t["z"]) if t["n"] else t["s"])
        if k in PREC:
            r = "%s %s %s" % (self.ex(c[0], PREC[k]), SIGN[k], self.ex(c[1], PREC[k] + 1))
            return "(%s)" % r if PREC[k] < least else r
        if k == "call":
            return "%s(%s)" % (self.name(t), ", ".join(self.ex(x) for x in c))
        if k == "fget":
            return self.ex(c[0]) + "." + self.name(c[1])
        if k == "use":
            return "%s[%s]" % (self.name(t), ", ".join(self.any(x) for x in c))
        if k == "muse":
            return "%s.%s[%s]" % (self.ex(c[0]), self.name(t), ", ".join(self.any(x) for x in c[1:]))
        if k == "pre":
            return "preprocess { %s}" % self.nest(c)
        raise KeyError(k)

    def any(self, t):
        return self.ex(t) if t["k"] in ("num", "chr", "id", "oid", "str", "add", "sub", "mul", "call", "fget", "use", "muse", "pre") else self.st(t)

    def sts(self, l):
        return "".join(self.st(x) + "; " for x in l)

    def nest(self, l):
        """the statements of a preprocess; some of them also build a function the program doesn't use otherwise, whose own
        preprocess statement runs meanwhile: the program's meaning is the same"""
        r = [self.st(x) + "; " for x in l]
        if self.rng.random() < self.nested:
            self.helpers += 1
            h = "nested%d_%d" % (self.n, self.helpers)
            r.insert(self.rng.randint(0, len(r)), '%s(); ' % h if self.rng.random() < 0.3 else 'Spp.buildMgr.buildObjectFileForElement(%s~ast, "%s/nested.o", 0); ' % (h, WORK))
        return "".join(r)

    def st(self, t):
        k, c = t["k"], t["c"]
        if k == "def":
            return "def %s: Int(%s)" % (self.name(t), self.ex(c[0]))
        if k == "obj":
            return "def %s: %s" % (self.name(t), self.p["cls"][t["v"] - 1])
        if k == "asg":
            return "%s = %s" % (self.ex(c[0]), self.ex(c[1]))
        if k == "fset":
            return "%s.%s = %s" % (self.ex(c[0]), self.name(c[1]), self.ex(c[2]))
        if k == "out":
            return 'printf("@ %d o <%%s %%d\\n", %s, %s)' % (self.n, self.ex(c[0]), self.ex(c[1]))
        if k == "mark":
            return 'printf("@ %d m <%%s %%d\\n", %s, %s)' % (self.n, self.ex(c[0]), self.ex(c[1]))
        if k == "if":
            return "if %s != 0 %s else %s" % (self.ex(c[0]), self.any(c[1]), self.any(c[2]))
        if k == "blk":
            return "{ %s}" % self.sts(c)
        if k == "rep":
            return "if 1 == 1 { def kk: Int; for kk = 0, kk < %d, ++kk { %s}; }" % (t["v"], self.sts(c))
        if k == "ins":
            m = ""
            if t["m"]:
                v = {"int": lambda e: 'Core.Data.Ast.IntegerLiteral("%d")' % e["v"], "id": lambda e: 'Core.Data.Ast.Identifier("%s")' % e["t"],
                     "str": lambda e: 'Core.Data.Ast.StringLiteral("%s")' % e["t"], "tstr": lambda e: 'Core.Basic.TiStr("%s")' % e["t"],
                     "tint": lambda e: "Core.Basic.TiInt(%d)" % e["v"], "loop": lambda e: "Core.Basic.TiInt(kk)"}
                m = ", Map[String, ref[Core.Basic.TiObject]]()" + "".join('.set(String("%s"), %s)' % (e["s"], v[e["k"]](e)) for e in t["m"])
            return "Spp.astMgr.insertAst(%sast %s%s)" % ("@no_preprocess " if t["v"] else "", self.any(c[0]) if c[0]["k"] == "blk" else "{ %s}" % self.sts(c), m)
        if k == "func":
            return "func %s(%s): Int { %sreturn %s; }" % (self.name(t), ", ".join(self.name(x) + ": Int" for x in c[:-2]), self.sts(c[-2]["c"]), self.ex(c[-1]))
        if k == "class":
            return "class %s { %s%s}" % (t["s"], self.sts(c), "".join(
                "@member " + self.macro(m) for m in self.p["macs"] if m["cls"] == t["s"]))
        if k == "fld":
            return "def %s: Int" % self.name(t)
        return self.ex(t)

    def macro(self, m):
        return "macro %s %s%s;\n" % (m["name"], "[%s] " % ", ".join(m["params"]) if m["params"] else "", self.any(m["body"]))

    def program(self, rng):
        self.rng, self.nested, self.helpers = rng, rng.choice([0, 0, 0.4]), 0
        macs = [self.macro(m) for m in self.p["macs"] if not m["cls"]]
        tops = [self.st(t) + ";\n" for t in self.p["tops"]]
        macs = ["func nested%d_%d() { preprocess { Spp.astMgr.insertAst(ast { def n: Int }); Spp.astMgr.insertAst(ast { n = 1 }) } };\n"
                % (self.n, i + 1) for i in range(self.helpers)] + macs
        k = rng.randint(0, len(tops)) if not any(t["k"] in ("use", "pre") for t in self.p["tops"]) else 0
        return "module P%d {\n%s};\nP%d.main();\n" % (self.n, "".join(tops[:k] + macs + tops[k:]), self.n)


VARS = ["x", "y", "x1", "y1", "vx", "a", "b"]
PNAMES = ["a", "b", "c", "x"]


def calls(l):
    return any(t["k"] == "call" or calls(t["c"]) for t in l)


class Gen:
    """kinds of macro parameters: e expression, v variable name, w text (a name or a string), s statement, m macro of one
    expression, n a name to define, o an object"""
    def __init__(self, rng):
        self.r = rng
        self.macs = []        # (name, param kinds, result kind: e/s/t/f, class)
        self.funcs = []       # (name, number of parameters)
        self.cls = ["K"] if rng.random() < 0.3 else []
        self.fields = ["f1", "f2"]
        self.serial = 0

    def tag(self):
        self.serial += 1
        return "t%d" % self.serial

    def pick(self, *w):
        return self.r.choices([a for a, _ in w], [b for _, b in w])[0]

    # ctx: vars, pars {name: kind}, pre (inside a pre: only numbers and calls), objs, calls (allowed)
    def expr(self, ctx, d):
        r = self.r
        o = [("num", 3)]
        if ctx["vars"]:
            o.append(("var", 6))
        ep = [p for p, k in ctx["pars"].items() if k == "e"]
        vp = [p for p, k in ctx["pars"].items() if k == "v"]
        mp = [p for p, k in ctx["pars"].items() if k == "m"]
        op = [p for p, k in ctx["pars"].items() if k == "o"]
        if ep:
            o.append(("par", 10))
        if vp:
            o += [("vpar", 4), ("tpl", 3)]
        if ctx["objs"] or op:
            o.append(("fget", 3))
        if d > 0:
            o.append(("bin", 8))
            if [m for m in self.macs if m[2] == "e" and not m[3]] and not ctx.get("nouse"):
                o.append(("use", 7))
            if mp:
                o.append(("hm", 6))
            if ctx["objs"] and [m for m in self.macs if m[2] == "e" and m[3]]:
                o.append(("muse", 5))
            if self.funcs and ctx["calls"]:
                o.append(("call", 4))
            if ctx.get("prex"):
                o.append(("pre", 1.5))
        o.append(("chr", 0.3))
        k = self.pick(*o)
        if k == "num":
            return nd("num", v=r.randint(0, 9))
        if k == "chr":
            c = r.choice("abcx")
            return nd("chr", c, ord(c))
        if k == "var":
            return nd("id", r.choice(ctx["vars"]))
        if k == "par":
            return nd("id", r.choice(ep))
        if k == "vpar":
            return nd("id", r.choice(vp))
        if k == "tpl":
            return nd("id", r.choice(["", "", "v"]), n=r.choice(vp), z=r.choice(["1", "", "1"])) if r.random() < 0.95 else nd("id", "", n="q", z="1")
        if k == "fget":
            return nd("fget", c=[nd("id", r.choice(op)) if op else nd("oid", r.choice(ctx["objs"]), 1), nd("id", r.choice(self.fields))])
        if k == "bin":
            return nd(r.choice(["add", "sub", "mul"]), c=[self.expr(ctx, d - 1), self.expr(ctx, d - 1)])
        if k == "use":
            m = r.choice([m for m in self.macs if m[2] == "e" and not m[3]])
            return nd("use", m[0], c=self.args(ctx, m, d - 1))
        if k == "muse":
            m = r.choice([m for m in self.macs if m[2] == "e" and m[3]])
            return nd("muse", m[0], c=[nd("oid", r.choice(ctx["objs"]), 1)] + self.args(ctx, m, d - 1)[1:])
        if k == "hm":
            return nd("use", r.choice(mp), c=[self.expr(ctx, d - 1)])
        if k == "call":
            f = r.choice(self.funcs)
            return nd("call", f[0], c=[self.expr(ctx, d - 1) for _ in range(f[1])])
        return self.pre(ctx, d - 1, "e")

    def text(self, ctx):
        r = self.r
        wp = [p for p, k in ctx["pars"].items() if k in "vwn"]
        if wp and r.random() < 0.6:
            return nd("str", r.choice(["", "p", "a"]), n=r.choice(wp), z=r.choice(["", "z", "{{a}}"]))
        return nd("str", r.choice(["a", "b", "q", "x", "k"]) if r.random() < 0.9 else "", n=r.choice(["", "", "", "d"]))

    def args(self, ctx, m, d):
        r = self.r
        res = []
        for k in m[1]:
            if r.random() < 0.03:
                k = r.choice("evw")
            same = [p for p, q in ctx["pars"].items() if q == k]
            if k == "e":
                res.append(self.expr(ctx, d))
            elif k in "vw":
                if same and r.random() < 0.6:
                    res.append(nd("id", r.choice(same)))
                elif k == "w" and r.random() < 0.5:
                    res.append(self.text(ctx))
                else:
                    vs = [v for v in ctx["vars"] if len(v) == 1] or ["x"]
                    res.append(nd("id", r.choice(vs)))
            elif k == "s":
                res.append(nd("id", r.choice(same)) if same and r.random() < 0.4 else self.plain(self.stmt(ctx, max(d - 1, 0))) if r.random() < 0.6 else
                           nd("blk", c=[self.stmt(ctx, max(d - 1, 0)) for _ in range(r.randint(1, 2))]))
            elif k == "m":
                c = [q[0] for q in self.macs if q[1] == ["e"] and q[2] == "e" and not q[3]]
                res.append(nd("id", r.choice(same)) if same and (r.random() < 0.5 or not c) else nd("id", r.choice(c) if c else "nomac"))
            elif k == "n":
                res.append(nd("id", r.choice(same)) if same and r.random() < 0.5 else nd("id", self.fresh()))
            elif k == "o":
                res.append(nd("oid", r.choice(ctx["objs"]), 1) if ctx["objs"] else nd("id", r.choice(same)) if same else nd("num", v=1))
        return res

    def fresh(self):
        self.serial += 1
        return "w%d" % self.serial

    def pre(self, ctx, d, kind):
        """a preprocess statement; kind: what it inserts (e one expression, s statements, t top level, f fields)"""
        r = self.r
        pc = dict(ctx, vars=[], objs=[], prex=False, pre=True, pars={p: k for p, k in ctx["pars"].items() if k in "vwn"}, nouse=False)
        mk = dict(pc, pars={p: k for p, k in pc["pars"].items() if k != "v"}, calls=ctx["calls"] and kind in "es", nouse=r.random() < 0.8)

        def mark():
            return nd("mark", c=[self.text(mk) if ctx["pars"] else nd("str", self.tag()), self.expr(mk, 1)])

        def ins(loop):
            names = r.sample(["a", "b", "c"], r.randint(0, 2)) if r.random() < 0.6 else []
            m, pars = [], {}
            for q in names:
                k = r.choice(["int", "tint", "id", "id", "str", "tstr"] + (["loop"] * 4 if loop else []))
                if kind in "tf":
                    k = r.choice(["id", "tstr"])
                t = self.fresh() if kind in "tf" else r.choice(ctx["vars"] or ["x"]) if k == "id" else r.choice(["x", "b", "hh"])
                m.append({"s": q, "k": k, "t": t, "v": r.randint(0, 9)})
                pars[q] = {"int": "e", "tint": "e", "loop": "e", "id": "v", "str": "w", "tstr": "w"}[k] if kind not in "tf" else "n"
            # an ast inserted several times must not define names
            ic = dict(ctx, pars=dict({p: k for p, k in ctx["pars"].items()}, **pars), prex=ctx.get("prex") and d > 0, loop=loop)
            if kind == "e":
                t = self.expr(dict(ic, calls=ctx["calls"]), d)
            elif kind == "s":
                t = nd("blk", c=[self.stmt(ic, d) for _ in range(r.randint(1, 2))]) if r.random() < 0.6 else self.stmt(ic, d)
            elif kind == "t":
                t = self.func(ic, True)
            else:
                t = self.field(ic)
            return nd("ins", v=int(r.random() < 0.4), c=[t], m=m)
        body = [mark()] if r.random() < 0.9 else []
        if kind == "e":
            body.append(ins(False))
        else:
            for _ in range(r.randint(0, 2)):
                w = self.pick(("ins", 5), ("mark", 2), ("rep", 2 if kind == "s" else 0), ("pre", 1 if d > 0 and kind == "s" else 0))
                if w == "rep":
                    c = [ins(True)] + ([mark()] if r.random() < 0.5 else [])
                    body.append(nd("rep", v=r.randint(int(calls(c)), 3), c=c))
                elif w == "pre":
                    body.append(nd("pre", c=[mark(), nd("ins", v=0, c=[mark()])]))
                else:
                    body.append(ins(False) if w == "ins" else mark())
        return nd("pre", c=body or [mark()])

    def stmt(self, ctx, d):
        r = self.r
        sp = [p for p, k in ctx["pars"].items() if k == "s"]
        vp = [p for p, k in ctx["pars"].items() if k == "v"]
        np = [p for p, k in ctx["pars"].items() if k == "n"]
        op = [p for p, k in ctx["pars"].items() if k == "o"]
        o = [("out", 6)] if ctx["outs"] else [("asg", 3)]
        if ctx["vars"] or vp:
            o.append(("asg", 3))
        if sp:
            o.append(("spar", 5))
        if np and not ctx.get("loop"):
            o.append(("def", 6))
        if d > 0:
            o += [("if", 2), ("blk", 1.5)]
            if ctx["outs"] and [m for m in self.macs if m[2] == "s" and not m[3]]:
                o.append(("use", 6))
            if ctx["outs"] and ctx["objs"] and [m for m in self.macs if m[2] == "s" and m[3]]:
                o.append(("muse", 4))
            if ctx.get("prex") and not ctx.get("inif"):
                o.append(("pre", 4))
        if ctx["objs"] or op:
            o.append(("fset", 2))
        k = self.pick(*o)
        e = self.expr(ctx, d)
        if k == "out":
            return nd("out", c=[self.text(ctx) if r.random() < 0.7 else nd("str", self.tag()), e])
        if k == "asg":
            if vp and r.random() < 0.5:
                return nd("asg", c=[nd("id", r.choice(vp)) if r.random() < 0.6 else nd("id", "", n=r.choice(vp), z="1"), e])
            return nd("asg", c=[nd("id", r.choice(ctx["vars"] or ["x"])), e])
        if k == "spar":
            return nd("id", r.choice(sp))
        if k == "def":
            p = r.choice(np)
            return nd("def", "" if r.random() < 0.4 else "d", c=[e], n=p, z=r.choice(["1", "2", ""])) if r.random() < 0.7 else nd("def", p, c=[e])
        if k == "if":
            ic = dict(ctx, inif=True)
            return nd("if", c=[e, nd("blk", c=[self.stmt(ic, d - 1)]) if r.random() < 0.6 or not ctx["outs"] or not [m for m in self.macs if m[2] == "s" and not m[3]] else
                               self.use(ctx, "s", d), nd("blk", c=[self.stmt(ic, d - 1) for _ in range(r.randint(1, 2))])])
        if k == "blk":
            l = self.fresh() if r.random() < 0.3 else ""
            b = [nd("def", l, c=[e])] if l else []
            ic = dict(ctx, vars=ctx["vars"] + [l] if l else ctx["vars"])
            return nd("blk", c=b + [self.stmt(ic, d - 1) for _ in range(r.randint(1, 2))])
        if k == "use":
            return self.use(ctx, "s", d)
        if k == "muse":
            m = r.choice([m for m in self.macs if m[2] == "s" and m[3]])
            return nd("muse", m[0], c=[nd("oid", r.choice(ctx["objs"]), 1)] + self.args(ctx, m, d - 1)[1:])
        if k == "pre":
            return self.pre(ctx, d - 1, "s")
        return nd("fset", c=[nd("id", r.choice(op)) if op else nd("oid", r.choice(ctx["objs"]), 1), nd("id", r.choice(self.fields)), e])

    def plain(self, t):
        """something that can be written without a block"""
        return nd("blk", c=[t]) if t["k"] in ("if", "def", "pre") else t

    def use(self, ctx, kind, d):
        m = self.r.choice([m for m in self.macs if m[2] == kind and not m[3]])
        return nd("use", m[0], c=self.args(ctx, m, d - 1))

    def field(self, ctx):
        np = [p for p, k in ctx["pars"].items() if k in "n"]
        if np and self.r.random() < 0.8:
            return nd("fld", "", n=self.r.choice(np), z="f") if self.r.random() < 0.5 else nd("fld", self.r.choice(np))
        return nd("fld", self.fresh())

    def func(self, ctx, inserted=False):
        """a function; inside a macro or an inserted ast its names may come from parameters"""
        r = self.r
        np = [p for p, k in ctx["pars"].items() if k == "n"]
        w = r.choice(np) if np else ""
        self.serial += 1
        known = "h%d" % self.serial
        ps, vs = [], []
        for j in range(r.randint(0, 2)):
            if len(np) > 1 and r.random() < 0.5:
                q = r.choice([x for x in np if x != w] or np)
                ps.append(nd("par", "", n=q, z=str(j)) if r.random() < 0.6 else nd("par", q))
                vs.append(ps[-1])
            else:
                ps.append(nd("par", "p%d" % j))
                vs.append(ps[-1])
        if len({json.dumps(q) for q in ps}) < len(ps):
            ps = ps[:1]
        fc = dict(ctx, vars=[q["s"] for q in ps if not q["n"]], objs=[], outs=False, calls=False, prex=not inserted,
                  pars={p: k for p, k in ctx["pars"].items() if k in "ewn"}, loop=True)
        body = [nd("def", "l", c=[self.expr(fc, 1)])]
        fc["vars"] = fc["vars"] + ["l"]
        if r.random() < 0.5 and not inserted:
            body.append(self.pre(dict(fc, prex=False), 1, "s"))
        if r.random() < 0.5:
            body.append(nd("asg", c=[nd("id", "l"), self.expr(fc, 2)]))
        ret = self.expr(fc, 1)
        for q in ps:
            if q["n"] and r.random() < 0.7:
                ret = nd("sub", c=[nd("id", q["s"], n=q["n"], z=q["z"]), ret])
        f = nd("func", known, c=ps + [nd("blk", c=body), ret])
        if w:
            f["s"] = r.choice(["", "g"])
            f["n"], f["z"] = w, "f"
        return f

    def program(self):
        r = self.r
        macs = []
        for i in range(r.randint(1, 5)):
            kind = self.pick(("e", 5), ("s", 5), ("t", 1), ("f", 0.6 if self.cls else 0))
            cls = "K" if self.cls and kind in "es" and r.random() < 0.3 else ""
            np = r.randint(0, 3)
            kinds = [self.pick(*({"e": (("e", 6), ("v", 3), ("m", 1), ("w", 0)), "s": (("e", 4), ("v", 3), ("w", 2), ("s", 3), ("m", 1), ("n", 1)),
                                  "t": (("n", 1),), "f": (("n", 1),)}[kind])) for _ in range(np)]
            if kind in "tf" and not kinds:
                kinds = ["n"]
            if cls:
                kinds = ["o"] + kinds
            params = (["self"] if cls else []) + r.sample(PNAMES, len(kinds) - (1 if cls else 0))
            name = "m%d" % (i + 1)
            if macs and r.random() < 0.15:
                q = r.choice(macs)
                if not any(w["name"] == q["name"] and len(w["params"]) == len(params) for w in macs) and not q["cls"] and not cls and \
                        all(w[2] == kind for w in self.macs if w[0] == q["name"]):
                    name = q["name"]
            free = [] if r.random() < 0.7 else ["x", "y"]
            ctx = {"vars": [v for v in free if v not in params], "pars": dict(zip(params, kinds)), "objs": [], "calls": False, "outs": True, "prex": True}
            if kind == "e":
                body = self.expr(ctx, 2)
            elif kind == "s":
                body = nd("blk", c=[self.stmt(ctx, 2) for _ in range(r.randint(1, 3))]) if r.random() < 0.9 else self.plain(self.stmt(ctx, 2))
            elif kind == "t":
                body = nd("blk", c=[self.func(ctx)] + ([self.func(ctx)] if r.random() < 0.2 else []))
            else:
                body = nd("blk", c=[self.field(ctx) for _ in range(r.randint(1, 2))])
            macs.append({"name": name, "params": params, "cls": cls, "body": body})
            self.macs.append((name, kinds, kind, cls))
        tops = []
        base = {"vars": [], "pars": {}, "objs": [], "calls": True, "outs": True, "prex": True}
        for _ in range(r.randint(0, 2)):
            w = self.pick(("func", 4), ("use", 3 if [m for m in self.macs if m[2] == "t"] else 0), ("pre", 2))
            if w == "func":
                f = self.func(base)
                tops.append(f)
                self.funcs.append((f["s"], len(f["c"]) - 2))
            elif w == "use":
                m = r.choice([m for m in self.macs if m[2] == "t"])
                u = nd("use", m[0], c=[nd("id", self.fresh()) for _ in m[1]])
                tops.append(u)
                b = next(q for q in macs if q["name"] == m[0] and len(q["params"]) == len(m[1]))
                for f in b["body"]["c"]:
                    nm = f["s"]
                    if f["n"]:
                        nm = f["s"] + u["c"][b["params"].index(f["n"])]["s"] + f["z"]
                    self.funcs.append((nm, len(f["c"]) - 2))
            else:
                t = self.pre(dict(base, calls=False), 1, "t")
                tops.append(t)
                for i in t["c"]:
                    if i["k"] == "ins" and i["c"][0]["k"] == "func":
                        f = i["c"][0]
                        mm = {e["s"]: e["t"] for e in i["m"]}
                        self.funcs.append((f["s"] + mm.get(f["n"], "?") + f["z"] if f["n"] else f["s"], len(f["c"]) - 2))
        for k in self.cls:
            c = [nd("fld", "f1"), nd("fld", "f2")]
            if r.random() < 0.5:
                c.append(self.pre(dict(base, calls=False), 1, "f"))
            if [m for m in self.macs if m[2] == "f"] and r.random() < 0.7:
                m = r.choice([m for m in self.macs if m[2] == "f"])
                c.append(nd("use", m[0], c=[nd("id", self.fresh()) for _ in m[1]]))
            r.shuffle(c)
            tops.append(nd("class", k, c=c))
        vs = ["x", "y", "x1", "y1"] + [v for v in ["vx", "vy", "a", "a1", "b"] if r.random() < 0.7]
        body = [nd("def", v, c=[nd("num", v=r.randint(1, 9))]) for v in vs]
        objs = []
        if self.cls:
            objs = ["o1"] + (["o2"] if r.random() < 0.4 else [])
            body += [nd("obj", o, 1) for o in objs]
            body += [nd("fset", c=[nd("oid", o, 1), nd("id", f), nd("num", v=r.randint(1, 9))]) for o in objs for f in self.fields]
        ctx = {"vars": vs, "pars": {}, "objs": objs, "calls": True, "outs": True, "prex": True}
        body += [self.stmt(ctx, 3) for _ in range(r.randint(2, 5))]
        tops.append(nd("func", "main", c=[nd("blk", c=body), nd("num")]))
        if r.random() < 0.5 and not any(t["k"] in ("pre", "use") for t in tops):
            r.shuffle(tops)
        return {"cls": self.cls, "macs": macs, "tops": tops}


def size(t):
    return 1 + sum(size(x) for x in t["c"])


def rand_progs(rng, n):
    res = []
    while len(res) < n:
        p = Gen(rng).program()
        if sum(size(m["body"]) for m in p["macs"]) + sum(size(t) for t in p["tops"]) < 220:
            res.append(p)
    return res


def marks_ok(logs, seen):
    """seen is an interleaving of the logs of the units in which the top level comes first and the units a pre calls come
    before it"""
    units = [x["u"] for x in logs]
    ls = [[(e["s"], str(e["v"]), e["d"]) for e in x["log"]] for x in logs]
    if sum(map(len, ls)) != len(seen):
        return False
    front = {tuple([0] * len(ls))}
    for m in seen:
        nxt = set()
        for f in front:
            for i, l in enumerate(ls):
                if f[i] < len(l) and l[f[i]][:2] == m and (units[i] == "" or f[0] == len(ls[0])) and all(
                        f[units.index(d)] == len(ls[units.index(d)]) for d in l[f[i]][2] if d in units):
                    nxt.add(f[:i] + (f[i] + 1,) + f[i + 1:])
        front = nxt
        if not front:
            return False
    return True


def judge(p, x, o):
    if not x["ok"]:
        return "" if o.errors and not any(e[:1] == ["o"] for e in o.events) else "accepted although it is invalid"
    if o.errors:
        return "rejected: %s" % o.errors
    ev = [(e[0], e[1][1:] if len(e) > 1 else "", e[2] if len(e) > 2 else "") for e in o.events]
    outs = [e[1:] for e in ev if e[0] == "o"]
    want = [(e["s"], str(e["v"])) for e in x["out"]]
    if outs != want:
        k = next((i for i, (a, b) in enumerate(zip(outs, want)) if a != b), min(len(outs), len(want)))
        return "output %d: %s, not %s" % (k, (outs[k:] or ["none"])[0], (want[k:] or ["none"])[0])
    first = next((i for i, e in enumerate(ev) if e[0] == "o"), len(ev))
    marks = [e[1:] for e in ev if e[0] == "m"]
    if any(e[0] == "m" for e in ev[first:]):
        return "a preprocess statement ran after the program started"
    if not marks_ok(x["logs"], marks):
        return "preprocess statements printed %s, not an order of %s" % (marks, [(y["u"], [(e["s"], e["v"]) for e in y["log"]]) for y in x["logs"]])
    return ""


INVS = ("InvOnce", "InvReady", "InvConforms", "Report")


def run():
    build_repo()
    c = Check("C11")
    c.cov["rule"] = ("MacRun's space (two macros with every pair of bodies, one use with every pair of arguments) and seeded random programs "
                     "(expression, statement, function, field and member macros, templates, preprocess statements with loops, nested and delayed "
                     "insertions and interpolation maps): the expanded program and the marks printed while processing must be those of MacSpec")
    for tag, preds in (("space", None), ("random", None)):
        if tag == "space":
            preds = predict(c, "MacRun", 'Mode = "gen"', "space", invs=INVS)
            c.cov["program_space"] = len(preds)
            preds = preds if THOROUGH else c.rng.sample(preds, 500)
        else:
            preds = predict(c, "MacRun", 'Mode = "batch"', "random", progs=rand_progs(c.rng, 4000 if THOROUGH else 300), invs=INVS)
        n = len(preds)
        preds = [(p, x) for p, x in preds if not x["skip"]]
        c.add("not_predicted", n - len(preds))
        c.add("events_checked", sum(len(x["out"]) + sum(len(y["log"]) for y in x["logs"]) for _, x in preds))
        items = [(Render(i + 1, p).program(random.Random(c.rng.randrange(1 << 30))), not x["ok"]) for i, (p, x) in enumerate(preds)]
        compare(c, tag, preds, items, HEADER, judge, bundle=40, reject_bundle=30)
    c.finish()


if __name__ == "__main__":
    main_guard(run)
