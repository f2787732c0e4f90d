"""Programs for spec/Exec.tla: random generation, rendering to Alusus, trace parsing."""
import json, random, zlib

PRELUDE = '''import "alusus_spp";
def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];
def fflush: @expname[fflush] function (f: ptr)=>Int[32];
def ser: Int = 0;
func ev(k: Int, c: Int, s: Int, a: Int) { printf("%c %d %d %d\\n", k, c, s, a); }
func t(n: Int, r: Int): Int { ev(69, n, 0, 0); return r; }
'''


class Prog:
    """Flat-node program: nodes are 1-based; fields as in Exec.tla."""

    def __init__(self):
        self.nodes, self.fns, self.classes, self.main = [], [], [], 0

    def n(self, **kw):
        self.nodes.append(kw)
        return len(self.nodes)

    def data(self, obs, trunc):
        return {"nodes": self.nodes, "fns": self.fns, "classes": self.classes, "main": self.main,
                "obs": obs, "trunc": 1 if trunc else 0}


class Gen:
    """objs: probability weight of object features (0 = control flow only)."""

    def __init__(self, rng, objs=0.5, size=40, maxfn=4):
        self.r, self.objs, self.size, self.maxfn = rng, objs, size, maxfn
        self.p = Prog()
        self.nev = 0
        self.nvar = 0

    # ---------------------------------------------------------------- classes and functions
    def program(self):
        r, p = self.r, self.p
        if self.objs > 0:
            for i in range(r.randint(1, 4)):
                ms = []
                if i > 0:
                    for _ in range(r.choice([0, 1, 1, 2, 3])):
                        c = r.randint(1, i)
                        how = 1 if (p.classes[c - 1]["own"] and r.random() < .5) else 0
                        ms.append({"c": c, "how": how, "v": r.randint(1, 9)})
                own = 1 if (i == 0 or not ms or r.random() < .8) else 0
                p.classes.append({"own": own, "members": ms})
        nf = r.randint(1, self.maxfn)
        for f in range(nf):
            self.function(f + 1, f == nf - 1)
        p.main = nf
        return p

    def owncls(self):
        return self.r.choice([i + 1 for i, c in enumerate(self.p.classes) if c["own"]])

    def function(self, idx, main):
        r = self.r
        f = {"x": "main" if main else "f%d" % idx, "params": [], "ret": "void", "c": 0, "body": 0, "rec": ""}
        self.ints, self.objv, self.loops, self.depth = [], [], 0, 0
        self.frozen = set()
        self.left = self.size if main else r.randint(4, max(5, self.size // 2))
        if not main:
            f["ret"] = r.choice(["void", "int", "int", "obj", "ref"]) if self.objs > r.random() else r.choice(["void", "int"])
            if r.random() < .25:
                f["params"].append({"x": "n", "t": "int", "c": 0})
                f["rec"] = "n"
            for i in range(r.randint(0, 3)):
                k = "int"
                if r.random() < self.objs:
                    k = r.choice(["val", "val", "ref"])
                f["params"].append({"x": "a%d" % i, "t": k, "c": self.owncls() if k != "int" else 0})
            if f["ret"] == "ref":
                c = self.owncls()
                f["params"].append({"x": "z", "t": "ref", "c": c})
                f["c"] = c
            if f["ret"] == "obj":
                f["c"] = self.owncls()
        for q in f["params"]:
            if q["t"] == "int":
                self.ints.append(q["x"])
                if q["x"] == "n":
                    self.frozen.add("n")
            else:
                self.objv.append((q["x"], q["c"]))
        self.f = f
        self.p.fns.append(f)
        self.idx = idx
        f["body"] = self.stmts(r.randint(2, 7), top=True)
        self.fixret(f)

    def fixret(self, f):
        body = self.p.nodes[f["body"] - 1]
        if f["ret"] == "void":
            return
        if not (body["l"] and self.terminal(body["l"][-1])):
            body["l"].append(self.ret())

    def terminal(self, s):
        n = self.p.nodes[s - 1]
        k = n["k"]
        if k in ("ret", "break", "continue"):
            return True
        if k == "block":
            return bool(n["l"]) and self.terminal(n["l"][-1])
        if k == "if":
            return n["b"] != 0 and self.terminal(n["a"]) and self.terminal(n["b"])
        return False

    # ---------------------------------------------------------------- statements
    def stmts(self, count, top=False):
        ints, objv = list(self.ints), list(self.objv)
        l = []
        for _ in range(count):
            if self.left <= 0 and l:
                break
            s = self.stmt()
            l.append(s)
            if self.terminal(s):
                break
        if not top:
            self.ints, self.objv = ints, objv
        self.lastscope = (self.ints, self.objv)
        return self.p.n(k="block", l=l)

    def body(self):
        """a body of if/while/for: a block or a single (non-def) statement"""
        self.depth += 1
        if self.r.random() < .25:
            s = self.stmt(nodef=True)
        else:
            s = self.stmts(self.r.randint(1, 4))
        self.depth -= 1
        return s

    def ev(self):
        self.nev += 1
        return self.nev

    def newvar(self, pre):
        self.nvar += 1
        return "%s%d" % (pre, self.nvar)

    def stmt(self, nodef=False):
        r = self.r
        self.left -= 1
        opts = [("ev", 3), ("expr", 3), ("assign", 3)]
        if not nodef:
            opts += [("defi", 2)]
            if self.objs:
                opts += [("defo", 6 * self.objs)]
        if self.objs:
            opts += [("oexpr", 5 * self.objs)]
        if self.depth < 4 and self.left > 0:
            opts += [("if", 4), ("while", 2), ("for", 2), ("block", 1)]
        if self.loops and self.depth > 0:
            opts += [("break", 2), ("continue", 2)]
        if self.depth > 0:
            opts += [("ret", 1.2)]
        if self.f["rec"] and self.depth < 3:
            opts += [("rec", 3)]
        k = r.choices([o[0] for o in opts], [o[1] for o in opts])[0]
        p = self.p
        if k == "ev":
            return p.n(k="ev", n=self.ev())
        if k == "expr":
            return p.n(k="expr", e=self.iexpr(2))
        if k == "assign":
            vs = [v for v in self.ints if v not in self.frozen]
            if not vs:
                return p.n(k="ev", n=self.ev())
            x = r.choice(vs)
            if r.random() < .3:
                return p.n(k="expr", e=p.n(k="inc", x=x, d=r.choice([1, -1]), post=r.randint(0, 1)))
            op = r.choice(["=", "=", "+", "-"])
            return p.n(k="expr", e=p.n(k="asg", op=op, x=x, e=self.iexpr(2)))
        if k == "defi":
            e = self.iexpr(2)
            x = self.newvar("i")
            s = p.n(k="defi", x=x, e=e)
            self.ints = self.ints + [x]
            return s
        if k == "defo":
            x = self.newvar("o")
            c = r.randint(1, len(p.classes))
            if not p.classes[c - 1]["own"]:
                s = p.n(k="defo", x=x, c=c, how=0, e=0)
                self.objv = self.objv + [(x, c)]
                return s
            how, e = self.oinit(c, 2)
            s = p.n(k="defo", x=x, c=c, how=how, e=e)
            self.objv = self.objv + [(x, c)]
            return s
        if k == "oexpr":
            c = self.owncls()
            if r.random() < .4:
                b = self.oexpr(c, 2)
                a = self.lobj(c)
                if a:
                    return p.n(k="expr", e=p.n(k="asgo", a=a, b=b))
            return p.n(k="expr", e=self.oexpr(c, 2))
        if k == "block":
            self.depth += 1
            s = self.stmts(r.randint(1, 4))
            self.depth -= 1
            return s
        if k == "if":
            c = self.bexpr(2)
            a = self.body()
            b = self.body() if r.random() < .5 else 0
            # dangling else: the renderer uses braces when needed
            return p.n(k="if", c=c, a=a, b=b)
        if k in ("while", "for"):
            return self.loop(k)
        if k in ("break", "continue"):
            return p.n(k=k, n=r.randint(1, min(self.loops, 3)))
        if k == "ret":
            return self.ret()
        if k == "rec":
            args = []
            for q in self.f["params"]:
                if q["x"] == "n":
                    args.append(p.n(k="bin", op="-", a=p.n(k="var", x="n"), b=p.n(k="lit", n=1)))
                elif q["t"] == "int":
                    args.append(self.iexpr(1))
                else:
                    args.append(self.oexpr(q["c"], 1))
            e = p.n(k="call", f=self.idx, args=args)
            a = p.n(k="block", l=[p.n(k="expr", e=e)])
            return p.n(k="if", c=p.n(k="bin", op=">", a=p.n(k="var", x="n"), b=p.n(k="lit", n=0)), a=a, b=0)

    def ret(self):
        f = self.f
        if f["ret"] == "void":
            return self.p.n(k="ret", e=0, c=0)
        if f["ret"] == "int":
            return self.p.n(k="ret", e=self.iexpr(2), c=0)
        if f["ret"] == "obj":
            return self.p.n(k="ret", e=self.oexpr(f["c"], 2), c=f["c"])
        return self.p.n(k="ret", e=self.p.n(k="var", x="z"), c=0)

    def loop(self, k):
        """Loops use a counter of their own and always terminate."""
        r, p = self.r, self.p
        x = self.newvar("n")
        lim = r.choice([0, 1, 1, 2, 2, 3])
        saved = (list(self.ints), list(self.objv))
        # the counter variable is defined in a block around the loop
        if k == "for":
            d = p.n(k="defi", x=x, e=p.n(k="lit", n=7))
            self.ints = self.ints + [x]
            self.frozen.add(x)
            i = p.n(k="asg", op="=", x=x, e=self.maybemark(p.n(k="lit", n=0)))
            c = self.loopcond(p.n(k="bin", op="<", a=self.maybemark(p.n(k="var", x=x)), b=p.n(k="lit", n=lim)))
            u = r.choice([p.n(k="inc", x=x, d=1, post=0), p.n(k="inc", x=x, d=1, post=1),
                          p.n(k="asg", op="+", x=x, e=self.maybemark(p.n(k="lit", n=1)))])
            self.loops += 1
            b = self.body()
            self.loops -= 1
            s = p.n(k="for", i=i, c=c, u=u, b=b)
        else:
            d = p.n(k="defi", x=x, e=p.n(k="lit", n=lim))
            self.ints = self.ints + [x]
            self.frozen.add(x)
            dec = r.choice([p.n(k="bin", op=">", a=p.n(k="inc", x=x, d=-1, post=1), b=p.n(k="lit", n=0)),
                            p.n(k="bin", op=">=", a=p.n(k="inc", x=x, d=-1, post=0), b=p.n(k="lit", n=0))])
            c = self.loopcond(dec)
            self.loops += 1
            b = self.body()
            self.loops -= 1
            s = p.n(k="while", c=c, b=b)
        self.ints, self.objv = saved
        return p.n(k="block", l=[d, s])

    def maybemark(self, e):
        if self.r.random() < .3:
            return self.p.n(k="mark", n=self.ev(), e=e)
        return e

    def loopcond(self, c):
        q = self.r.random()
        if q < .2:
            return self.p.n(k="logic", op="and", a=c, b=self.bexpr(1))
        if q < .3 and False:
            pass
        return c

    # ---------------------------------------------------------------- expressions
    def iexpr(self, d):
        r, p = self.r, self.p
        o = [("lit", 2), ("mark", 3)]
        if self.ints:
            o.append(("var", 3))
        if d > 0:
            o += [("bin", 3), ("cond", .7)]
            if self.fnsof("int"):
                o.append(("call", 2))
            if self.objs:
                o += [("get", 6 * self.objs), ("addm", 3 * self.objs)]
        k = r.choices([x[0] for x in o], [x[1] for x in o])[0]
        if k == "lit":
            return p.n(k="lit", n=r.randint(0, 3))
        if k == "mark":
            return p.n(k="mark", n=self.ev(), e=self.iexpr(d - 1) if d > 0 and r.random() < .4 else p.n(k="lit", n=r.randint(0, 3)))
        if k == "var":
            return p.n(k="var", x=r.choice(self.ints))
        if k == "bin":
            a = self.iexpr(d - 1)
            return p.n(k="bin", op=r.choice("+-"), a=a, b=self.iexpr(d - 1))
        if k == "cond":
            return self.bexpr(d - 1, cmponly=True)
        if k == "call":
            return self.call(r.choice(self.fnsof("int")), d - 1)
        c = self.owncls()
        ob = self.oexpr(c, d - 1)
        if k == "get":
            return p.n(k="get", o=ob)
        return p.n(k="addm", o=ob, e=self.iexpr(d - 1))

    def bexpr(self, d, cmponly=False):
        r, p = self.r, self.p
        q = r.random()
        if d > 0 and q < .35 and not cmponly:
            a = self.bexpr(d - 1)
            return p.n(k="logic", op=r.choice(["and", "or"]), a=a, b=self.bexpr(d - 1))
        if d > 0 and q < .42 and not cmponly:
            return p.n(k="not", a=self.bexpr(d - 1))
        a = self.iexpr(max(d - 1, 0) if q < .7 else d)
        return p.n(k="bin", op=r.choice(["<", ">", "==", "!=", "<=", ">="]), a=a, b=p.n(k="lit", n=r.randint(0, 3)))

    def fnsof(self, ret, c=0):
        return [i + 1 for i, f in enumerate(self.p.fns[:self.idx - 1]) if f["ret"] == ret and (not c or f["c"] == c)]

    def call(self, fi, d):
        p = self.p
        args = []
        for q in p.fns[fi - 1]["params"]:
            if q["x"] == "n":
                args.append(p.n(k="lit", n=self.r.randint(0, 2)))
            elif q["t"] == "int":
                args.append(self.iexpr(max(d, 0)))
            else:
                args.append(self.oexpr(q["c"], max(d, 0)))
        return p.n(k="call", f=fi, args=args)

    def lobj(self, c):
        """an existing object (variable or member) of class c, or None"""
        cands = []
        for (x, k) in self.objv:
            if k == c:
                cands.append((x, []))
            for i, m in enumerate(self.p.classes[k - 1]["members"]):
                if m["c"] == c:
                    cands.append((x, [i + 1]))
                for j, m2 in enumerate(self.p.classes[m["c"] - 1]["members"]):
                    if m2["c"] == c:
                        cands.append((x, [i + 1, j + 1]))
        if not cands:
            return None
        x, path = self.r.choice(cands)
        e = self.p.n(k="var", x=x)
        for i in path:
            e = self.p.n(k="mem", o=e, i=i)
        return e

    def oinit(self, c, d):
        q = self.r.random()
        if q < .35:
            return 0, 0
        if q < .65:
            return 1, self.iexpr(d - 1)
        return 2, self.oexpr(c, d - 1)

    def oexpr(self, c, d):
        r, p = self.r, self.p
        if r.random() < .45:
            e = self.lobj(c)
            if e:
                return e
        o = [("tmp", 3)]
        if d > 0:
            if self.fnsof("obj", c):
                o.append(("callo", 4))
            if self.fnsof("ref", c):
                o.append(("callr", 3))
            for k in range(len(p.classes)):
                for i, m in enumerate(p.classes[k]["members"]):
                    if m["c"] == c and p.classes[k]["own"]:
                        o.append((("memtmp", k + 1, i + 1), 1))
        k = r.choices([x[0] for x in o], [x[1] for x in o])[0]
        if k == "tmp":
            if d > 0:
                how, e = self.oinit(c, d)
            else:
                how, e = r.choice([(0, 0), (1, None)])
                if how == 1:
                    e = p.n(k="lit", n=r.randint(0, 3))
            return p.n(k="tmp", c=c, how=how, e=e)
        if k == "callo":
            return self.call(r.choice(self.fnsof("obj", c)), d - 1)
        if k == "callr":
            return self.call(r.choice(self.fnsof("ref", c)), d - 1)
        return p.n(k="mem", o=self.oexpr(k[1], d - 1), i=k[2])


# -------------------------------------------------------------------- rendering
class Render:
    def __init__(self, prog, rng):
        self.p, self.r = prog, rng

    def module(self, name, main=True):
        out = ["module %s {" % name]
        for i, c in enumerate(self.p.classes):
            out += self.cls(i + 1, c)
        for i, f in enumerate(self.p.fns):
            if main or f["x"] != "main":
                out += self.fn(f)
        out.append("}")
        return "\n".join(out)

    def entry(self, name, i, place=None):
        """the whole program: its definitions, and main's body as a function that is called, as statements of a module, or
        as a preprocess block"""
        begin, end = 'printf("== %d\\n"); ser = 0;' % i, 'printf("--end\\n"); fflush(0);'
        fm = [f for f in self.p.fns if f["x"] == "main"][0]
        tops = self.nd(fm["body"])["l"]
        body = "\n".join(sum([self.stm(s, 2) for s in tops], []))
        h = zlib.crc32(json.dumps([self.p.nodes, self.p.fns]).encode())
        place = place or ["fn", "mod", "fn", "pre"][h % 4]
        if "return" in body or "main(" in body or not body:
            place = "fn"
        if place == "fn":
            return self.module(name) + "\n" + begin + " %s.main(); " % name + end
        # a bare block cannot stand outside of a function, and the definitions of a module are its variables
        wrap = ("block",) if place == "pre" else ("defi", "defo", "block")
        if any(self.nd(s)["k"] in wrap for s in tops) or place == "pre" and h & 8:
            body = "  if 1 == 1 {\n" + body + "\n  };"
        if place == "mod":
            return self.module(name, False) + "\n" + begin + "\n@merge module %s {\n%s\n}\n" % (name, body) + end
        m = self.module(name, False)
        return m[:-1] + "  func main() { preprocess { %s\n%s\n } }\n}\n%s.main();\n%s" % (begin, body, name, end)

    def cls(self, i, c):
        o = ["class C%d {" % i]
        if c["own"]:
            o.append("def s: Int; def v: Int;")
        for j, m in enumerate(c["members"]):
            o.append("def m%d: C%d%s;" % (j + 1, m["c"], "(%d)" % m["v"] if m["how"] == 1 else ""))
        if c["own"]:
            o.append("handler this~init() { this.s = ++ser; this.v = 0; ev(73, %d, this.s, 0); }" % i)
            o.append("handler this~init(n: Int) { this.s = ++ser; this.v = n; ev(67, %d, this.s, n); }" % i)
            o.append("handler this~init(o: ref[C%d]) { this.s = ++ser; this.v = o.v; ev(75, %d, this.s, o.s); }" % (i, i))
            o.append("handler this~terminate() { ev(68, %d, this.s, 0); }" % i)
            o.append("handler this = ref[C%d] { ev(61, %d, this.s, value.s); this.v = value.v; }" % (i, i))
            o.append("handler this.get(): Int { ev(71, %d, this.s, 0); return this.v; }" % i)
            o.append("handler this.add(n: Int): Int { ev(80, %d, this.s, n); this.v += n; return this.v; }" % i)
        o.append("}")
        return o

    def fn(self, f):
        ps = ", ".join("%s: %s" % (q["x"], {"int": "Int", "val": "C%d" % q["c"], "ref": "ref[C%d]" % q["c"]}[q["t"]]) for q in f["params"])
        rt = {"void": "", "int": ": Int", "obj": ": C%d" % f["c"], "ref": ": ref[C%d]" % f["c"]}[f["ret"]]
        o = ["func %s (%s)%s {" % (f["x"], ps, rt)]
        self.f = f
        for s in self.nd(f["body"])["l"]:
            o += self.stm(s, 1)
        o.append("}")
        return o

    def nd(self, i):
        return self.p.nodes[i - 1]

    def endsif(self, s):
        """does the unbraced statement end in an if (dangling else)?"""
        n = self.nd(s)
        if n["k"] == "if":
            return True
        if n["k"] in ("while", "for"):
            return self.endsif(n["b"])
        return False

    def bodyof(self, s, ind, elsefollows=False):
        n = self.nd(s)
        if n["k"] == "block":
            return ["  " * ind + "{"] + sum([self.stm(x, ind + 1) for x in n["l"]], []) + ["  " * ind + "}"]
        o = self.stm(s, ind + 1)
        if not o[0].strip()[0].isalpha():
            # a body that starts with an operator or a parenthesis would continue the condition
            o = ["  " * ind + "{"] + o + ["  " * ind + "}"]
        return o

    def tail(self, s):
        n = self.nd(s)
        if n["k"] in ("while", "for"):
            return self.tail(n["b"])
        return n["k"]

    def wrap(self, s):
        """single statement bodies that contain an if are braced only at render level when ambiguous"""
        return s

    def stm(self, s, ind):
        n = self.nd(s)
        k = n["k"]
        I = "  " * ind
        if k == "block":
            return [I + "{"] + sum([self.stm(x, ind + 1) for x in n["l"]], []) + [I + "};"]
        if k == "ev":
            return [I + "ev(69, %d, 0, 0);" % n["n"]]
        if k == "expr":
            return [I + self.ex(n["e"]) + ";"]
        if k == "defi":
            return [I + "def %s: Int = %s;" % (n["x"], self.ex(n["e"]))]
        if k == "defo":
            return [I + "def %s: C%d%s;" % (n["x"], n["c"], "(%s)" % self.ex(n["e"]) if n["how"] else "")]
        if k == "if":
            a = self.bodyof(n["a"], ind)
            if n["b"] and self.tail(n["a"]) in ("break", "continue", "ret", "if"):
                # `break else`, `return else` and a dangling else would read differently
                a = [I + "{"] + a + [I + "}"]
            o = [I + "if %s" % self.ex(n["c"])] + a
            if n["b"]:
                if o[-1].endswith(";"):
                    o[-1] = o[-1][:-1]
                o += [I + "else"] + self.bodyof(n["b"], ind)
            if not o[-1].endswith(";"):
                o[-1] += ";"
            return o
        if k == "while":
            o = [I + "while %s" % self.ex(n["c"])] + self.bodyof(n["b"], ind)
            if not o[-1].endswith(";"):
                o[-1] += ";"
            return o
        if k == "for":
            o = [I + "for %s, %s, %s" % (self.ex(n["i"]), self.ex(n["c"]), self.ex(n["u"]))] + self.bodyof(n["b"], ind)
            if not o[-1].endswith(";"):
                o[-1] += ";"
            return o
        if k in ("break", "continue"):
            return [I + k + (" %d" % n["n"] if n["n"] > 1 else "") + ";"]
        if k == "ret":
            return [I + ("return %s;" % self.ex(n["e"]) if n["e"] else "return;")]
        raise Exception(k)

    def operand(self, i):
        # the literals 0 and 1 are of unsigned types; arithmetic on them alone would be unsigned
        n = self.nd(i)
        if n["k"] == "bin" and n["op"] not in "+-*":
            return self.ex(i) + "~cast[Int]"
        return "%di32" % n["n"] if n["k"] == "lit" and n["n"] < 2 else self.ex(i)

    def ex(self, i):
        n = self.nd(i)
        k = n["k"]
        if k == "lit":
            return str(n["n"])
        if k == "var":
            return n["x"]
        if k == "bin":
            return "(%s %s %s)" % (self.operand(n["a"]), n["op"], self.operand(n["b"]))
        if k == "not":
            return "(!%s)" % self.ex(n["a"])
        if k == "logic":
            return "(%s %s %s)" % (self.ex(n["a"]), {"and": "and", "or": "or"}[n["op"]], self.ex(n["b"]))
        if k == "asg":
            return "%s %s= %s" % (n["x"], "" if n["op"] == "=" else n["op"], self.ex(n["e"]))
        if k == "inc":
            o = "++" if n["d"] > 0 else "--"
            return n["x"] + o if n["post"] else o + n["x"]
        if k == "mark":
            return "t(%d, %s)" % (n["n"], self.ex(n["e"]))
        if k == "tmp":
            return "C%d(%s)" % (n["c"], self.ex(n["e"]) if n["how"] else "")
        if k == "mem":
            return "%s.m%d" % (self.ex(n["o"]), n["i"])
        if k == "get":
            return self.ex(n["o"]) + ".get()"
        if k == "addm":
            return "%s.add(%s)" % (self.ex(n["o"]), self.ex(n["e"]))
        if k == "asgo":
            return "%s = %s" % (self.ex(n["a"]), self.ex(n["b"]))
        if k == "call":
            return "%s(%s)" % (self.p.fns[n["f"] - 1]["x"], ", ".join(self.ex(a) for a in n["args"]))
        raise Exception(k)


def parse_trace(text, limit):
    """-> list of program traces (split by '==' markers)"""
    res = {}
    cur = None
    for l in text.split("\n"):
        if l.startswith("== "):
            cur = int(l[3:])
            res[cur] = []
        elif l == "--end":
            if cur is not None:
                res[cur].append("end")
        elif cur is not None and len(res[cur]) <= limit + 1:
            f = l.split(" ")
            if len(f) == 4 and len(f[0]) == 1:
                try:
                    res[cur].append([f[0], int(f[1]), int(f[2]), int(f[3])])
                except ValueError:
                    res[cur].append(["?", 0, 0, 0])
    return res
