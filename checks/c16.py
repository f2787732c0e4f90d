"""C16: closures, against ClosSpec.tla: what each closure computes, what it changes outside, and when captured objects
are initialized, assigned and terminated."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

HEADER = 'import "closure";\ndef printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];\ndef fflush: @expname[fflush] function (p: Int[64])=>Int;\n'
KT = {"int": "Int", "obj": "T", "srd": "Srl.SrdRef[T]", "clo": "closure (a: Int): Int"}


def S(o, v=0, w=0, n=0, b=0, a=()):
    return {"o": o, "v": v, "w": w, "n": n, "b": b, "a": list(a)}


class Render:
    def __init__(self, n, p):
        self.n, self.p = n, p

    def ty(self, d):
        return "ref[%s]" % KT[d["k"]] if d["ref"] else KT[d["k"]]

    def num(self, v):
        return {"int": "v%d", "obj": "v%d.n", "srd": "v%d.obj.n", "clo": "v%d.isNull()~cast[Int]"}[self.p["vars"][v - 1]["k"]] % v

    def stmt(self, q):
        o, v = q["o"], q["v"]
        d = self.p["vars"][v - 1]
        if o == "def":
            if d["ref"]:
                return "def v%d: %s; v%d~no_deref = v%d;" % (v, self.ty(d), v, q["w"]) if d["k"] == "clo" else "def v%d: %s(v%d);" % (v, self.ty(d), q["w"])
            return "def v%d: %s%s;" % (v, self.ty(d), " = %d" % q["n"] if d["k"] == "int" else "")
        if o == "add":
            return "%s += %d;" % (self.num(v), q["n"])
        if o == "say":
            return 'printf("@ %d s %%d\\n", %s);' % (self.n, self.num(v))
        if o == "acc":
            return "r += %s;" % self.num(v)
        if o == "make":
            c = self.p["clos"][q["b"] - 1]
            m = "(%s)&" % ", ".join("v%d: %s" % (x["n"], x["m"]) for x in c["modes"]) if c["modes"] else ""
            return "v%d = closure %s(a: Int): Int { def r: Int = a; %s return r };" % (v, m, " ".join(self.stmt(s) for s in c["stmts"]))
        if o == "call":
            return "r += sayr(v%d(%d));" % (v, q["n"])
        if o == "copy":
            return "v%d = v%d;" % (v, q["w"])
        if o == "rel":
            return "v%d.release();" % v
        if o == "new":
            return "v%d.construct();" % v
        if o == "give":
            return "return v%d;" % v
        return "v%d = f%d(%s);" % (v, q["b"], ", ".join("v%d" % x for x in q["a"]))

    def program(self):
        n = self.n
        out = ["module P%d {" % n]
        out.append(('class T { def n: Int; handler this~init() { this.n = 0; printf("@ N i 0\\n"); }; handler this~init(o: ref[T]) { this.n = o.n; printf("@ N c %d\\n", this.n); };'
                    ' handler this = ref[T] { this.n = value.n; printf("@ N = %d\\n", this.n); }; handler this~terminate() { printf("@ N t %d\\n", this.n); }; };').replace("@ N", "@ %d" % n))
        out.append('func sayr(x: Int): Int { printf("@ %d r %%d\\n", x); return x };' % n)
        for i, f in enumerate(self.p["fns"]):
            body = " ".join(self.stmt(q) for q in f["stmts"])
            if i == 0:
                main = "func main() { def r: Int = 0;\n%s\n};" % "\n".join(self.stmt(q) for q in f["stmts"])
            else:
                out.append("func f%d(%s): (closure (a: Int): Int) { def r: Int = 0; %s };" % (i + 1, ", ".join("v%d: %s" % (v, self.ty(self.p["vars"][v - 1])) for v in f["params"]), body))
        out.append(main)
        out.append("};\nP%d.main();" % n)
        return "\n".join(out) + "\n"


def judge(p, x, o):
    exp = [[t["e"], str(t["n"])] for t in x["trace"]]
    if o.errors:
        return "rejected"
    if o.events != exp:
        k = next(i for i in range(max(len(exp), len(o.events)) + 1) if i >= len(exp) or i >= len(o.events) or exp[i] != o.events[i])
        return "event %d: expected %s, found %s" % (k + 1, exp[k] if k < len(exp) else "the end", o.events[k] if k < len(o.events) else "the end")
    return ""


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.vars, self.clos, self.fns = [], [], []

    def var(self, k, ref=False):
        self.vars.append({"k": k, "ref": ref})
        return len(self.vars)

    def pick(self, vis, *kinds):
        l = [v for v in vis if self.vars[v - 1]["k"] in kinds]
        return self.rng.choice(l) if l else 0

    def op(self, vis, depth, stable=()):
        """a statement over the visible variables, or nothing"""
        rng = self.rng
        r = rng.random()
        if r < 0.25:
            v = self.pick(vis, "int", "obj", "srd")
            return [S("add", v, n=rng.randint(1, 9))] if v else []
        if r < 0.4:
            v = self.pick(vis, "int", "obj", "srd")
            return [S("acc", v)] if v else []
        if r < 0.52:
            v = self.pick(vis, "int", "obj", "srd", "clo")
            return [S("say", v)] if v else []
        if r < 0.7:
            v = self.pick(vis, "clo")
            return [S("call", v, n=rng.randint(0, 9) * 100)] if v else []
        if r < 0.8:
            v = self.pick(vis, "int", "obj", "srd", "clo")
            l = [w for w in vis if v and self.vars[w - 1]["k"] == self.vars[v - 1]["k"] and w != v]
            return [S("copy", v, rng.choice(l))] if l else []
        if r < 0.86:
            v = self.pick(vis, "srd", "clo")
            return [S("rel", v)] if v else []
        if r < 0.9:
            v = self.pick(vis, "srd")
            return [S("new", v)] if v else []
        v = self.pick(vis, "clo")
        return [S("make", v, b=self.closure(vis, depth + 1))] if v and depth < 2 else []

    def closure(self, vis, depth):
        rng = self.rng
        st, seen = [], list(vis)
        new = []
        for v in vis:
            if not self.vars[v - 1]["ref"] and rng.random() < 0.08:
                new.append(v)      # locals of the same names, before anything mentions them
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            new.append(self.var(rng.choice(["int", "obj", "srd", "clo", "clo"])))
        for v in new:
            k = self.vars[v - 1]["k"]
            if v not in seen:
                seen.append(v)
            st.append(S("def", v, n=rng.randint(1, 50) if k == "int" else 0))
            if k == "srd":
                st.append(S("new", v))
        for v in new:
            if self.vars[v - 1]["k"] == "clo" and depth < 2:
                st.append(S("make", v, b=self.closure(seen, depth + 1)))
        for _ in range(rng.randint(1, 5)):
            st += self.op(seen, depth)
        named = [v for v in vis if rng.random() < 0.35]
        self.clos.append({"modes": [{"n": v, "m": rng.choice(["by_ref", "by_val", "identical"])} for v in named], "stmts": st})
        return len(self.clos)

    def locals(self):
        rng = self.rng
        vis, st = [], []
        for k in ("int", "obj", "srd", "clo"):
            for _ in range(rng.choice([0, 1, 1, 2]) if k != "clo" else rng.choice([1, 2, 2, 3])):
                v = self.var(k)
                vis.append(v)
                st.append(S("def", v, n=rng.randint(1, 50) if k == "int" else 0))
                if k == "srd" and rng.random() < 0.9:
                    st.append(S("new", v))
                if rng.random() < 0.3 and k != "clo":
                    w = self.var(k, True)
                    vis.append(w)
                    st.append(S("def", w, v))
                    st[-1]["w"] = v
        for v in vis:
            if self.vars[v - 1]["k"] == "clo" and rng.random() < 0.8:
                st.append(S("make", v, b=self.closure(vis, 1)))
        return vis, st

    def maker(self):
        rng = self.rng
        ps = [self.var(*rng.choice([("int", False), ("int", True), ("obj", True), ("srd", True), ("clo", True)])) for _ in range(rng.randint(0, 3))]
        vis, st = self.locals()
        vis = ps + vis
        own = [v for v in vis if self.vars[v - 1]["k"] == "clo" and not self.vars[v - 1]["ref"]]
        c = rng.choice(own)
        st.append(S("make", c, b=self.closure(vis, 1)))
        for _ in range(rng.randint(0, 3)):
            st += self.op(vis, 1)
        st.append(S("give", rng.choice(own + [c])))
        return {"params": ps, "stmts": st}

    def prog(self, n):
        rng = self.rng
        makers = [self.maker() for _ in range(rng.choice([0, 1, 1, 2]))]
        vis, st = self.locals()
        self.fns = [{"params": [], "stmts": st}] + makers

        def one():
            if makers and rng.random() < 0.2:
                m = rng.randrange(len(makers))
                a = []
                for p in makers[m]["params"]:
                    v = self.pick(vis, self.vars[p - 1]["k"])
                    if not v:
                        return []
                    a.append(v)
                v = self.pick(vis, "clo")
                return [S("mk", v, b=m + 2, a=a)]
            return self.op(vis, 0)
        self.one = one
        for _ in range(n):
            st += one()
        return {"vars": self.vars, "fns": self.fns, "clos": self.clos, "pool": []}


def modes_program():
    """every kind of variable in every mode, for all sequences of statements"""
    vs = [{"k": k, "ref": r} for k, r in (("int", 0), ("int", 1), ("obj", 0), ("obj", 1), ("srd", 0), ("srd", 1), ("clo", 0), ("clo", 0))]
    for v in vs:
        v["ref"] = bool(v["ref"])
    st = [S("def", 1, n=5), S("def", 2, 1), S("def", 3), S("def", 4, 3), S("def", 5), S("new", 5), S("def", 6, 5), S("def", 7), S("def", 8)]
    for q, w in ((1, 1), (3, 3), (6, 5)):
        st[q]["w"] = w
    clos = []
    for v in range(1, 7):
        for m in ("", "by_ref", "by_val", "identical"):
            clos.append({"modes": [{"n": v, "m": m}] if m else [], "stmts": [S("add", v, n=1), S("acc", v)]})
    pool = [S("make", 7, b=b + 1) for b in range(len(clos))] + [S("add", 1, n=10), S("add", 3, n=10), S("add", 5, n=10), S("call", 7, n=100), S("call", 8, n=1000), S("copy", 8, 7), S("copy", 7, 8), S("rel", 7), S("rel", 5), S("new", 6)]
    return {"vars": vs, "fns": [{"params": [], "stmts": st}], "clos": clos, "pool": pool}


def check():
    c = Check("C16", "model_checked+conformance")
    build_repo()
    invs = ["InvCounts", "InvOwn"]

    def go(name, consts, progs, cap, bundle=12):
        preds = predict(c, "ClosRun", consts, name, progs, invs, timeout=3000, heap="12g", count=False)
        preds = [(p, x) for p, x in preds if 3 < len(x["trace"]) < 200]
        c.cov["specified_" + name] = len(preds)
        if len(preds) > cap:
            preds = c.rng.sample(preds, cap)
        items = [(Render(k + 1, p).program(), False) for k, (p, x) in enumerate(preds)]
        compare(c, name, preds, items, HEADER, judge, bundle=bundle, timeout=300)
    go("modes", "Batched = FALSE\nMaxLen = 3", [modes_program()], 6000 if THOROUGH else 200)
    go("random", "Batched = TRUE\nMaxLen = 0", [Gen(c.rng).prog(c.rng.randint(4, 14)) for _ in range(12000 if THOROUGH else 1200)], 4000 if THOROUGH else 250)
    c.cov["bounds"] = "6 kinds of captured variables in 4 modes with all sequences of 3 statements (sampled), random programs with nested closures, closures returned from functions, shared, copied, released"
    c.finish()


if __name__ == "__main__":
    main_guard(check)
