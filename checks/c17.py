"""C17: the layout of objects, against LaySpec.tla: two adjacent objects written, read and copied through members,
references, pointers, pointer arithmetic, methods, injection and raw bytes; all their bytes are compared in the end."""
import os, random, struct, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

HEADER = 'import "alusus_spp";\ndef printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];\ndef fflush: @expname[fflush] function (p: Int[64])=>Int;\n'
NOE = []


def T(k, w, e=None):
    return {"k": k, "w": w, "e": [e] if e else []}


BASIC = [T("int", 8), T("int", 16), T("int", 32), T("int", 64), T("word", 1), T("word", 8), T("word", 16), T("word", 64), T("word", 32), T("flt", 32), T("flt", 64), T("ptr", 0), T("ref", 0)]


def leaves(cs, t, pre=()):
    if t["k"] == "arr":
        ms = [t["e"][0]] * t["w"]
    elif t["k"] == "cls":
        ms = cs[t["w"] - 1]
    else:
        return [(list(pre), t)]
    return [x for i, m in enumerate(ms) for x in leaves(cs, m, pre + (i + 1,))]


def nodes(cs, t, pre=()):
    ms = [t["e"][0]] * t["w"] if t["k"] == "arr" else cs[t["w"] - 1] if t["k"] == "cls" else []
    return [(list(pre), t)] + [x for i, m in enumerate(ms) for x in nodes(cs, m, pre + (i + 1,))]


class Render:
    def __init__(self, n, p, x):
        self.n, self.p, self.x = n, p, x
        self.cs = p["classes"]
        self.rng = random.Random(zlib.crc32(json.dumps(p, sort_keys=True).encode()))
        self.methods = {i + 1: [] for i in range(len(self.cs))}
        self.funcs, self.body, self.exp, self.serial = [], [], [], 0
        self.inj = {}
        for i, ms in enumerate(self.cs):
            c = [j for j, m in enumerate(ms) if m["k"] == "cls" and self.cs[m["w"] - 1]]
            if c and self.rng.random() < 0.5:
                self.inj[i + 1] = self.rng.choice(c) + 1
        # a class with a type parameter for one of its members
        self.tmpl = {}
        for i, ms in enumerate(self.cs):
            if ms and self.rng.random() < 0.25:
                self.tmpl[i + 1] = self.rng.randrange(len(ms)) + 1
        self.obj = T("arr", 2, T("cls", p["root"]))

    def ty(self, t):
        k = t["k"]
        if k == "arr":
            return "array[%s, %d]" % (self.ty(t["e"][0]), t["w"])
        if k == "cls":
            i = t["w"]
            return "C%d[%s]" % (i, self.ty(self.cs[i - 1][self.tmpl[i] - 1])) if i in self.tmpl else "C%d" % i
        return {"int": "Int[%d]", "word": "Word[%d]", "flt": "Float[%d]"}[k] % t["w"] if k not in ("ptr", "ref") else "%s[Int]" % k

    def member(self, t, i):
        return t["e"][0] if t["k"] == "arr" else self.cs[t["w"] - 1][i - 1]

    def walk(self, path, t=None):
        t = t or self.obj
        for s in path:
            t = self.member(t, s)
        return t

    def steps(self, base, t, path):
        """the text of the path from base, of type t"""
        s, skip = base, False
        for k, i in enumerate(path):
            if t["k"] == "arr":
                s += "(%d)" % (i - 1)
            else:
                m = self.member(t, i)
                more = k + 1 < len(path) and m["k"] == "cls"
                if more and self.inj.get(t["w"]) == i and self.rng.random() < 0.6:
                    pass      # the injected member's own name is left out
                else:
                    s += ".m%d_%d" % (t["w"], i)
            t = self.member(t, i)
        return s

    def access(self, path, use):
        """statements that apply use(text) to what is at the path, along a chosen way"""
        way = self.rng.choice(["direct", "direct", "ref", "ptr", "arith", "param", "method", "temp"])
        self.serial += 1
        n = self.serial
        cut = self.rng.randint(0, len(path))
        pre, rest = path[:cut], path[cut:]
        t = self.walk(pre)
        if way in ("ref", "ptr", "param") and t["k"] == "ref":
            way = "direct"
        if way == "arith":
            arr = [k for k in range(len(path)) if self.walk(path[:k])["k"] == "arr"]
            cut = self.rng.choice(arr)
            at = self.walk(path[:cut])
            if at["e"][0]["k"] == "ref":
                way = "direct"
        if way == "method":
            c = [k for k in range(len(path)) if self.walk(path[:k])["k"] == "cls"]
            if not c:
                way = "direct"
            else:
                cut = self.rng.choice(c)
        if way == "direct":
            return use(self.steps("g", self.obj, path))
        pre, rest = path[:cut], path[cut:]
        t = self.walk(pre)
        base = self.steps("g", self.obj, pre)
        if way == "ref":
            return "def r%d: ref[%s]; r%d~ptr = %s~ptr; %s" % (n, self.ty(t), n, base, use(self.steps("r%d" % n, t, rest)))
        if way == "temp":
            return "def r%d: ptr[%s]; r%d = %s~ptr; def q%d: ptr[ptr[%s]](r%d~ptr); %s" % (n, self.ty(t), n, base, n, self.ty(t), n, use(self.steps("q%d~cnt~cnt" % n, t, rest))) \
                if t["k"] != "ref" else use(self.steps("g", self.obj, path))
        if way == "ptr":
            return "def r%d: ptr[%s](%s~ptr); %s" % (n, self.ty(t), base, use(self.steps("r%d~cnt" % n, t, rest)))
        if way == "param":
            self.funcs.append("func h%d(r: ref[%s]) { %s };" % (n, self.ty(t), use(self.steps("r", t, rest))))
            return "h%d(%s);" % (n, base)
        if way == "method":
            self.methods[t["w"]].append("handler this.h%d() { %s };" % (n, use(self.steps("this", t, rest))))
            return "%s.h%d();" % (base, n)
        e = t["e"][0]
        j, k = rest[0], self.rng.randint(1, t["w"])
        return "def r%d: ptr[%s](%s(%d)~ptr); %s" % (n, self.ty(e), base, k - 1, use(self.steps("(r%d %s %d)~cnt" % (n, "+" if j >= k else "-", abs(j - k)), e, rest[1:])))

    def write(self, op):
        t = self.walk(op["path"])
        v = op["v"]
        if t["k"] in ("ptr", "ref"):
            w = "w%d" % (v[0] - 1000)
            return lambda a: "%s%s = %s~ptr;" % (a, "~ptr" if t["k"] == "ref" else "", w)
        if t["k"] == "flt":
            val = "%rf64~cast[Float[%d]]" % (struct.unpack("<f" if t["w"] == 32 else "<d", bytes(v))[0], t["w"])
        else:
            val = "0x%xui64~cast[%s]" % (sum(b << (8 * i) for i, b in enumerate(v)), self.ty(t))
        return lambda a: "%s = %s;" % (a, val)

    def read(self, op, got, k):
        t = self.walk(op["path"])
        if -1 in got:
            return None
        f = "%lx"
        if t["k"] in ("ptr", "ref"):
            if any(b < 1000 for b in got):
                return None
            self.exp.append([str(k), "%x" % (got[0] - 900)])
            s = "%s~cnt~cast[Int[64]]" if t["k"] == "ptr" else "%s~cast[Int[64]]"
        elif t["k"] == "flt":
            self.exp.append([str(k), "%.12g" % struct.unpack("<f" if t["w"] == 32 else "<d", bytes(got))[0]])
            s, f = "%s~cast[Float[64]]", "%.12g"
        else:
            v = sum(b << (8 * i) for i, b in enumerate(got))
            if t["w"] == 1:
                v &= 1
            self.exp.append([str(k), "%x" % v])
            s = "%%s~cast[Word[%d]]~cast[Int[64]]" % t["w"]
        return lambda a: 'printf("@ %d %d %s\\n", %s);' % (self.n, k, f, s % a)

    def copy(self, op):
        t = self.walk(op["path"])
        a, b = self.steps("g", self.obj, op["path"]), self.steps("g", self.obj, op["from"])
        self.serial += 1
        n = self.serial
        way = self.rng.choice(["assign", "value", "local", "ref", "pointer"])
        ty = self.ty(t)
        if way == "value":
            self.funcs.append("func v%d(o: %s): %s { return o };" % (n, ty, ty))
            return "%s = v%d(%s);" % (a, n, b)
        if way == "local":
            return "def t%d: %s; t%d = %s; %s = t%d;" % (n, ty, n, b, a, n)
        if way == "ref":
            self.funcs.append("func v%d(o: ref[%s], i: ref[%s]) { o = i };" % (n, ty, ty))
            return "v%d(%s, %s);" % (n, a, b)
        if way == "pointer":
            return "def t%d: ptr[%s](%s~ptr); t%d~cnt = %s;" % (n, ty, a, n, b)
        return "%s = %s;" % (a, b)

    def program(self):
        for k, (op, got) in enumerate(zip(self.p["ops"], self.x["seen"])):
            o = op["o"]
            if o == "write":
                self.body.append(self.access(op["path"], self.write(op)))
            elif o == "read":
                u = self.read(op, got, k)
                if u:
                    self.body.append(self.access(op["path"], u))
            elif o == "poke":
                self.body.append("b~cnt(%d) = 0x%xui64~cast[Word[8]];" % (got[0], op["v"][0]))
            else:
                self.body.append(self.copy(op))
        out = ["module P%d {" % self.n]
        for i, ms in enumerate(self.cs):
            c = i + 1
            mem = []
            for j, m in enumerate(ms):
                t = "T" if self.tmpl.get(c) == j + 1 else self.ty(m)
                mem.append("%sdef m%d_%d: %s;" % ("@injection " if self.inj.get(c) == j + 1 else "", c, j + 1, t))
            extra = self.methods[c][:]
            if self.rng.random() < 0.3:
                extra.append("@shared def s%d: Int[64];" % c)
            if self.rng.random() < 0.3:
                extra.append("func f%d() {};" % c)
            for e in extra:
                mem.insert(self.rng.randint(0, len(mem)), e)
            if c in self.tmpl:
                out.append("class C%d[T: type] { %s };" % (c, " ".join(mem)))
            elif len(mem) > 1 and self.rng.random() < 0.25:
                k = self.rng.randint(1, len(mem) - 1)
                out.append("class C%d { %s };\n@merge class C%d { %s };" % (c, " ".join(mem[:k]), c, " ".join(mem[k:])))
            else:
                out.append("class C%d { %s };" % (c, " ".join(mem)))
        out.append("def w0: Int; def w1: Int; def w2: Int; def w3: Int;")
        out.append("def g: %s;" % self.ty(self.obj))
        out += self.funcs
        out.append("func main() {")
        out.append("w0 = 100; w1 = 101; w2 = 102; w3 = 103; def i: Int; def b: ptr[array[Word[8]]](g~ptr~cast[ptr[array[Word[8]]]]);")
        sizes = [(i + 1, s) for i, s in enumerate(self.x["sizes"])]
        exp = []
        for c, s in sizes:
            out.append('printf("@ %d size %%d\\n", %s~size~cast[Int]);' % (self.n, self.ty(T("cls", c))))
            exp.append(["size", str(s)])
        n = len(self.x["mem"])
        out.append('printf("@ %d size %%d\\n", g~size~cast[Int]);' % self.n)
        exp.append(["size", str(n)])
        out.append("for i = 0, i < %d, ++i b~cnt(i) = 1;" % n)
        out += self.body
        out.append('printf("@ %d mem "); for i = 0, i < %d, ++i printf("%%02x", b~cnt(i)~cast[Int]); printf("\\n");' % (self.n, n))
        out.append("};\n};\nP%d.main();" % self.n)
        self.exp = exp + self.exp
        return "\n".join(out) + "\n"


EXPECT = {}


def judge(p, x, o):
    exp = EXPECT[json.dumps(p, sort_keys=True)]
    if o.errors:
        return "rejected"
    ev = o.events
    if ev[:-1] != exp:
        k = next((i for i in range(max(len(exp), len(ev) - 1)) if i >= len(exp) or i >= len(ev) - 1 or exp[i] != ev[i]), 0)
        op = ""
        if k < len(exp) and exp[k][0].isdigit():
            op = str(p["ops"][int(exp[k][0])])
        return "observation %d: expected %s, found %s %s" % (k + 1, exp[k] if k < len(exp) else "nothing", ev[k] if k < len(ev) else "nothing", op)
    m = bytes.fromhex(ev[-1][1]) if len(ev[-1]) > 1 else b""
    for i, b in enumerate(x["mem"]):
        if 0 <= b < 256 and (i >= len(m) or m[i] != b):
            return "byte %d is %s, expected %02x" % (i, "%02x" % m[i] if i < len(m) else "absent", b)
    return ""


def rand_type(rng, ncls, depth=0):
    r = rng.random()
    if ncls and r < 0.25:
        return T("cls", rng.randint(1, ncls))
    if r < 0.45 and depth < 2:
        e = rand_type(rng, ncls, depth + 1)
        if e["k"] != "ref":
            return T("arr", rng.randint(1, 4), e)
    t = rng.choice(BASIC)
    return T(t["k"], t["w"])


def size_of(cs, t):
    return sum(max(1, l["w"] // 8) if l["k"] not in ("ptr", "ref") else 8 for _, l in leaves(cs, t))


def rand_program(rng):
    while True:
        cs = []
        for i in range(rng.randint(1, 4)):
            cs.append([rand_type(rng, i) for _ in range(rng.randint(1, 5))])
        root = len(cs)
        obj = T("arr", 2, T("cls", root))
        if size_of(cs, obj) <= 220:
            break
    ls = leaves(cs, obj)
    ns = [(p, t) for p, t in nodes(cs, obj) if p]
    ops = []

    def O(o, path, frm=(), v=(), at=0):
        return {"o": o, "path": list(path), "from": list(frm), "v": list(v), "at": at}
    for _ in range(rng.randint(8, 30)):
        r = rng.random()
        path, t = rng.choice(ls)
        if r < 0.45:
            k = t["k"]
            if k in ("ptr", "ref"):
                v = [1000 + rng.randrange(4)] * 8
            elif k == "flt":
                f = float(1 << rng.randrange(12)) * rng.choice([1, -1, 0.5]) if rng.random() < 0.9 else 0.0
                f = abs(f)
                v = list(struct.pack("<f" if t["w"] == 32 else "<d", f))
            elif t["w"] == 1:
                v = [rng.randrange(2)]
            else:
                v = [rng.choice([0, 255, 127, 128, rng.randrange(256)]) for _ in range(t["w"] // 8)]
            ops.append(O("write", path, v=v))
        elif r < 0.75:
            ops.append(O("read", path))
        elif r < 0.83:
            if t["k"] in ("int", "word") and t["w"] >= 8:
                ops.append(O("poke", path, v=[rng.randrange(256)], at=rng.randrange(t["w"] // 8)))
        else:
            a, t = rng.choice(ns)
            same = [p for p, u in ns if u == t and p != a]
            if same and t["k"] not in ("ref", "arr") and leaves(cs, t):
                b = rng.choice(same)
                ops.append(O("copy", a, b))
    return {"classes": cs, "root": root, "ops": ops}


def check():
    c = Check("C17", "model_checked+conformance")
    build_repo()
    invs = ["InvLayout", "InvReadBack"]

    def go(name, preds, bundle):
        items = []
        for i, (p, x) in enumerate(preds):
            r = Render(i + 1, p, x)
            s = r.program()
            EXPECT[json.dumps(p, sort_keys=True)] = r.exp
            items.append((s, False))
        compare(c, name, preds, items, HEADER, judge, bundle=bundle)
    base = [[T("int", 8)], [T("word", 16), T("int", 8)], [T("cls", 2), T("flt", 64)]]
    alpha = [T("int", 8), T("int", 16), T("word", 1), T("flt", 32), T("int", 64), T("cls", 1), T("cls", 2), T("arr", 2, T("cls", 2)), T("arr", 3, T("int", 8)), T("ptr", 0)]
    if THOROUGH:
        alpha += [T("cls", 3), T("ref", 0), T("flt", 64), T("arr", 2, T("arr", 2, T("int", 16)))]
    preds = predict(c, "LayRun", "Batched = FALSE\nMaxMembers = 3", "shapes", [{"classes": base, "alphabet": alpha}], invs, timeout=3000, heap="12g", count=False)
    if not THOROUGH:
        c.cov["shapes_specified"] = len(preds)
        preds = c.rng.sample(preds, 700)
    go("class shapes", preds, 20)
    progs = [rand_program(c.rng) for _ in range(6000 if THOROUGH else 1000)]
    preds = predict(c, "LayRun", "Batched = TRUE\nMaxMembers = 0", "random", progs, invs, timeout=3000, heap="12g", count=False)
    go("random programs", preds, 20)
    c.cov["bounds"] = "all classes of up to 3 members over %d member types (sampled in quick), random nests of up to 4 classes with arrays and injection, up to 30 operations" % len(alpha)
    c.finish()


if __name__ == "__main__":
    main_guard(check)
