"""C04 integer expressions: spec/IntSpec.tla, IntLaws.tla, IntMachine.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

WIDTHS = [8, 16, 32, 64, 0, 1]
TYPES = [(s, n) for n in WIDTHS for s in (True, False)]
ARITH, BITS, SHIFT = ["+", "-", "*", "/", "%"], ["&", "|", "$"], ["<<", ">>"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
UN = {"neg": "-%s", "not": "!%s", "plus": "+%s", "lnot": "!!%s", "preinc": "++%s", "predec": "--%s", "postinc": "%s++", "postdec": "%s--"}
ETYPES = TYPES + TYPES           # two registers of every type
HEAD = ('import "alusus_spp";\n'
        'def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];\n'
        'def scanf: @expname[scanf] function (fmt: ptr[Word[8]], args: ...any)=>Int[32];\n')


def W(t):
    return t[1] or 64


def tname(t):
    return "%s[%d]" % ("Int" if t[0] else "Word", t[1])


CONV = "".join("func cv%d(x: %s): %s { return x };\n" % (k, tname(t), tname(t)) for k, t in enumerate(TYPES))


def limbs(v):
    v &= (1 << 64) - 1
    return [(v >> (16 * i)) & 0xffff for i in range(4)]


def wrap(v, t):
    v &= (1 << W(t)) - 1
    return v - (1 << W(t)) if t[0] and v >> (W(t) - 1) else v


# ---- the typing rules as used by the generator to stay in the domain (TLC re-checks Domain and Verdicts)
def joint(a, b):
    m = max(a[1], b[1])
    return 0 if 0 in (a[1], b[1]) and m <= 32 else m


def arith_type(a, b):
    m = joint(a, b)
    return (a[0] or b[0], m and max(m, 32))


def cmp_ok(a, b):
    if a[0] == b[0]:
        return True
    u, m = (b if a[0] else a), joint(a, b)
    return u[1] != 0 and (u[1] < 32 if m == 0 else u[1] < m)


def castable(t, u):
    return t[1] == 1 or u[1] != 1


def res_type(i):
    f, op, a, b = i["form"], i["op"], ETYPES[i["a"]], ETYPES[i["b"]]
    if f in ("flt",):
        return (True, 64)
    if f == "fcmp":
        return (False, 1)
    if f == "cast" or f == "fcast":
        return b
    if f == "un":
        return (True, a[1]) if op == "neg" else (False, 1) if op == "lnot" else a
    if f == "comp":
        return a
    return arith_type(a, b) if op in ARITH else (a[0] or b[0], joint(a, b)) if op in BITS else a if op in SHIFT else (False, 1)


def accepted(i):
    a, b, d = ETYPES[i["a"]], ETYPES[i["b"]], ETYPES[i["d"]]
    ok = castable(res_type(i), d)
    if i["form"] == "bin" and i["op"] in CMP:
        ok = ok and cmp_ok(a, b)
    if i["form"] == "comp" and i["op"] in ARITH:
        ok = ok and castable(arith_type(a, b), a)
    if i["form"] == "un" and i["op"] == "lnot":
        ok = ok and a[1] == 1
    if i["form"] == "cast":
        ok = ok and castable(a, b)
    return ok


def value(i, x, y):
    """result of the instruction or None when outside the domain; only used to keep histories in the domain"""
    f, op, a, b = i["form"], i["op"], ETYPES[i["a"]], ETYPES[i["b"]]
    if f in ("flt", "fcmp"):
        lim = 1 << (11 if i["fl"] == 32 else 20)
        if abs(x) >= lim or abs(y) >= lim or (op in "/%" and y == 0):
            return None
        return 0
    if f == "fcast":
        return 0 if abs(x) < 1 << (24 if i["fl"] == 32 else 53) and wrap(x, b) == x and b[1] != 1 else None
    if f in ("bin", "comp"):
        if op in ("/", "%"):
            t = arith_type(a, b)
            x, y = wrap(x, t), wrap(y, t)
            if y == 0 or (t[0] and y == -1 and x == -(1 << (W(t) - 1))):
                return None
        if op in ("+", "-", "*"):
            t = arith_type(a, b)
            x, y = wrap(x, t), wrap(y, t)
            r = x + y if op == "+" else x - y if op == "-" else x * y
            if t[0] and wrap(r, t) != r:
                return None
        if op in SHIFT:
            y = wrap(y, a)
            if not 0 <= y < W(a):
                return None
    if op in ("preinc", "postinc", "predec", "postdec") and a[0]:
        r = x + (1 if op.endswith("inc") else -1)
        return 0 if wrap(r, a) == r and a[1] != 1 else None
    return 0


def instructions(rng):
    """The instruction space: every operator at every pair of types."""
    res = []

    def add(form, op, ta, tb, **kw):
        i = dict(form=form, op=op, a=TYPES.index(ta), b=TYPES.index(tb) + len(TYPES), **kw)
        if rng.random() < .5:
            i["a"] += len(TYPES)
        if rng.random() < .5 and form != "comp":
            i["b"] -= len(TYPES)
        for _ in range(20):
            i["d"] = rng.randrange(len(ETYPES))
            if form in ("comp", "un") and i["d"] in (i["a"],):
                continue
            if rng.random() < .5:
                i["d"] = TYPES.index((False, 64))
                if form in ("comp", "un") and i["d"] == i["a"]:
                    i["d"] += len(TYPES)
            if castable(res_type(i), ETYPES[i["d"]]):
                break
        i["style"] = rng.choice("gggppm")
        if form == "bin" and rng.random() < .2 and tb[1] in (8, 16, 32, 64):
            i["style"] = "l"
        res.append(i)

    for a in TYPES:
        for b in TYPES:
            for op in ARITH + BITS + SHIFT + CMP:
                add("bin", op, a, b)
            for op in ARITH + BITS + SHIFT:
                add("comp", op, a, b)
            add("cast", "cast", a, b)
            add("cast", "call", a, b)
            if a[1] != 1 and b[1] != 1:
                for op in ARITH:
                    add("flt", op, a, b, fl=rng.choice((32, 64)), fm=rng.randrange(3))
                add("fcmp", rng.choice(CMP), a, b, fl=rng.choice((32, 64)), fm=rng.randrange(3))
                add("fcast", "fcast", a, b, fl=rng.choice((32, 64)))
        for op in UN:
            for _ in range(3):
                add("un", op, a, rng.choice(TYPES))
    return res


def expr(i, a, b):
    f = i["form"]
    if f == "bin":
        return "%s %s %s" % (a, i["op"], b)
    if f == "comp":
        return "(%s %s= %s)" % (a, i["op"], b)
    if f == "un":
        return UN[i["op"]] % a
    if f == "cast" and i["op"] == "call":
        return "cv%d(%s)" % (i["b"] % len(TYPES), a)
    if f == "cast":
        return "%s~cast[%s]" % (a, tname(ETYPES[i["b"]]))
    fl = "~cast[Float[%d]]" % i["fl"]
    if f == "fcast":
        return "%s%s~cast[%s]" % (a, fl, tname(ETYPES[i["b"]]))
    x, y = (a + fl, b + fl) if i["fm"] == 0 else (a + fl, b) if i["fm"] == 1 else (a, b + fl)
    return "(%s %s %s)~cast[Int[64]]" % (x, i["op"], y) if f == "flt" else "%s %s %s" % (x, i["op"], y)


def function(k, i):
    a, b, d = "r%d" % i["a"], "r%d" % i["b"], "r%d" % i["d"]
    ta, tb = tname(ETYPES[i["a"]]), tname(ETYPES[i["b"]])
    show = 'printf("%%llx %%llx\\n", %s~cast[Word[64]], %s~cast[Word[64]]);' % (d, a)
    s = i["style"]
    if i["form"] in ("comp", "un"):       # keep the variable itself
        if s == "p":
            return "func f%d(x: ref[%s], y: %s) { %s = %s; %s };" % (k, ta, tb, d, expr(i, "x", "y"), show), "f%d(%s, %s)" % (k, a, b)
        if s == "m":
            return "func f%d { def x: %s = %s; def y: %s = %s; %s = %s; %s = x; %s };" % (k, ta, a, tb, b, d, expr(i, "x", "y"), a, show), "f%d()" % k
    elif s == "p":
        return "func f%d(x: %s, y: %s) { %s = %s; %s };" % (k, ta, tb, d, expr(i, "x", "y"), show), "f%d(%s, %s)" % (k, a, b)
    elif s == "m":
        return "func f%d { def x: %s = %s; def y: %s = %s; def z: %s = %s; %s = z; %s };" % (k, ta, a, tb, b, tname(res_type(i)), expr(i, "x", "y"), d, show), "f%d()" % k
    elif s == "l":
        t = ETYPES[i["b"]]
        b = "%d%si%d" % (i["lit"], "" if t[0] else "u", t[1])
    return "func f%d { %s = %s; %s };" % (k, d, expr(i, a, b), show), "f%d()" % k


def edge(rng, t):
    """a boundary-rich value of type t"""
    n, c = W(t), rng.random()
    if c < .25:
        v = rng.choice([0, 1, 2, -1, -2, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1, (1 << n) - 1])
    elif c < .5:
        k = rng.choice([x for x in (7, 8, 15, 16, 31, 32, 63) if x <= n] or [1])
        v = (1 << k) + rng.randrange(-2, 3)
        v = v if rng.random() < .6 else -v
    elif c < .65:
        v = rng.randrange(-70, 70)
    elif c < .75:
        v = rng.randrange(-5000, 5000)
    else:
        v = rng.getrandbits(n)
    return wrap(v, t)


def program(prog):
    """source text and the line of every instruction"""
    src = HEAD + "".join("def r%d: %s;\n" % (i, tname(t)) for i, t in enumerate(ETYPES))
    src += CONV
    line = src.count("\n")
    calls = ""
    where = {}
    for k, i in enumerate(prog):
        f, call = function(k, i)
        src += f + "\n"
        line += 1
        where[line] = k
        calls += "  if k == %d { %s; continue }\n" % (k, call)
    src += "func main { def k: Int; def v: Word[64]; while scanf(\"%d\", k~ptr) == 1 {\n"
    src += "  if k < 0 { scanf(\"%llx\", v~ptr);\n"
    for r, t in enumerate(ETYPES):
        # load by bit pattern, with no arithmetic of the language involved
        src += "    if k == %d { r%d~ptr~cast[ptr[Word[%d]]]~cnt = v; continue }\n" % (-1 - r, r, 64) if t[1] in (0, 64) else \
            "    if k == %d { r%d = v%s; continue }\n" % (-1 - r, r, "~cast[Word[8]] == 1" if t == (False, 1) else "") if t != (True, 1) else \
            "    if k == %d { if v~cast[Word[8]] == 1 r%d = 1i1 else r%d = 0i1; continue }\n" % (-1 - r, r, r)
    src += "  }\n" + calls + "}};\nmain();\n"
    return src, where


def make_program(rng, prog, nsteps):
    """histories: every instruction is run nsteps times in the domain, in random order"""
    order = [k for k in range(len(prog)) for _ in range(nsteps)]
    rng.shuffle(order)
    regs = [0] * len(ETYPES)
    steps = []
    for k in order:
        i = prog[k]
        for _ in range(30):
            sets = []
            x, y = None, None
            mild = i["op"] == "*" and rng.random() < .6
            for r in dict.fromkeys((i["a"], i["b"])):
                small = i["form"] in ("flt", "fcmp")
                if r == i["b"] and i["style"] == "l":
                    sets.append((r, i["lit"]))
                elif rng.random() < .9 or small:
                    v = edge(rng, ETYPES[r])
                    if mild:
                        v >>= W(ETYPES[r]) // 2
                    if small:
                        v = wrap(rng.choice([v, rng.randrange(-2000, 2000), rng.randrange(-40, 40)]), ETYPES[r])
                    if r == i["b"] and i["op"] in SHIFT and rng.random() < .9:
                        v = wrap(rng.randrange(W(ETYPES[i["a"]])), ETYPES[r])
                    sets.append((r, v))
            cur = dict(enumerate(regs))
            cur.update(dict(sets))
            # registers hold unknown values after an instruction; an operand not set here must be harmless
            known = all(r in dict(sets) for r in (i["a"], i["b"]))
            if not known and (i["op"] in ARITH or "inc" in i["op"] or "dec" in i["op"] or i["op"] in SHIFT or i["form"] in ("flt", "fcmp", "fcast")):
                continue
            if i["form"] == "fcast" and rng.random() < .5:
                pass
            if not known or value(i, cur[i["a"]], cur[i["b"]]) is not None:
                if i["a"] == i["b"] and known and value(i, cur[i["a"]], cur[i["a"]]) is None:
                    continue
                steps.append([k, sets])
                break
    return steps


def run_program(c, n, prog, steps, d):
    path = "%s/p%d.alusus" % (d, n)
    src, where = program(prog)
    with open(path, "w") as f:
        f.write(src)
    inp = "".join("".join("%d %x\n" % (-1 - r, v & (1 if ETYPES[r][1] == 1 else (1 << 64) - 1)) for r, v in sets) + "%d\n" % k for k, sets in steps)
    r = run_alusus(path, stdin=inp.encode(), timeout=300)
    return src, where, inp, r


def run():
    build_repo()
    c = Check("C04")
    c.cov["rule"] = ("every operator (arithmetic, bitwise, shift, comparison, unary, ++/--, compound assignment, cast, and the "
                     "integer<->float conversions) at every pair of the 12 integer types, as statements over a typed register "
                     "machine, on boundary-rich operand values; every printed result must be the one of IntMachine.tla; which "
                     "statements the compiler accepts must be the specified ones")
    c.assumptions = ["outside the domain: signed overflow of + - * ++ -- (declared impossible to LLVM), division by zero, minimum divided by -1, shift counts outside 0..width-1",
                     "floats only where integers are represented exactly"]
    # the bit definitions agree with native integers
    for n in ([1, 2, 3, 4, 5, 6] if THOROUGH else [1, 3, 4]):
        r = tlc("IntLaws", "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANT InvLaws\nCHECK_DEADLOCK FALSE\n" % n, c.dir + "/laws%d" % n)
        if not r.ok:
            raise CheckError("IntSpec laws fail at width %d: %s" % (n, r.state))
        c.add("states", r.distinct)
    rng = c.rng
    rounds = 4 if THOROUGH else 1
    for rnd in range(rounds):
        ins = instructions(rng)
        for i in ins:
            if i["style"] == "l":
                t = ETYPES[i["b"]]
                for _ in range(50):
                    i["lit"] = abs(edge(rng, t))
                    if i["op"] in SHIFT:
                        i["lit"] = rng.randrange(W(ETYPES[i["a"]]))
                    if wrap(i["lit"], t) == i["lit"] and (i["lit"] or i["op"] not in "/%"):
                        break
                else:
                    i["style"] = "g"
        good = [i for i in ins if accepted(i)]
        bad = [i for i in ins if not accepted(i)]
        rng.shuffle(good)
        size = 300
        progs = [good[k:k + size] for k in range(0, len(good), size)]
        nsteps = 40 if THOROUGH else 7
        all_steps = [make_program(rng, p, nsteps) for p in progs]
        d = "%s/r%d" % (c.dir, rnd)
        os.makedirs(d)
        log("%d accepted statements, %d rejected ones, %d steps" % (len(good), len(bad), sum(map(len, all_steps))))
        runs = pmap(lambda n: run_program(c, n, progs[n], all_steps[n], d), range(len(progs)))
        batch, ctx = [], []
        for p, steps, (src, where, inp, r) in zip(progs, all_steps, runs):
            ok = [True] * len(p)
            nts = notices(r.out + r.err)
            for m in re.finditer(r"p\d+\.alusus \((\d+),\d+\)", r.out + r.err):
                if int(m.group(1)) in where:
                    ok[where[int(m.group(1))]] = False
            lines = r.out.split("\n")[:-1]
            if nts and all(ok):
                c.violation("a program of specified statements is rejected: %s" % nts[:3], {"p.alusus": src, "output.txt": r.out})
                continue
            if not nts and (r.rc != 0 or len(lines) != len(steps)):
                k = min(len(lines), len(steps) - 1)
                c.violation("the program died (rc %s) at step %d: %s" % (r.rc, k, function(*([steps[k][0], p[steps[k][0]]]))[0]),
                            {"p.alusus": src, "stdin.txt": inp, "output.txt": r.out})
                continue
            obs = [[limbs(int(x, 16)) for x in l.split()] for l in lines] if not nts else []
            st = steps if not nts else []
            # histories of moderate length so that TLC's workers share them
            hs = []
            zero = [[0, 0, 0, 0]] * len(ETYPES)
            batch.append({"types": [{"s": t[0], "n": t[1]} for t in ETYPES],
                          "instrs": [dict(form=i["form"], op=i["op"], d=i["d"] + 1, a=i["a"] + 1, b=i["b"] + 1, ok=o) for i, o in zip(p, ok)],
                          "hists": hs})
            ctx.append((src, inp, p, st))
            hs.append({"init": zero, "steps": [[k + 1, [[r + 1, limbs(v)] for r, v in sets]] for k, sets in st], "obs": obs})
        # statements that must be rejected: each alone behind its own root call
        src = HEAD + "".join("def r%d: %s;\n" % (i, tname(t)) for i, t in enumerate(ETYPES))
        src += CONV
        line, where = src.count("\n"), {}
        for k, i in enumerate(bad):
            i["style"] = "g"
            f, call = function(k, i)
            src += f + " " + call + ";\n"
            line += 1
            where[line] = k
        path = d + "/rejected.alusus"
        with open(path, "w") as f:
            f.write(src)
        r = run_alusus(path, timeout=300)
        rej = [True] * len(bad)
        for m in re.finditer(r"rejected\.alusus \((\d+),\d+\)", r.out + r.err):
            if int(m.group(1)) in where:
                rej[where[int(m.group(1))]] = False
        batch.append({"types": [{"s": t[0], "n": t[1]} for t in ETYPES],
                      "instrs": [dict(form=i["form"], op=i["op"], d=i["d"] + 1, a=i["a"] + 1, b=i["b"] + 1, ok=o) for i, o in zip(bad, rej)],
                      "hists": [{"init": [[0, 0, 0, 0]] * len(ETYPES), "steps": [], "obs": []}]})
        ctx.append((src, "", bad, []))
        r = tlc("IntMachine", "SPECIFICATION Spec\nINVARIANT Conforms\nINVARIANT Domain\nINVARIANT Verdicts\nINVARIANT TypeInv\nCHECK_DEADLOCK FALSE\n",
                d + "/tlc", data={"batch": {"batch": batch}}, timeout=850)
        c.add("states", r.distinct)
        if not r.ok:
            if r.violated in ("Domain", "TypeInv"):
                raise CheckError("the generator left the domain: %s" % r.state[:1500])
            p = int(state_var(r.state, "p")) - 1
            k = int(state_var(r.state, "k"))
            src, inp, prog, st = ctx[p]
            if r.violated == "Verdicts":
                text = "the compiler's verdict on a statement is not the specified one; statements accepted/rejected in file"
                wrong = [function(n, prog[n])[0] for n in range(len(prog)) if batch[p]["instrs"][n]["ok"] != accepted(prog[n])]
                text += ": " + "; ".join(wrong[:5])
                c.violation(text, {"p.alusus": src, "wrong.txt": "\n".join(wrong)})
            else:
                kk, sets = st[k - 1]
                c.violation("%s with %s printed %s\nspecified state:\n%s" % (
                    function(kk, prog[kk])[0], [("r%d" % a, v) for a, v in sets], batch[p]["hists"][0]["obs"][k - 1], r.state[:1500]),
                    {"p.alusus": src, "stdin.txt": inp, "state.txt": r.state})
        elif r.distinct != sum(len(s) for *_, s in ctx) + len(ctx):
            raise CheckError("TLC followed %d states of %d" % (r.distinct, sum(len(s) for *_, s in ctx) + len(ctx)))
        c.add("evaluations", sum(len(s) for *_, s in ctx))
        c.add("distinct_nontrivial", len(ins))
        log("%d steps conform, %d verdicts (%.0fs TLC)" % (sum(len(s) for *_, s in ctx), len(ins), r.wall))
        c.sample({"statement": function(0, progs[0][0])[0], "steps": all_steps[0][:2]})
        if c.violations:
            break
    c.finish()


main_guard(run)
