"""C07 global variables: spec/GlobSpec.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PRE = r'''import "alusus_spp";
def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];
def fflush: @expname[fflush] function (p: ptr)=>Int[32];
def T: class {
  def n: Int;
  handler this~init(d: Int, i: Int) { this.n = i * 100 - (i / 1000) * 100000; printf("@ 5 %d 0\n", i) };
  handler this~terminate() { printf("@ 6 0 0\n") };
};
func us(v: Int, n: Int): Int { printf("@ 1 %d %d\n", v, n); return 0 };
func ic(v: Int, n: Int): Int { printf("@ 3 %d %d\n", v, n); return 0 };
func mk(v: Int): Int { printf("@ 4 %d 0\n", v); return 0 };
func ii(d: Int, i: Int): Int { printf("@ 5 %d 0\n", i); return i * 100 - (i / 1000) * 100000 };
func no(): Word[1] { return 1 == 2 };
'''


def cycles(p):
    """(is some reached variable's initialiser circular, does such a circle pass through a function)"""
    def direct(b):
        return {("v", x[1]) for x in b if x[0] in (1, 3, 8)} | {("f", x[1]) for x in b if x[0] in (2, 7)}

    def close(seed):
        todo, seen = list(seed), set()
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            todo += direct(p["vars"][b[1] - 1]["init"] if b[0] == "v" else p["funcs"][b[1] - 1])
        return seen
    body = [x for i in p["items"] for x in i["body"]]
    circ = [v for v in close(direct(body)) if v[0] == "v" and v in close(direct(p["vars"][v[1] - 1]["init"]))]

    return bool(circ), any(f[0] == "f" and v in close([f]) for v in circ for f in close([v]))


def circular(p):
    return cycles(p)[0]


class Render:
    def __init__(self, p, n, rng):
        self.p, self.n, self.rng = p, n, rng
        self.kind = [rng.choice(["obj", "obj", "int", "cls", "mod"]) for _ in p["vars"]]
        self.fsh = {}
        users = {}
        bodies = [("f%d" % (i + 1), b) for i, b in enumerate(p["funcs"])] + [("x", v["init"]) for v in p["vars"]] + \
                 [("x", i["body"]) for i in p["items"]]
        for name, b in bodies:
            for a in b:
                if a[0] in (1, 3, 8):
                    users.setdefault(a[1], set()).add(name)
        for v, u in users.items():
            if len(u) == 1 and list(u)[0] != "x" and rng.random() < 0.6:
                self.fsh[v] = list(u)[0]

    def gid(self, v):
        return self.n * 1000 + v

    def ref(self, v, q):
        if v in self.fsh:
            return "v%d" % v
        k = self.kind[v - 1]
        return q + {"cls": "K%d.v%d" % (v, v), "mod": "M%d.v%d" % (v, v)}.get(k, "v%d" % v)

    def isint(self, v):
        return self.kind[v - 1] == "int"

    def val(self, v, q):
        r = self.ref(v, q)
        c = self.rng.random()
        if c < 0.15:
            r = "%s~ptr~cnt" % r
        return r if self.isint(v) else r + ".n"

    def call(self, f, q):
        c = self.rng.random()
        if c < 0.15:
            return "%spf%d()" % (q, f)
        if c < 0.3:
            return "%sC%d.g()" % (q, f)
        if c < 0.45:
            return "%sa%d()" % (q, f)
        return "%sf%d()" % (q, f)

    def atom(self, a, q):
        k, x = a
        if k == 1:
            return "us(%d, %s);" % (self.gid(x), self.val(x, q))
        if k == 3:
            return "%s = %s + 1; ic(%d, %s);" % (self.val(x, q), self.val(x, q), self.gid(x), self.val(x, q))
        if k == 4:
            return "mk(%d);" % self.gid(x)
        if k == 2:
            return self.call(x, q) + ";"
        if k == 7:
            return "if no() { %s };" % self.call(x, q)
        return "if no() { us(0, %s) };" % self.val(x, q)

    def body(self, b, q):
        return " ".join(self.atom(a, q) for a in b)

    def vardef(self, v):
        d = self.p["vars"][v - 1]
        if not d["init"]:
            dep = "0"
        elif len(d["init"]) == 1 and d["init"][0][0] == 1 and self.rng.random() < 0.6:
            w = d["init"][0][1]
            dep = "us(%d, %s)" % (self.gid(w), self.val(w, "P%d." % self.n))
        else:
            dep = "P%d.iv%d()" % (self.n, v)
        pr = "@priority " if d["prio"] else ""
        sh = "@shared " if v in self.fsh or self.kind[v - 1] == "cls" else ""
        if self.isint(v):
            t = "Int(ii(%s, %d))" % (dep, self.gid(v))
        else:
            t = "T(%s, %d)" % (dep, self.gid(v))
        return "%s%sdef v%d: %s;" % (sh, pr, v, t)

    def source(self):
        p, n = self.p, self.n
        defs = []
        for v in range(1, len(p["vars"]) + 1):
            if v not in self.fsh:
                k = self.kind[v - 1]
                d = self.vardef(v)
                defs.append({"cls": "class K%d { %s };" % (v, d), "mod": "module M%d { %s };" % (v, d)}.get(k, d))
            if p["vars"][v - 1]["init"]:
                defs.append("func iv%d(): Int { %s return 0 };" % (v, self.body(p["vars"][v - 1]["init"], "")))
        for f, b in enumerate(p["funcs"], 1):
            own = " ".join(self.vardef(v) for v, u in self.fsh.items() if u == "f%d" % f)
            defs.append("func f%d() { %s %s };" % (f, own, self.body(b, "")))
            defs.append("func pf%d() { def p: ptr[function ()]; p = f%d~ptr; p() };" % (f, f))
            defs.append("class C%d { func g() { f%d() } };" % (f, f))
            defs.append("def a%d: alias f%d;" % (f, f))
        self.rng.shuffle(defs)
        cut = self.rng.randint(0, len(defs))
        out = ["module P%d { %s };" % (n, "\n  ".join(defs[:cut])), "@merge module P%d { %s };" % (n, "\n  ".join(defs[cut:]))]
        for i in p["items"]:
            q = "P%d." % n
            if i["kind"] == "mod":
                out.append("@merge module P%d { %s };" % (n, self.body(i["body"], "")))
            elif i["kind"] == "pre":
                out.append("preprocess { %s };" % self.body(i["body"], q))
            else:
                out.append("{ %s };" % self.body(i["body"], q))
        return "\n".join(out) + "\n"


def events(text):
    ev = {}
    for m in re.finditer(r"^@ (\d+) (\d+) (-?\d+)$", text, re.M):
        k, g, x = int(m.group(1)), int(m.group(2)), int(m.group(3))
        ev.setdefault(g // 1000, []).append([k, g % 1000, x])
    return ev


def observe(c, progs, seeds, tag, bundle):
    """-> list of (events, error reported, source, output)"""
    res = [None] * len(progs)

    def one(ids):
        src = PRE
        for i in ids:
            src += Render(progs[i], i + 1, random.Random(seeds[i])).source()
        src += 'printf("@ 9 0 0\\n"); fflush(0);\n'
        path = "%s/%s_%d_%d.alusus" % (c.dir, tag, ids[0], len(ids))
        with open(path, "w") as f:
            f.write(src)
        r = run_alusus(path, 120)
        return ids, src, r

    todo = [i for i in range(len(progs)) if not circular(progs[i])]
    alone = [[i] for i in range(len(progs)) if circular(progs[i])]
    groups = [todo[i:i + bundle] for i in range(0, len(todo), bundle)] + alone
    again = []
    for ids, src, r in pmap(one, groups):
        c.add("evaluations", 1)
        ev = events(r.out)
        if len(ids) > 1 and (r.rc != 0 or 0 not in ev or ANSI.sub("", r.out).find("ERROR ") >= 0):
            again += [[i] for i in ids]
            continue
        for i in ids:
            res[i] = (ev, "", src, r)
    for ids, src, r in pmap(one, again):
        c.add("evaluations", 1)
        res[ids[0]] = (events(r.out), "", src, r)
    final = []
    for i, (ev, _, src, r) in enumerate(res):
        e = ev.get(i + 1, [])
        errs = notices(r.out)
        bad = r.rc is None or r.rc < 0 or (0 in ev) != (not errs) or any(x[1] not in ("SPPG1041", "SPPG1042") for x in errs)
        if bad:
            e = e + [[99, 0, 0]]
        final.append((e, bool(errs), src, "rc=%s timeout=%s\n%s" % (r.rc, r.timeout, (r.out + r.err)[-3000:])))
    return final


CFG = "SPECIFICATION Spec\nINVARIANTS InvUse InvOnce InvLive Report\nCHECK_DEADLOCK FALSE\n"


def validate(c, progs, obs, tag):
    r = tlc("GlobTrace", CFG, c.dir + "/tlc_" + tag, {"batch": {"batch": [
        {"prog": p, "events": o[0], "error": o[1]} for p, o in zip(progs, obs)]}}, timeout=700)
    if not r.ok:
        raise CheckError("the specification breaks its own invariant %s\n%s" % (r.violated, r.state))
    c.add("states", r.distinct)
    c.add("transitions", r.generated)
    done = {int(x) for x in re.findall(r'<<"@D", (\d+)>>', r.out)}
    return [i for i in range(len(progs)) if i + 1 not in done]


def check(c, progs, tag, bundle=40):
    seeds = [c.rng.randrange(1 << 30) for _ in progs]
    obs = observe(c, progs, seeds, tag, bundle)
    log(tag, len(progs), "programs,", sum(len(o[0]) for o in obs), "events,", sum(o[1] for o in obs), "circular")
    bad = validate(c, progs, obs, tag)
    c.add("traces_validated_against_impl", len(progs))
    c.add("programs_rejected_as_circular", sum(o[1] for o in obs))
    c.sample({"program": progs[-1], "events": obs[-1][0]})
    n = 0
    for i in bad:
        n += 1
        if n > 3:
            break
        one = observe(c, [progs[i]], [seeds[i]], tag + "_again", 1)
        if not validate(c, [progs[i]], one, tag + "_again"):
            # only in company of the other programs: keep the whole file
            one = [obs[i]]
        c.violation("%s: the session's events are not a behaviour of GlobSpec: %s, error reported: %s"
                    % (tag, one[0][0], one[0][1]),
                    {"program.alusus": one[0][2], "trace.json": {"prog": progs[i], "events": one[0][0], "error": one[0][1]},
                     "output.txt": one[0][3]})


def wrap(p, rng):
    """Conditions inside root blocks are not supported by the language: such bodies become functions."""
    for i in p["items"]:
        if any(a[0] in (7, 8) for a in i["body"]) or rng.random() < 0.2:
            p["funcs"].append(i["body"])
            i["body"] = [[2, len(p["funcs"])]]
    return p


def rand_prog(rng, circ):
    nv, nf = rng.randint(2, 8), rng.randint(1, 5)
    def atoms(k, fmax, vs, dead=True):
        out = []
        for _ in range(k):
            t = rng.choice([1, 1, 1, 2, 2, 3, 4, 7, 8])
            if t == 2 and fmax < 1:
                t = 1
            if t == 7 and (not dead or rng.random() < 0.5):
                t = 1
            if t in (1, 3, 8) and not vs:
                t = 4
            out.append([t, rng.randint(1, fmax) if t == 2 else rng.randint(1, nf) if t == 7 else
                        rng.choice(vs) if t in (1, 3, 8) else rng.randint(1, 9)])
        return out
    order = list(range(1, nv + 1))
    rng.shuffle(order)
    vs = [None] * nv
    # mostly acyclic: a variable's initialiser uses earlier variables, and functions of a small index
    fvs = [rng.sample(order, rng.randint(1, nv)) for _ in range(nf)]
    funcs = [atoms(rng.randint(1, 4), f, fvs[f], True) for f in range(nf)]
    for i, v in enumerate(order):
        vs[v - 1] = {"prio": rng.random() < 0.2, "init": atoms(rng.randint(0, 2), rng.choice([0, 0, nf]), order[:i] if not circ or rng.random() < 0.7 else order)}
    items = [{"kind": rng.choice(["stmt", "stmt", "pre", "mod"]), "body": atoms(rng.randint(1, 4), nf, order)} for _ in range(rng.randint(1, 6))]
    items.append({"kind": "stmt", "body": [[1, v] for v in order]})
    return wrap({"vars": vs, "funcs": funcs, "items": items}, rng)


def run():
    build_repo()
    c = Check("C07")
    c.cov["rule"] = ("every program of GlobGen's space (variables x initialisers x a function x two entries of each kind) and seeded "
                     "random larger ones, with variables placed at module level, in nested modules, as @shared class and function "
                     "members, and calls made directly, through pointers, aliases and members; each recorded session must be a "
                     "behaviour of GlobSpec")
    c.assumptions = ["initialisers that depend on themselves through a function are outside (the language leaves their order open)", "termination at exit is checked in ahead-of-time builds (C20); the JIT leaves globals alive"]
    r = tlc("GlobGen", "SPECIFICATION Spec\nCONSTANT NV = 2\nINVARIANTS InvUse InvOnce InvLive\nCHECK_DEADLOCK FALSE\n",
            c.dir + "/gen", timeout=600)
    if not r.ok:
        raise CheckError("GlobGen: %s\n%s" % (r.violated, r.state))
    c.add("states", r.distinct)
    c.add("transitions", r.generated)
    progs = []
    for m in re.finditer(r'^"@P (.*)"$', r.out, re.M):
        progs.append(json.loads(m.group(1).replace('\\"', '"')))
    progs.sort(key=lambda p: json.dumps(p, sort_keys=True))
    c.cov["program_space"] = len(progs)
    good = [p for p in progs if not circular(p)]
    circ = [p for p in progs if circular(p) and not cycles(p)[1]]
    log("program space", len(progs), "circular", len(circ))
    if not THOROUGH:
        good, circ = c.rng.sample(good, min(len(good), 900)), c.rng.sample(circ, min(len(circ), 120))
    check(c, good + circ, "space")
    rp = [rand_prog(c.rng, c.rng.random() < 0.3) for _ in range(6000 if THOROUGH else 700)]
    cc = [p for p in rp if circular(p) and not cycles(p)[1]]
    rp = [p for p in rp if not circular(p)] + cc[:(1000 if THOROUGH else 120)]
    check(c, rp, "random", 25)
    c.finish()


main_guard(run)
