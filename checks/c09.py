"""C09: code with errors never runs and every error is located, against ErrSpec.tla."""
import collections, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

PRE = """import "alusus_spp";
def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];
class T { def x: Int; handler this.m(i: Int) { printf("m\\n") } };
class S { def y: Int; };
func take(i: Int) {};
func amb(i: Int[64], j: Int) {}; func amb(i: Int, j: Int[64]) {};
func v() {};
def gp: ptr[Int]; def fp: ptr[function (): Int];
def t: T; def s: S; def i: Int;
"""
# one offence each; @ stands before the offending element, $ for the number of the offence
KINDS = ["@unk$;", "@unkf$(3);", "t.@nom$;", "@take(t);", "@i = t;", "@t = s;", "{ def q$: @NoType$; };", "@amb(i, i);", "@i + t;", "@3 = i;",
         "@i();", "t.@m(1, 2);", "if @t { i = 1; };", "while @t { i = 1; };", "@gp~cast[T];", "i.@x;", "@v() + 1;", "@take();", "take(@unk$);",
         "@unk$.foo;", "{ @unk$; };", "if 1 == 1 { @unk$; };", "if 1 == 2 { i = 1; } else { @unk$; };", "while 1 == 2 { @unk$; };",
         "for i = 0, i < @unk$, ++i { v() };", "for i = 0, i < 0, ++@unk$ { v() };", "for i = 0, i < 0, ++i { @unk$ };", "i = i + @unk$;", "i = @unk$ * 2;",
         "take(1 + @unk$);", "{ { v(); @unk$; }; };", "@-t;", "@i[3];", "t.x = @unk$;", "i = take(@unk$);", "i = 1 + (2 - @unk$);", "@t += 1;",
         "if 1 == 1 && @unk$ == 2 { v() };", "@take(v());", "{ def q$: Int; q$ = @unk$; };", "gp = @unk$~ptr;", "{ def q$: ptr[@NoType$]; };",
         "{ def q$: array[@NoType$, 3]; };", "(@unk$);", "@v(1);", "i = s.@x;", "gp~cnt.@foo;", "if i > 3 { v() } else if @t { v() };"]
GKINDS = ["@unk$", "i + @unk$", "@unk$()", "s.@x"]


class Text:
    def __init__(self):
        self.cur, self.loc = [], {}

    def put(self, line, i=None):
        if i is not None:
            line = line.replace("$", str(i))
            a = line.index("@")
            self.loc[i] = (self.name, len(self.cur) + 1, a + 1)
            line = line[:a] + line[a + 1:]
        self.cur.append(line)


def need(x, p, at):
    u, kind = x["u"], p["units"][x["u"] - 1]["kind"]
    how = x.get("how", 0)
    if kind == "fn" and at and u >= at:
        how = 1 + how % 2       # calls in circles are not made
    if kind == "fn":
        return ["@u%d();", "fp = @u%d~ptr;", "if 1 == 2 { @u%d(); };", "i = i * @u%d();", "take(@u%d());"][how % 5] % u
    if kind in ("init", "term", "fld"):
        return ["{ def o: @u%d; };", "{ def o: array[@u%d, 2]; };"][0] % u
    if kind == "meth":
        return ("if 1 == 2 { @u%d.z.m(); };" if at and u >= at else "{ @u%d.z.m(); };") % u
    if kind == "glob":
        return ["i = @u%d;", "take(@u%d);", "i = i + @u%d;"][how % 3] % u


def render(p, d, main):
    """-> {file: text}, {offence: (file, line, col)}"""
    tx = Text()
    out = {}
    stack = []

    def open_(name):
        stack.append((getattr(tx, "name", None), tx.cur))
        tx.name, tx.cur = name, []

    def close():
        out[tx.name] = "\n".join(tx.cur) + "\n"
        tx.name, tx.cur = stack.pop()

    def body(x, u=0):
        bad, needs = list(zip(x["bad"], x["bk"])), list(x["needs"])
        for sel in x["order"]:
            if sel == "b":
                i, k = bad.pop(0)
                tx.put("  " + KINDS[k], i)
            elif sel == "n":
                n = needs.pop(0)
                tx.put("  " + need(n, p, u), n["id"])
            else:
                tx.put("  i = i + 1;")

    def unit(u):
        x = p["units"][u - 1]
        k = x["kind"]
        if k == "fn":
            tx.put("func u%d(): Int {" % u)
            body(x, u)
            tx.put("  return 1; };")
        elif k in ("init", "term"):
            tx.put("class u%d { def x: Int; handler this~%s() {" % (u, "init" if k == "init" else "terminate"))
            body(x, u)
            tx.put("  }; };")
        elif k == "meth":
            tx.put("class u%d { def x: Int; @shared def z: u%d; handler this.m() {" % (u, u))
            body(x, u)
            tx.put("  }; };")
        elif k == "fld":
            tx.put("class u%d { def x: Int;" % u)
            for j, i in enumerate(x["bad"]):
                tx.put("  def b%d: @NoType$;" % j, i)
            for j, n in enumerate(x["needs"]):
                tx.put("  def n%d: @u%d;" % (j, n["u"]), n["id"])
            tx.put("};")
        elif k == "glob":
            if x["bad"]:
                tx.put("def u%d: Int(%s);" % (u, GKINDS[x["bk"][0] % len(GKINDS)]), x["bad"][0])
            elif x["needs"]:
                tx.put("def u%d: Int(@u%d%s);" % (u, x["needs"][0]["u"], "()" if p["units"][x["needs"][0]["u"] - 1]["kind"] == "fn" else ""), x["needs"][0]["id"])
            else:
                tx.put("def u%d: Int(5);" % u)

    open_(main)
    tx.cur = PRE.rstrip("\n").split("\n")
    n = 0
    for i, it in enumerate(p["items"], 1):
        for k in p["files"]:
            if k[0] == i:
                n += 1
                name = "%s_%d.alusus" % (main.split(".")[0], n)
                tx.put('import "%s";' % name)
                open_(name)
        if it["k"] == "def":
            unit(it["u"])
        else:
            tx.put("if 1 == 1 {")
            tx.put('  printf("@ 1 %d\\n");' % i)
            body(it)
            tx.put("};")
        for k in p["files"]:
            if k[1] == i:
                close()
    close()
    return out, tx.loc


def rand_prog(rng):
    nu = rng.randint(1, 5)
    kinds = [rng.choice(["fn", "fn", "fn", "fn", "init", "term", "meth", "fld", "glob"]) for _ in range(nu)]
    nid = [0]
    rate = rng.choice([0.0, 0.15, 0.3, 0.6])
    acyclic = any(k not in ("fn", "meth") for k in kinds)

    def new():
        nid[0] += 1
        return nid[0]

    def content(u):
        k = kinds[u - 1] if u else "run"
        bad, needs = [], []
        if rng.random() < rate:
            bad = [new() for _ in range(1 if k == "glob" else rng.choice([1, 1, 2, 3]))]
        cand = [v for v in range(1, nu + 1) if (not u or v < u or not acyclic) and v != u]
        if k == "fld":
            cand = [v for v in cand if kinds[v - 1] in ("init", "term", "fld")]
        if k == "glob":
            cand = [v for v in cand if kinds[v - 1] in ("fn", "glob")]
        if cand:
            for v in rng.sample(cand, min(len(cand), rng.choice([0, 1, 1, 2, 3]))):
                needs.append({"u": v, "id": new(), "how": rng.randint(0, 10)})
        if k == "glob":
            needs = [] if bad else needs[:1]
        order = ["b"] * len(bad) + ["n"] * len(needs) + ["o"] * rng.randint(0, 2)
        rng.shuffle(order)
        return {"bad": bad, "bk": [rng.randrange(len(KINDS)) for _ in bad], "needs": needs, "order": order}
    units = [dict(content(u), kind=kinds[u - 1]) for u in range(1, nu + 1)]
    items = [{"k": "def", "u": u, "bad": [], "needs": [], "bk": [], "order": []} for u in range(1, nu + 1)]
    if rng.random() < 0.5:
        rng.shuffle(items)
    for _ in range(rng.randint(1, 4)):
        items.insert(rng.randint(len(items) // 2 if rng.random() < 0.7 else 0, len(items)), dict(content(0), k="run", u=0))
    files = []
    if rng.random() < 0.4:
        a = rng.randint(1, len(items))
        files.append([a, rng.randint(a, len(items))])
        if files[0][1] > a + 1 and rng.random() < 0.4:
            files.append([a + 1, files[0][1] - 1])
    return {"units": units, "items": items, "files": files}


def check(c, preds, tag, repeat=False):
    def one(job):
        n, (p, x) = job
        main = "%s_%d.alusus" % (tag, n)
        out, loc = render(p, c.dir, main)
        for f, t in out.items():
            with open("%s/%s" % (c.dir, f), "w") as h:
                h.write(t)
        rs = [run_alusus("%s/%s" % (c.dir, main)) for _ in range(2 if repeat else 1)]
        ns = [[(code, [(os.path.basename(f), l, col) for f, l, col in locs]) for sev, code, _, locs in notices(r.out) if sev == "ERROR"] for r in rs]
        for f in out:
            os.remove("%s/%s" % (c.dir, f))
        return out, loc, rs, ns
    bad = 0
    res = pmap(one, list(enumerate(preds, 1)))
    c.add("evaluations", len(res) * (2 if repeat else 1))
    c.add("traces_validated_against_impl", len(res))
    errs = 0
    for (p, x), (out, loc, rs, ns) in zip(preds, res):
        m = ""
        for r, no in zip(rs, ns):
            ran = [int(e[0]) for e in parse_events(r.out).get(1, [])]
            if r.timeout or r.rc is None or r.rc < 0 or "Exception" in ANSI.sub("", r.out + r.err):
                m = m or "the compiler died"
            elif ran != x["ran"]:
                m = m or "statements %s ran, not %s" % (ran, x["ran"])
            times = collections.Counter(loc[i] for _, i in x["rep"])
            want = set(times)
            again = {loc[i] for i in x["again"]} & want
            errs += len(no)
            hit = []
            for code, ls in no:
                h = [l for l in ls if l in want]
                if not h:
                    m = m or "an error %s is reported at %s where there is none" % (code, ls)
                hit += [(h[0], code)] if h else []
            more = sorted(q for q in set(hit) if hit.count(q) > times[q[0]] and q[0] not in again)
            if more:
                m = m or "an offence is reported more than once: %s" % more
            if {h for h, _ in hit} != want:
                m = m or "offences not reported: %s" % sorted(want - {h for h, _ in hit})
        if not m and repeat and ns[0] != ns[1]:
            m = "two runs report differently"
        if m:
            bad += 1
            with open("%s/diffs_%s.jsonl" % (c.dir, tag), "a" if bad > 1 else "w") as f:
                f.write(json.dumps({"p": p, "x": x, "m": m, "src": out, "o": rs[0].out + rs[0].err}) + "\n")
            if bad <= 3:
                c.violation("%s: %s" % (tag, m), dict(out, **{"expected.json": x, "output.txt": rs[0].out + rs[0].err}))
    c.add("errors_reported", errs)
    log("%s: %d programs, %d errors reported, %d differ" % (tag, len(res), errs, bad))
    c.sample({"source": res[0][0], "expected": preds[0][1], "observed": str(res[0][3])})


INVS = ("InvOnlyCleanRuns", "InvComplete", "InvInOrder", "Report")


def decorate(p, rng):
    for x in p["units"] + p["items"]:
        x["bk"] = [rng.randrange(len(KINDS)) for _ in x["bad"]]
        x["order"] = ["b"] * len(x["bad"]) + ["n"] * len(x["needs"])
        rng.shuffle(x["order"])
    p["files"] = []
    return p


def kinds_progs():
    """each kind of offence in a function, in a method, at the root, and beside a second one"""
    r = []
    for k in range(len(KINDS)):
        for form in ("fn", "meth", "root", "init"):
            b = {"bad": [1], "bk": [k], "needs": [], "order": ["o", "b", "o"]}
            if form == "root":
                r.append({"units": [], "items": [dict(b, k="run", u=0)], "files": []})
            else:
                r.append({"units": [dict(b, kind=form)], "files": [], "items": [
                    {"k": "def", "u": 1, "bad": [], "needs": [], "bk": [], "order": []},
                    {"k": "run", "u": 0, "bad": [], "needs": [], "bk": [], "order": ["o"]},
                    {"k": "run", "u": 0, "bad": [], "bk": [], "needs": [{"u": 1, "id": 2, "how": 0}], "order": ["n"]}]})
    return r


def run():
    build_repo()
    c = Check("C09")
    c.cov["rule"] = ("each of %d kinds of offence in each kind of unit, ErrRun's space (two functions, two statements, all orders, "
                     "dependencies and offences) and seeded random programs (functions, methods, handlers, fields, globals, imported files): "
                     "the statements that run and the located errors must be those of ErrSpec's machine" % len(KINDS))
    preds = predict(c, "ErrRun", 'Mode = "batch"', "kinds", progs=kinds_progs(), invs=INVS)
    check(c, preds, "kinds", True)
    preds = predict(c, "ErrRun", 'Mode = "gen"', "space", invs=INVS)
    c.cov["program_space"] = len(preds)
    preds = c.rng.sample(preds, 6000 if THOROUGH else 400)
    check(c, [(decorate(p, c.rng), x) for p, x in preds], "space")
    preds = predict(c, "ErrRun", 'Mode = "batch"', "random", progs=[rand_prog(c.rng) for _ in range(8000 if THOROUGH else 700)], invs=INVS)
    check(c, preds, "random", THOROUGH)
    c.finish()


if __name__ == "__main__":
    main_guard(run)
