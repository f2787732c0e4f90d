"""C03: expressions group by the precedence levels, against GramSpec.tla (the parse trees printed by dump_ast)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

CLASSES = ["id", "in", "?", ",", ":", "=", "or", "==", "=>", "+", "*", "|", "!", "++", ".", "(", ")", "[", "]", "{", "}", ";", "~"]
ALPHA = "{" + ", ".join('"%s"' % c for c in CLASSES) + "}"
# class -> [(spelling, text in the dump)]
SPELL = {
    "id": [(x, "Identifier: " + x) for x in ("a", "b", "c", "x1", "_y", "اسم", "index", "order", "android", "nothing", "caster")]
    + [("12", "IntegerLiteral: 12"), ("0hFf", "IntegerLiteral: 0hFf"), ("1.5", "FloatLiteral: 1.5"), ('"s, (t; +"', "StringLiteral: s, (t; +"), ("'q'", "CharLiteral: q"),
       ("1.5e3", "FloatLiteral: 1.5e3"), ("this", "Identifier: this"), ("value", "Identifier: value")],
    "in": [("in", "in"), ("في", "in"), ("::", "::"), ("::>", "::>"), ("<::", "<::")],
    "?": [("?", "?"), ("؟", "؟")],
    ",": [(",", ""), ("،", "")],
    ":": [(":", ":"), (":>", ":>"), ("<:", "<:")],
    "=": [(x, x) for x in ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "$=", "<<=", ">>=")] + [("÷=", "/=")],
    "or": [(x, x) for x in ("||", "$$", "&&", "or", "nor", "xor", "xnor", "and", "nand")] + [("أو", "or"), ("و", "and"), ("وليس", "nor"), ("أو_حصرا", "xor"), ("أو_ليس", "nand")],
    "==": [(x, x) for x in ("==", "!=", "<", ">", "<=", ">=")],
    "=>": [(x, x) for x in ("=>", "..", "..>", "<.>")],
    "+": [("+", "+"), ("-", "-")],
    "*": [("*", "*"), ("/", "/"), ("%", "%"), ("÷", "/")],
    "|": [(x, x) for x in ("|", "$", "&", "<<", ">>")],
    "!": [("!", "!"), ("!!", "!!"), ("not", "not"), ("ليس", "not")],
    "++": [("++", "++"), ("--", "--")],
    ".": [(x, x) for x in (".", "->", ".>", "<.")],
    "(": [("(", "()")], ")": [(")", "")], "[": [("[", "[]")], "]": [("]", "")], "{": [("{", "")], "}": [("}", "")],
    ";": [(";", ""), ("؛", "")],
    "~": [("~ptr", "PointerOp"), ("~cnt", "ContentOp"), ("~size", "SizeOp"), ("~type", "TypeOp"), ("~ast", "AstRefOp"), ("~no_deref", "NoDerefOp"),
          ("~deref", "DerefOp"), ("~cast[Z]", "CastOp"), ("~cast[Z]", "CastOp"), ("~next_arg[Z]", "NextArgOp"), ("~مؤشر", "PointerOp"), ("~مثل[Z]", "CastOp")],
}
BIN = {"in": "LinkOperator", "?": "ConditionalOperator", ":": "LinkOperator", "=": "AssignmentOperator", "or": "LogOperator", "==": "ComparisonOperator",
       "=>": "LinkOperator", "+": "AdditionOperator", "*": "MultiplicationOperator", "|": "BitwiseOperator"}
GAPS = [" "] * 8 + ["\n", "  ", " /* + ) */ ", " // ; }\n", "\t", " # { (\n"]


class Text:
    """the tokens spelled out, and the place of each"""
    def __init__(self, p, rng, before):
        self.p = p
        self.words = [rng.choice(SPELL[c]) for c in p]
        t = before
        self.at = []
        for c, (w, _) in zip(p, self.words):
            tight = c in ",;()[]{}~." and w not in ("->", ".>", "<.") and rng.random() < .5 and not t[-1:].isdigit()
            t += "" if tight else rng.choice(GAPS)
            line = t[t.rfind("\n") + 1:]
            self.at.append((t.count("\n") + 1, len(line) + 1))
            t += w
        self.text = t

    def tree(self, n):
        k, i = n["k"], n["t"] - 1
        kids = [self.tree(x) for x in n["kids"]]
        w = self.words[i][1] if n["t"] else ""
        if k == "null":
            return ("NULL",)
        if k == "id":
            return (w,)
        if k == "list":
            return ("List",) + tuple(kids)
        if k == "block":
            return ("Block",) + tuple(kids)
        if k == "tilde":
            return (w,) + tuple(kids) + ((("Identifier: Z",),) if w in ("CastOp", "NextArgOp") else (("NULL",),) if w == "TypeOp" else ())
        head = {"bin": BIN.get(self.p[i]), "pre": "PrefixOperator", "post": "PostfixOperator", "link": "LinkOperator", "pass": "ParamPass", "br": "Bracket"}[k]
        return (head + " " + w,) + tuple(kids)


LABEL = re.compile(r"^(first|second|operand|param|targetType|type|body): ")


def dumps(out):
    """the dumps printed, each a nested tuple"""
    res = []
    for d in re.findall(r"-+ Parsed Data Dump -+\n(.*?)\n-{40,}", ANSI.sub("", out), re.S):
        stack = []
        for l in d.split("\n"):
            body = l.lstrip(" ")
            body = LABEL.sub("", body)
            body = re.sub(r" +\[Main[^\]]*\]$", "", body).rstrip()
            node = [body]
            ind = len(l) - len(l.lstrip(" "))
            while stack and stack[-1][0] >= ind:
                stack.pop()
            if stack:
                stack[-1][1].append(node)
            else:
                root = node
            stack.append((ind, node))
        def tup(n):
            return (n[0],) + tuple(tup(x) for x in n[1:])
        res.append(tup(root))
    return res


OPEN = {"module": ("", ""), "func": ("def f: func () {", "};"), "class": None}


def wrap(i, host):
    return ("module P%d { " % i if host == "module" else "module P%d { def f: func () { " % i), (";\n};\n" if host == "module" else ";\n};};\n")


def unwrap(d, host):
    if host == "module":
        return list(d[1:])
    return list(d[1][2][1:])


def accepted(c, preds, tag, limit=3):
    """programs the specification accepts: their trees"""
    jobs = []
    for k in range(0, len(preds), 150):
        jobs.append((k, [(i, p, x, random.Random(c.rng.randrange(1 << 30)), c.rng.choice(["module", "func"])) for i, (p, x) in enumerate(preds[k:k + 150], k)]))

    def one(job):
        k, items = job
        return check(k, items)

    def check(k, items):
        t = 'import "alusus_spp";\n'
        texts = []
        for i, p, x, rng, host in items:
            a, b = wrap(i, host)
            w = Text(p, random.Random(rng.random()), a)
            texts.append(w)
            t += w.text + b + "dump_ast P%d;\n" % i
        path = "%s/%s_%d_%d.alusus" % (c.dir, tag, k, len(items))
        open(path, "w").write(t)
        r = run_alusus(path, 120)
        c.add("evaluations", 1)
        ds = dumps(r.out)
        if len(ds) == len(items):
            res = []
            for (i, p, x, rng, host), w, d in zip(items, texts, ds):
                want = [w.tree(n) for n in x["trees"]]
                try:
                    got = unwrap(d, host)
                except IndexError:
                    got = d
                res.append((i, w, host, want, got, "" if want == got else "tree", r))
            return res
        if len(items) == 1:
            i, p, x, rng, host = items[0]
            return [(i, texts[0], host, [texts[0].tree(n) for n in x["trees"]], [], "no tree (%s)" % (ANSI.sub("", r.out + r.err)[:300] or r.rc), r)]
        h = len(items) // 2
        return check(k, items[:h]) + check(k + h, items[h:])
    bad = 0
    for res in pmap(one, jobs):
        for i, w, host, want, got, m, r in res:
            c.add("trees_compared", len(want))
            if m:
                bad += 1
                with open("%s/diffs_%s.jsonl" % (c.dir, tag), "a") as f:
                    f.write(json.dumps({"p": w.p, "src": w.text, "want": want, "got": got, "m": m}, ensure_ascii=False) + "\n")
                if bad <= limit:
                    a, b = wrap(i, host)
                    c.violation("%s: %s parses as %s, not %s" % (m, " ".join(x[0] for x in w.words), got, want),
                                {"program.alusus": 'import "alusus_spp";\n' + w.text + b + "dump_ast P%d;\n" % i, "abstract.json": w.p, "output.txt": r.out[-3000:] + r.err[-2000:]})
    c.add("traces_validated_against_impl", len(preds))
    log("%s: %d accepted programs, %d differ" % (tag, len(preds), bad))
    if preds:
        c.sample({"tokens": preds[-1][0], "trees": preds[-1][1]["trees"]})


def rejected(c, preds, tag, limit=3):
    """programs the specification rejects: an error where the expression can no longer be continued"""
    items = [(i, p, x, Text(p, random.Random(c.rng.randrange(1 << 30)), 'import "alusus_spp";\n' + wrap(i, "module")[0])) for i, (p, x) in enumerate(preds)]

    def one(it):
        i, p, x, w = it
        t = w.text + ";\n"
        line = t[:len(t) - 2]
        end = (line.count("\n") + 1, len(line) - (line.rfind("\n") + 1) + 1)
        t += "};\n"
        path = "%s/%s_%d.alusus" % (c.dir, tag, i)
        open(path, "w").write(t + "dump_ast P%d;\n" % i)
        r = run_alusus(path, 60)
        c.add("evaluations", 1)
        errs = [l[0][1:] for s, k, m, l in notices(r.out) if s == "ERROR" and l and os.path.basename(l[0][0]) == os.path.basename(path)]
        want = w.at[x["at"] - 1] if x["at"] else end
        if not errs:
            return it, "accepted", errs, want, path
        if errs[0] != want:
            return it, "first error elsewhere", errs, want, path
        os.remove(path)
        return it, "", errs, want, path
    bad = 0
    for it, m, errs, want, path in pmap(one, items):
        if m:
            bad += 1
            with open("%s/diffs_%s.jsonl" % (c.dir, tag), "a") as f:
                f.write(json.dumps({"p": it[1], "src": it[3].text, "want": want, "got": errs, "m": m}, ensure_ascii=False) + "\n")
            if bad <= limit:
                c.violation("%s: %s, errors at %s, the first expected at %s" % (m, " ".join(x[0] for x in it[3].words), errs, want),
                            {"program.alusus": open(path).read(), "abstract.json": it[1]})
    c.add("traces_validated_against_impl", len(preds))
    c.add("programs_rejected_by_the_compiler", len(preds) - bad)
    log("%s: %d rejected programs, %d differ" % (tag, len(preds), bad))


def rand_tokens(rng):
    """a random statement list of the grammar, sometimes damaged"""
    def opt(l, d):
        return [] if rng.random() < .3 else exp(l, d)

    def stmts(d):
        r = []
        for j in range(rng.randint(0, 3)):
            r += exp(1, d) + [";"]
        return r[:-1] if r and rng.random() < .5 else r

    def subj(d):
        q = rng.random()
        if d <= 0 or q < .7:
            return ["id"]
        if q < .85:
            return ["("] + opt(1, d - 1) + [")"]
        if q < .93:
            return ["["] + opt(1, d - 1) + ["]"]
        return ["{"] + stmts(d - 1) + ["}"]

    def chain(d):
        r = subj(d)
        while d > 0 and rng.random() < .35:
            q = rng.random()
            r += ["."] + subj(d - 1) if q < .4 else ["~"] if q < .55 else ["("] + opt(1, d - 1) + [")"] if q < .85 else ["["] + opt(1, d - 1) + ["]"]
        return r

    left = [0]

    def exp(l, d):
        if l == 1:
            left[0] += 1
            if left[0] > 12:
                return ["id"]
        if l >= 12:
            return ([rng.choice(["+", "!", "++"])] if rng.random() < .15 else []) + chain(d) + (["++"] if rng.random() < .1 else [])
        r = exp(l + 1, d)
        if len(r) > 50:
            return r
        p = {1: .05, 2: .05, 3: .12, 4: .06, 5: .15, 6: .12, 7: .12, 8: .05, 9: .2, 10: .2, 11: .15}[l]
        while rng.random() < p * (1.5 if d > 1 else 1):
            r += [{1: "in", 2: "?", 3: ",", 4: ":", 5: "=", 6: "or", 7: "==", 8: "=>", 9: "+", 10: "*", 11: "|"}[l]]
            if l == 3 and rng.random() < .15:
                continue
            r += exp(l + 1, d)
            if l == 2:
                break
        return r
    while 1:
        r = []
        left[0] = 0
        for j in range(rng.choice([1, 1, 2, 3])):
            r += exp(1, 3) + [";"]
        r = r[:-1]
        if rng.random() < .25:
            k = rng.randrange(len(r))
            q = rng.random()
            r = r[:k] + r[k + 1:] if q < .4 else r[:k] + [rng.choice(CLASSES)] + r[k:] if q < .8 else r[:k] + [rng.choice(CLASSES)] + r[k + 1:]
        if 2 <= len(r) <= 60:
            return r


INVS = ("InvGrammar", "InvYield", "Report")


def run():
    build_repo()
    c = Check("C03")
    c.cov["rule"] = ("GramRun: every token sequence up to the bound and random ones of up to 60 tokens; the parse trees dump_ast prints must be the ones the "
                     "precedence levels give, and a sequence that is no expression is reported where it can no longer be continued")
    n = 6 if THOROUGH else 5
    const = 'Mode = "%s" N = %d Alphabet = ' + ALPHA + ' CheckTo = %d'
    space = predict(c, "GramRun", const % ("gen", n, n), "space", invs=INVS)
    c.cov["program_space"] = len(space)
    progs = [rand_tokens(c.rng) for _ in range(40000 if THOROUGH else 3000)]
    progs = list({json.dumps(p): p for p in progs}.values())
    rnd = predict_random(c, const % ("batch", 0, 14), progs)
    for tag, preds in (("space", space), ("random", rnd)):
        good = [q for q in preds if q[1]["ok"]]
        bad = [q for q in preds if not q[1]["ok"]]
        if tag == "space" and not THOROUGH:
            good = c.rng.sample(good, min(len(good), 4000))
        accepted(c, good, tag)
        k = (6000 if THOROUGH else 500) if tag == "space" else (4000 if THOROUGH else 250)
        rejected(c, c.rng.sample(bad, min(len(bad), k)), tag + "_bad")
    c.finish()


def predict_random(c, const, progs):
    res = predict_some(c, const, progs)
    c.add("not_predicted", len(progs) - len(res))
    return res


def predict_some(c, const, progs):
    """as predict, but a sequence with adjacent statements is set aside by the specification"""
    cfg = "SPECIFICATION Spec\nCONSTANTS %s\n%sCHECK_DEADLOCK FALSE\n" % (const, "".join("INVARIANT %s\n" % i for i in INVS))
    r = tlc("GramRun", cfg, "%s/tlc_random" % c.dir, {"batch": {"batch": progs}}, timeout=800)
    if not r.ok:
        raise CheckError("the specification GramRun violates %s:\n%s" % (r.violated, r.state))
    c.add("states", r.distinct)
    c.add("transitions", r.generated)
    res = {}
    for m in re.finditer(r'^"@X (\{.*\})"$', r.out, re.M):
        d = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        res[json.dumps(d["p"])] = (d["p"], d["x"])
    if len(res) < len(progs) / 2:
        raise CheckError("GramRun: predictions for %d of %d sequences" % (len(res), len(progs)))
    log("random: %d predictions, %d states (%.0fs TLC)" % (len(res), r.distinct, r.wall))
    return [res[k] for k in sorted(res)]


if __name__ == "__main__":
    main_guard(run)
