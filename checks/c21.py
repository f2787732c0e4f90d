"""C21: tokens and literals, against LexSpec.tla (division of a text into tokens; what a literal denotes)."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

CH = {"NL": "\n", "CR": "\r", "TAB": "\t", "RLM": "\u200f", "FF": "\f", "DQ": '"', "SQ": "'", "BS": "\\", "noon": "ن", "meem": "م", "tah": "ط",
      "sad": "ص", "ain": "ع", "jeem": "ج", "teh": "ت", "reh": "ر", "beh": "ب", "shadda": "ّ", "yeh": "ي", "div": "÷", "acomma": "،",
      "asemi": "؛", "aquest": "؟", "guill": "«", "emoji": "\U0001F600", "ctl": "\x02", "eacute": "é"}
KIND = {"LexerDefs.Identifier": "Identifier", "LexerDefs.IntLiteral": "Int", "LexerDefs.FloatLiteral": "Float",
        "LexerDefs.CharLiteral": "Char", "LexerDefs.StringLiteral": "Str"}

# exhaustive spaces: (name, alphabet, length quick, length thorough)
SPACES = [
    ("numbers", ["0", "1", "b", ".", "i", "u", "F", "e"], 4, 6),
    ("prefixes", ["0", "7", "x", "o", "meem", "noon", "sad", "8"], 4, 6),
    ("floats", ["1", ".", "e", "+", "f", "ain", "0"], 5, 6),
    ("operators1", ["<", "=", ":", ">", "."], 5, 7),
    ("operators2", ["-", "+", "=", "div", "*", "&", "$"], 4, 5),
    ("operators3", ["!", "|", "~", "@", "<", "BS", "acomma", "aquest", "^", "="], 3, 5),
    ("strings", ["DQ", "BS", "SQ", "x", "4", "1", " "], 5, 6),
    ("chars", ["SQ", "BS", "n", "jeem", "DQ", "é"], 5, 6),
    ("comments", ["/", "*", "NL", "a", "CR", " "], 5, 7),
    ("comments2", ["#", "/", "NL", "DQ", "*", ";"], 5, 6),
    ("words", ["a", "_", "beh", "shadda", "9", "^", "TAB", "emoji"], 4, 6),
]

PIECES = {
    "num": [["0"], ["1"], list("42"), list("0x1F"), list("0b101"), ["0", "noon", "1", "0"], list("0o17"), ["0", "meem", "7"], list("0h8"),
            list("12u"), list("7i8"), ["9", "tah"], list("5ui64"), ["3", "sad", "8"], list("1.5"), list("2f"), list("1e5"), list("3.25e-2f64"),
            ["1", "ain"], list(".5"), list("1."), list("0x"), list("0b2"), list("1e+"), list("00")],
    "str": [["DQ", "DQ"], ["DQ", "a", "DQ"], ["DQ", "BS", "n", "DQ"], ["DQ", "BS", "DQ", "DQ"], ["DQ", "BS", "x", "4", "1", "DQ"],
            ["DQ", "BS", "u", "0", "6", "4", "5", "DQ"], ["DQ", "BS", "U", "0", "0", "0", "1", "F", "6", "0", "0", "DQ"], ["DQ", "BS", "h", "7", "a", "b", "DQ"],
            ["DQ", "beh", "BS", "jeem", "BS", "reh", "BS", "teh", "DQ"], ["DQ", "NL", "DQ"], ["DQ", "/", "/", "DQ"], ["DQ", "/", "*", "DQ"], ["DQ", "#", "DQ"],
            ["SQ", "a", "SQ"], ["SQ", "BS", "SQ", "SQ"], ["SQ", "DQ", "SQ"], ["SQ", "BS", "BS", "SQ"], ["SQ", "NL", "SQ"], ["SQ", "BS", "x", "4", "f", "SQ"],
            ["DQ", "SQ", "DQ"], ["DQ", "BS", "BS", "DQ"], ["DQ", "BS", "f", "BS", "t", "BS", "r", "DQ"], ["DQ", "BS", "q", "DQ"], ["DQ", "BS", "x", "4", "DQ"]],
    "com": [["/", "*", "*", "/"], ["/", "*", "a", "NL", "*", "*", "/"], ["/", "/", "x", "DQ", "NL"], ["#", "'", "NL"], ["/", "/", "NL"], ["#", "NL"], ["/", "*", "/", "*", "/"]],
    "sp": [[" "], [" "], ["NL"], ["CR", "NL"], ["TAB"], ["RLM"], [" ", " "], []],
    "op": [list(o) for o in "+ - * / % << >> <<= >>= == != <= >= => -> ++ -- += -= = ~ . .. ... ..> .> <. <.> <: :> :: <:: ::> : ; , ( ) { } [ ] @ @< ? ! !! & && &= | || |= $ $$ $= *= /= %= < >".split()]
          + [["BS"], ["div"], ["div", "="], ["acomma"], ["asemi"], ["aquest"], ["."], ["/"], ["*"], ["<"], [":"]],
    "id": [["a"], list("ab1"), ["_"], ["beh", "yeh"], list("x_9"), list("if"), ["e"], ["u"], ["f"], ["i"], list("b1")],
    "bad": [["^"], ["`"], ["guill"], ["emoji"], ["ctl"], ["eacute"], ["BS", "BS"]],
}


def conv(t):
    return "".join(CH.get(x, x) for x in t)


def decoded(t):
    return b"".join(chr(int(x[2:], 16)).encode() if x.startswith("U+") else CH.get(x, x).encode() for x in t)


def judged(t):
    """numeric escapes that name no character are set aside"""
    for x in t:
        if x.startswith("U+"):
            v = int(x[2:], 16)
            if v == 0 or 0xD800 <= v < 0xE000 or v > 0x10FFFF:
                return False
    return True


def random_text(rng):
    out = []
    w = rng.choice([("num", "op", "sp", "id"), ("str", "com", "sp", "op"), ("num", "str", "com", "sp", "sp", "op", "id", "bad"), ("com", "sp", "id", "bad"),
                    ("op", "op", "sp"), ("str", "sp", "id")])
    for _ in range(rng.randint(2, 9)):
        out += rng.choice(PIECES[rng.choice(w)])
        if rng.random() < 0.35:
            out += rng.choice([[" "], ["NL"]])
    if rng.random() < 0.25 and out:
        k = rng.randrange(len(out))
        if rng.random() < 0.5:
            del out[k]
        else:
            out.insert(k, rng.choice(["DQ", "BS", "SQ", "/", "*", "NL", "0", "^", ".", "<"]))
    return [{"'": "SQ"}.get(x, x) for x in out]


def lex(c, binary, texts):
    """-> per text a list of (kind, bytes, line, column) or None if the scanner died"""
    import subprocess
    chunks = [texts[i::NCPU] for i in range(NCPU)]

    def one(ch):
        r = subprocess.run([binary], input="".join((t.encode().hex() or "-") + "\n" for t in ch), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env=alusus_env(), timeout=600)
        res, cur = [], []
        for l in r.stdout.split("\n"):
            if l == ".":
                res.append(cur)
                cur = []
            elif l[:2] in ("T ", "N "):
                a = l.split()
                txt = bytes.fromhex(a[2]) if a[2] != "-" else b""
                cur.append((KIND.get(a[1], "Op") if a[0] == "T" else "!" + a[1], txt, int(a[3]), int(a[4])))
            elif l:
                cur.append(("!died", b"", 0, 0))
        return res + [None] * (len(ch) - len(res))
    parts = pmap(one, chunks)
    out = [None] * len(texts)
    for i in range(NCPU):
        out[i::NCPU] = parts[i]
    return out


def complain(p, x, got):
    """The division predicted for the text p against the one observed."""
    if got is None:
        return "the scanner died"
    exp = []
    n = len(x)
    opened = n > 0 and x[-1]["k"] == "Open"
    for e in x[:n - 1] if opened else x:
        exp.append(e)
    g = list(got)
    for e in exp:
        if not g:
            return "missing %s" % e
        k, t, l, col = g.pop(0)
        if (l, col) != (e["l"], e["c"]):
            return "%s expected at (%d,%d), found at (%d,%d)" % (e["k"], e["l"], e["c"], l, col)
        if e["k"] == "Unknown":
            if k != "!CL1001" and not k.startswith("!"):
                return "expected a complaint about %r, found %s %r" % (conv(e["t"]), k, t)
            continue
        if k != e["k"]:
            return "expected %s, found %s %r" % (e["k"], k, t)
        if e["k"] in ("Str", "Char") and not judged(e["t"]):
            continue
        want = conv(e["t"]).encode() if e["k"] not in ("Str", "Char") else decoded(e["t"])
        if t != want:
            return "%s %r expected, found %r" % (k, want, t)
    if opened:
        return ""       # what follows an unfinished literal or comment is not judged here
    if g:
        return "unexpected %s" % (g[0],)
    return ""


def divide(c, binary, name, preds):
    texts = [conv(p) for p, _ in preds]
    got = lex(c, binary, texts)
    c.add("traces_validated_against_impl", len(texts))
    bad = 0
    for (p, x), t, g in zip(preds, texts, got):
        m = complain(p, x, g)
        if m:
            bad += 1
            if bad <= 3:
                c.violation("%s: text %r: %s" % (name, t, m), {"text.txt": t, "expected.json": x, "observed.txt": str(g)})
    log("%s: %d texts compared, %d differ, %d end inside a token" % (name, len(texts), bad, sum(1 for _, x in preds if x and x[-1]["k"] == "Open")))
    c.sample({"space": name, "text": texts[len(texts) // 2], "expected": preds[len(texts) // 2][1], "observed": str(got[len(texts) // 2])})


KNOWN = [t for k, t in known_findings("C21") if k == "float64-literal-single-precision"]
KNOWN_SEEN = []

HEADER = 'import "alusus_spp";\ndef printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64];\ndef fflush: @expname[fflush] function (p: Int[64])=>Int;\n' \
    + "".join("func t(v: %s[%d]): Int { return %d }\n" % (k, w, w * 2 + (k == "Int")) for k in ("Int", "Word") for w in (1, 8, 16, 32, 64)) \
    + "func g(v: Float[32]): Int { return 32 }\nfunc g(v: Float[64]): Int { return 64 }\n"


def literal_program(n, p, x):
    v = x[0]["v"]
    s = conv(p)
    if v["what"] in ("float",) or (v["what"] == "error" and "n" in v):
        return 'module P%d { func main { printf("@ %d f %%d %%.17g\\n", g(%s), (%s)~cast[Float[64]]); } };\nP%d.main();\n' % (n, n, s, s, n)
    if v["what"] == "null":
        return 'module P%d { func main { printf("@ %d i 0 %%lx\\n", (%s)~cast[Int[64]]); } };\nP%d.main();\n' % (n, n, s, n)
    return 'module P%d { func main { printf("@ %d i %%d %%lx\\n", t(%s), (%s)~cast[Int[64]]); } };\nP%d.main();\n' % (n, n, s, s, n)


def literal_expected(v):
    if v["what"] == "error":
        return None
    if v["what"] == "float":
        return ["f", str(v["width"]), "%.17g" % (v["n"] * 2.0 ** v["p"])]
    val = sum(l << (16 * i) for i, l in enumerate(v["l"]))
    if v["negative"]:
        val -= 1 << v["width"]
        val &= (1 << 64) - 1
    return ["i", "0" if v["what"] == "null" else str(v["width"] * 2 + (1 if v["signed"] else 0)), "%x" % val]


def judge_literal(p, x, o):
    e = literal_expected(x[0]["v"])
    if e is None:
        return "" if o.errors and not o.events else "accepted, expected an error"
    if o.errors:
        return "rejected"
    if o.events != [e]:
        v = x[0]["v"]
        if KNOWN and v["what"] == "float" and v["width"] == 64:
            # the known finding, and nothing else: the value rounded to 32 bits
            r = struct.unpack("f", struct.pack("f", v["n"] * 2.0 ** v["p"]))[0]
            if o.events == [["f", "64", "%.17g" % r]]:
                KNOWN_SEEN.append(conv(p))
                return ""
        return "expected %s" % e
    return ""


def int_texts(rng):
    """integer literals around the places where the width changes"""
    res = []
    for bits in (0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64):
        for d in (-1, 0, 1):
            v = (1 << bits) + d
            if 0 <= v < 1 << 64:
                res += [str(v), "0x%X" % v, "0b" + bin(v)[2:], "0o" + oct(v)[2:], "0h%x" % v]
    for _ in range(60 if not THOROUGH else 600):
        v = rng.getrandbits(rng.randint(1, 64))
        res.append(rng.choice(["%d", "0x%x", "0X%X", "0h%x", "0H%X", "0o%o", "0O%o"]) % v)
        res.append(["0", rng.choice(["noon", "b", "B"])] + list(bin(v)[2:]))
        res.append(["0", "meem"] + list(oct(v)[2:]))
        res.append(list("0" * rng.randint(1, 20)) + list(str(v)))
    out = []
    for r in res:
        r = list(r)
        u = rng.choice([[], [], ["u"], ["U"], ["tah"]])
        i = rng.choice([[], [], ["i"] + list(rng.choice(["8", "16", "32", "64", "1", "7", "08", ""] if rng.random() < 0.3 else ["32", "64"])),
                        [rng.choice(["I", "sad"])] + list(rng.choice(["8", "64", "16"]))])
        if len(i) == 1:
            i = []
        out.append(r + u + i)
    for w in ("99999999999", "65", "2147483647", "2147483648", "18446744073709551617"):
        out.append(["1", "i"] + list(w))
    return out


def float_texts(rng):
    out = []
    for _ in range(250 if not THOROUGH else 2500):
        m = rng.choice([rng.randint(0, 99), rng.randint(0, 1 << 24), rng.randint(1 << 24, (1 << 31) - 1), rng.choice([16777217, 33554433, 1 << 24, (1 << 30) + 1])])
        k = rng.randint(0, 6)
        f = rng.random()
        if f < 0.4:
            m = m * 5 ** k
            if m >= 10 ** 9:
                continue
            s = str(m).rjust(k + 1, "0")
            t = s[:-k] + "." + s[-k:] if k else s + rng.choice([".0", "", ".00"])
        elif f < 0.7:
            t = str(m) + rng.choice(["e", "E"]) + rng.choice(["", "+"]) + str(rng.randint(0, 4))
        else:
            m = m * 5 ** k
            if m >= 10 ** 9:
                continue
            t = str(m) + rng.choice(["e", "E"]) + "-" + str(k)
        if t[:2] == "0." and rng.random() < 0.5:
            t = t[1:]
        suf = rng.choice([[], ["f"], ["F", "3", "2"], ["f", "6", "4"], ["f", "6", "4"], ["ain", "6", "4"], ["ain"], ["F", "6", "4"]])
        if not suf and "." not in t and "e" not in t.lower():
            suf = ["f", "6", "4"]
        out.append(list(t) + suf)
    for w in ("99999999999", "16", "65", "4294967360", "4294967328"):
        out.append(list("1.5f" + w))
    return out


def string_program(n, p, x):
    s = conv(p)
    return 'module P%d { func main { def s: ptr[array[Word[8]]](%s); def i: Int; printf("@ %d s"); for i = 0, s~cnt(i) != 0, ++i printf(" %%d", s~cnt(i)~cast[Int]); printf("\\n"); } };\nP%d.main();\n' % (n, s, n, n)


def check():
    c = Check("C21", "model_checked+conformance")
    build_repo()
    import subprocess
    os.makedirs(c.dir, exist_ok=True)
    binary = c.dir + "/lexer_harness"
    r = subprocess.run(["bash", VERIF + "/drivers/lexer/build.sh", binary], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=clean_env({"ALUSUS_REPO": REPO}))
    invs = ["SameAsGreedy", "PositionsAgree"]
    if r.returncode != 0:
        log("the scanner harness does not build against this tree; only whole programs are compared\n" + r.stdout[-1500:])
    else:
        spaces = [{"a": [{"é": "eacute"}.get(x, x) for x in a], "n": th if THOROUGH else q} for _, a, q, th in SPACES]
        for i in range(0, len(spaces), 2 if THOROUGH else len(spaces)):
            part = spaces[i:i + (2 if THOROUGH else len(spaces))]
            preds = predict(c, "LexRun", "Batched = FALSE", "space%d" % i, part, invs, timeout=3000, heap="12g", count=False)
            divide(c, binary, "all texts" if not THOROUGH else "all texts %d" % i, preds)
        texts, seen = [], set()
        while len(texts) < (30000 if THOROUGH else 2500):
            t = random_text(c.rng)
            if str(t) not in seen:
                seen.add(str(t))
                texts.append(t)
        preds = predict(c, "LexRun", 'Batched = TRUE', "random", texts, invs, timeout=3000, heap="12g")
        divide(c, binary, "random", preds)
    # what literals denote, in running programs
    lits = [t for t in {json.dumps(t): t for t in int_texts(c.rng) + float_texts(c.rng)}.values()]
    preds = predict(c, "LexRun", 'Batched = TRUE', "literals", lits, invs, timeout=1500)
    for p, x in preds:
        if len(x) != 1 or x[0]["k"] not in ("Int", "Float"):
            raise CheckError("not a literal: %s %s" % (p, x))
    preds = [(p, x) for p, x in preds if x[0]["v"].get("fits", True) and x[0]["v"].get("exact", True)]
    c.cov["literals"] = len(preds)
    compare(c, "literals", preds, [(literal_program(i + 1, p, x), x[0]["v"]["what"] == "error") for i, (p, x) in enumerate(preds)], HEADER,
            judge_literal, bundle=60)
    if KNOWN_SEEN:
        print("KNOWN-FINDING: property=C21 %s (%d literals of this run, such as %s)" % (KNOWN[0], len(KNOWN_SEEN), KNOWN_SEEN[0]), flush=True)
    c.cov["known_finding_literals"] = len(KNOWN_SEEN)
    c.cov["bounds"] = "all texts up to the given length over: " + "; ".join("%s %s <= %d" % (n, "".join(conv(a)), th if THOROUGH else q) for n, a, q, th in SPACES)
    c.finish()


if __name__ == "__main__":
    main_guard(check)
