"""C14 Srl.String, WString, StringBuilder: spec/StrSpec.tla + spec/Hist.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from strkind import *


def fmt(o):
    return str(o[0]) + "".join("[" + "".join("%d," % v for v in q) + "]" for q in o[1])


def parse(t):
    r, rest = t.split("[", 1)
    return [int(r), [[int(v) for v in q.rstrip("]").split(",") if v] for q in rest.split("[")]]


def adt(kind, ns, nb):
    return Adt("StrHist", "S", ["InvFits"], source(kind, ns, nb), "%d %d" % (ns, nb), fmt, parse)


def rand_history(rng, kind, ns, nb, n):
    ln = [0] * (ns + nb)
    ops = []
    codes = [1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 6, 7, 7, 8, 8, 9, 10, 11, 12, 14, 14, 16, 17, 17, 18, 18, 19, 19, 20, 21, 22, 23, 24, 25, 26]
    if kind == "char":
        codes += [13, 13, 15, 27, 28, 29]
    if nb:
        codes += [30, 30, 30, 31, 31, 32, 32, 34, 35, 35, 36, 37, 38, 39, 40, 40, 41, 42, 43] * 2
    q = [[] for _ in range(ns + nb)]
    nl = len(LITS)
    for _ in range(n):
        o = rng.choice(codes)
        i, j = rng.randrange(ns), rng.randrange(ns)
        if o >= 30:
            j = ns + rng.randrange(nb)
        if max(ln) > 60 and o in (3, 4, 5, 8, 17, 19, 28, 29, 30, 31, 39, 40, 42, 43, 15, 36):
            o, i = 9, ln.index(max(ln))
            if i >= ns:
                o, j, i = 34, i, 0
        x, nn, l = 0, 0, rng.randrange(1, nl + 1)
        a, b = ln[i], ln[j]
        if o == 6:
            x, nn = rng.randrange(b + 2), rng.randrange(b + 3)
        elif o == 7:
            nn = rng.randrange(3)
        elif o in (8, 17):
            l, nn = rng.randrange(2, nl + 1), rng.randrange(1, nl + 1)
        elif o == 10:
            x = rng.randrange(a + 2)
        elif o == 13:
            nn = rng.randrange(2)
        elif o in (14, 37):
            x = rng.choice([97, 98, 32, 122, 1, 255 if kind == "char" else 1500])
        elif o in (15, 36):
            x = rng.randrange(1, len(INTS) + 1)
        elif o in (29, 42):
            x = rng.randrange(1, len(FLOATS) + 1)
        elif o == 16:
            x = rng.randrange(a + 1)
        elif o in (18, 19):
            x = rng.randrange(b + 1)
            nn = rng.randrange(b - x + 1)
        elif o == 43:
            x = rng.randrange(a + 1)
            nn = rng.randrange(a - x + 1)
        elif o == 21:
            nn = rng.randrange(b + 2)
        elif o == 23:
            x, nn = rng.choice([97, 98, 32]), rng.randrange(a + 1)
        elif o == 24:
            x = rng.choice([97, 98, 32])
        elif o == 25:
            if a == 0:
                continue
            x = a + rng.randrange(4)
        elif o in (28, 39):
            x = rng.randrange(-500, 500)
        elif o == 35:
            nn = rng.randrange(1, 6)
        elif o == 41:
            x, nn = rng.randrange(0, 8), rng.randrange(1, 6)
        op = [o, i + 1, j + 1, x, nn, l]
        # lengths (and for parseInt the digits) follow a small copy of the semantics
        r = pystep(q, o, i, j, x, nn, l)
        if r is None:
            continue
        q, ln = r, [len(y) for y in r]
        ops.append(op)
    return ops


def pystep(q, o, i, j, x, n, l):
    """Content only, used to keep random operations inside their domain (positions within lengths)."""
    q = list(q)
    L = lambda k: "".join(map(chr, LITS[k - 1]))
    s = ["".join(map(chr, y)) for y in q]
    p, r = s[i], s[j]
    tgt, v = i, None
    if o == 1: v = L(l)
    elif o in (2, 20): v = r
    elif o == 3: v = p + L(l)
    elif o == 4: v = p + r
    elif o == 5: v = r + L(l)
    elif o in (6, 18): v = r[x:x + n]
    elif o == 7: v = r.strip(" \n\r\t") if n == 0 else r.lstrip(" \n\r\t") if n == 1 else r.rstrip(" \n\r\t")
    elif o in (8, 17): v = r.replace(L(l), L(n))
    elif o == 9: v = ""
    elif o == 13: v = "".join(c.upper() if "a" <= c <= "z" else c for c in r) if n == 0 else "".join(c.lower() if "A" <= c <= "Z" else c for c in r)
    elif o == 14: v = p + chr(x)
    elif o == 15: v = p + INTS[x - 1]
    elif o == 29: v = p + FLOATS[x - 1][1]
    elif o == 19: v = p + r[x:x + n]
    elif o == 28: v = "x" + r + str(x) + "c%"
    elif o == 27:
        if len(re.match(r"-?(\d*)", p).group(1)) > 8:
            return None
    elif o == 30: tgt, v = j, r + L(l)
    elif o == 31: tgt, v = j, r + p
    elif o == 32: v = r
    elif o in (34, 41): tgt, v = j, ""
    elif o == 35: tgt, v = j, p
    elif o == 36: tgt, v = j, r + INTS[x - 1]
    elif o == 42: tgt, v = j, r + FLOATS[x - 1][1]
    elif o == 37: tgt, v = j, r + chr(x)
    elif o == 39: tgt, v = j, r + p + "-" + str(x) + "%c"
    elif o == 40: tgt, v = j, r + r
    elif o == 43: tgt, v = j, r + p[x:x + n]
    if v is not None:
        q[tgt] = [ord(c) for c in v]
    return q


def run():
    build_repo()
    c = Check("C14")
    c.cov["rule"] = ("one history per transition of bounded state graphs of StrSpec.tla (character sequences x buffer sharing x "
                     "builder capacity), replayed in the real String, WString and StringBuilder; plus random long histories "
                     "recorded from the real classes and accepted by the specification")
    c.assumptions = ["contents are read back through the character buffer",
                     "outside the domain: empty separators/matches, negative positions, shrinking realloc, characters read past the end"]
    q = [("char", 2, 0, "{1,2}", 2), ("char", 1, 0, "{2,6,7}", 3), ("char", 1, 1, "{1,2,3}", 2), ("wide", 2, 0, "{1,2}", 1),
         ("wide", 1, 0, "{2,3,4}", 3)]
    t = [("char", 2, 0, "{1,2,3}", 3), ("char", 1, 0, "{6,2,7,11}", 4), ("char", 1, 1, "{2,3}", 3), ("char", 2, 1, "{2}", 2),
         ("wide", 2, 0, "{1,2,3}", 2), ("wide", 1, 0, "{2,3,4,6}", 4), ("char", 3, 0, "{2}", 1)]
    for kind, ns, nb, lits, ms in (t if THOROUGH else q):
        A = adt(kind, ns, nb)
        name = "%s%d%d%d" % (kind, ns, nb, ms)
        cases = generate(c, A, "NS=%d NB=%d Lits=%s MaxSeq=%d Wide=%s" % (ns, nb, lits, ms, "TRUE" if kind == "wide" else "FALSE"), "gen" + name)
        check_generated(c, A, cases, name)
        c.sample({"history": cases[len(cases) // 2][0], "specified": cases[len(cases) // 2][1]})
    n = 8000 if THOROUGH else 400
    for kind, ns, nb in (("char", 3, 0), ("char", 2, 2), ("wide", 3, 0)):
        hs = [rand_history(c.rng, kind, ns, nb, c.rng.choice([10, 30, 60])) for _ in range(n)]
        check_recorded(c, adt(kind, ns, nb), [h for h in hs if h],
                       "NS=%d NB=%d Lits={1} MaxSeq=1000 Wide=FALSE" % (ns, nb), "random_%s%d" % (kind, nb))
    c.finish()


main_guard(run)
