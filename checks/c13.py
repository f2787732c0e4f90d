"""C13 Srl.Map: spec/MapSpec.tla + spec/Hist.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from histcheck import *

SRC = open(VERIF + "/drivers/map.alusus").read()
OBJ = "def EL: alias E; func mk(v: Int): E { return E(v) }; func val(e: ref[E]): Int { return e.v };"
KIND = {"int": OBJ + "def KEY: alias Int; func mkKey(k: Int): Int { return k }; func keyVal(k: ref[Int]): Int { return k };",
        "str": OBJ + 'def KEY: alias String; func mkKey(k: Int): String { def s: String("k"); s += (1000 + k)~cast[Int[64]]; '
               'return s }; func keyVal(k: ref[String]): Int { def t: String = k.slice(1, 4); '
               'return String.parseInt(t)~cast[Int] - 1000 };'}


def fmt(o):
    return str(o[0]) + "".join("[" + "".join("%d:%d," % tuple(v) for v in q) + "]" for q in o[1])


def parse(t):
    r, rest = t.split("[", 1)
    return [int(r), [[[int(w) for w in v.split(":")] for v in q.rstrip("]").split(",") if v] for q in rest.split("[")]]


def adt(kind, nm, gen=False):
    return Adt("MapHist", "M", ["InvIndex", "InvFind", "InvKeys"] + (["InvAgrees"] if gen else []),
               SRC.replace("#TYPE#", KIND[kind]), str(nm), fmt, parse)


def rand_history(rng, nm, n):
    q = [[] for _ in range(nm)]        # keys only
    share = list(range(nm))
    fresh = nm
    ops = []
    nk = rng.choice([4, 8, 30])
    idx = rng.random() < .8
    for i in range(nm):
        if idx and rng.random() < .7:
            ops.append([13, i + 1, 1, 1, 0, 0])
    for _ in range(n):
        i, j, k, v = rng.randrange(nm), rng.randrange(nm), rng.randrange(1, nk), rng.randrange(1, 100)
        o = rng.choice([1] * 8 + [2, 3, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 8, 9, 9, 10, 11, 11, 12, 12, 14] + [13] * (rng.random() < .3))
        x = 0
        if o == 2 and k in q[i] and share.count(share[i]) > 1:
            continue
        if o in (4, 7):
            if not q[i]:
                continue
            x = rng.randrange(len(q[i]))
        if o == 5:
            if k in q[i]:
                continue
            x = rng.randrange(len(q[i]) + 1)
        if o in (11, 13):
            x = rng.randrange(2)
        ops.append([o, i + 1, j + 1, x, k, v])
        if o in (1, 2, 3) and k not in q[i]:
            q[i] = q[i] + [k]
        elif o == 5:
            q[i] = q[i][:x] + [k] + q[i][x:]
        elif o == 6:
            q[i] = [y for y in q[i] if y != k]
        elif o == 7:
            q[i] = q[i][:x] + q[i][x + 1:]
        elif o in (8, 13):
            q[i] = []
            share[i] = fresh
            fresh += 1
        elif o in (9, 10, 11):
            q[i] = q[j]
            share[i] = share[j]
    return ops


def run():
    build_repo()
    c = Check("C13")
    c.cov["rule"] = ("one history per transition of the bounded state graph of MapSpec.tla (entries x index x buffer sharing), "
                     "replayed in the real Map with Int and String keys; plus random long histories recorded from the real "
                     "Map and accepted by the specification")
    c.assumptions = ["contents are read back through getLength, keyAt and valAt",
                     "writing through the reference returned by m(k) while values are shared is outside the domain (known finding of C12)"]
    spaces = [(2, "{1,2}", "{1}", 2), (1, "{1,2,3,4}", "{1}", 4)] if not THOROUGH else [(2, "{1,2,3}", "{1}", 3), (2, "{1,2}", "{1,2}", 2), (3, "{1}", "{1}", 1)]
    for nm, keys, vals, ms in spaces:
        A = adt("int", nm, True)
        cases = generate(c, A, "NM=%d Keys=%s Vals=%s MaxSeq=%d" % (nm, keys, vals, ms), "gen%d%d%d" % (nm, ms, len(vals)))
        for kind in ("int", "str"):
            part = cases if THOROUGH or kind == "int" else [x for k, x in enumerate(cases) if k % 4 == SEED % 4]
            check_generated(c, adt(kind, nm), part, "%s%d%d%d" % (kind, nm, ms, len(vals)))
        c.sample({"history": cases[len(cases) // 2][0], "specified": cases[len(cases) // 2][1]})
    n = 12000 if THOROUGH else 500
    for kind in ("int", "str"):
        hs = [rand_history(c.rng, 3, c.rng.choice([10, 30, 60])) for _ in range(n)]
        check_recorded(c, adt(kind, 3), [h for h in hs if h], "NM=3 Keys={1,2,3,4,5,6,7,8} Vals={1} MaxSeq=100", "random_" + kind)
    c.finish()


main_guard(run)
