"""C12 Srl.Array: spec/ArraySpec.tla + spec/Hist.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from histcheck import *

SRC = open(VERIF + "/drivers/array.alusus").read()
KIND = {"object": "def EL: alias E; func mk(v: Int): E { return E(v) }; func val(e: ref[E]): Int { return e.v };",
        "int": "def EL: alias Int; func mk(v: Int): Int { return v }; func val(e: ref[Int]): Int { return e };"}


def fmt(o):
    return str(o[0]) + "".join("[" + "".join("%d," % v for v in q) + "]" for q in o[1])


def parse(t):
    r, rest = t.split("[", 1)
    return [int(r), [[int(v) for v in q.rstrip("]").split(",") if v] for q in rest.split("[")]]


def adt(kind, na):
    return Adt("ArrayHist", "A", ["InvRefines", "InvCap"], SRC.replace("#TYPE#", KIND[kind]), str(na), fmt, parse)


def rand_history(rng, na, n):
    """Random ops; lengths are tracked only to stay inside the documented domain."""
    ops, q, share = [], [0] * na, list(range(na))
    fresh = na
    for _ in range(n):
        i, j, v = rng.randrange(na), rng.randrange(na), rng.randrange(1, 100)
        o = rng.choice([1, 1, 1, 1, 1, 2, 3, 4, 4, 5, 5, 5, 6, 6, 6, 7, 8, 9, 9, 9, 10, 11, 12, 13, 14, 15, 16, 17])
        if o == 2 and q[i] + q[j] > 40:
            continue
        x = rng.randrange(-1, q[i] + 2)
        nn = rng.randrange(0, 6)
        if o == 7:
            x, nn = rng.randrange(0, q[j] + 2), rng.randrange(0, q[j] + 2)
        if o == 11:
            nn = rng.randrange(0, 30)
        if o == 12:
            v = rng.choice([v, 5])
        if o in (15, 16):
            if not q[i]:
                continue
            nn = rng.randrange(q[i])
        if o == 14:
            if not q[i] or share.count(share[i]) > 1:
                continue
            x = rng.randrange(q[i])
        ops.append([o, i + 1, j + 1, x, nn, v])
        inr = 0 <= x < q[i]
        # share: which arrays may share a buffer (an over-approximation is enough to stay in the domain)
        if o == 9:
            share[i] = share[j]
        elif o in (7, 17):
            share[i] = fresh
            fresh += 1
        if o in (1, 15, 16, 5) or (o == 4 and not inr):
            q[i] += 1
        elif o == 2:
            q[i] += q[j]
        elif o == 3:
            q[i] += 2
        elif o == 6 and inr:
            q[i] -= 1
        elif o == 7:
            q[i] = max(0, min(nn, q[j] - x))
        elif o == 8:
            q[i] = 0
            share[i] = fresh
            fresh += 1
        elif o == 9:
            q[i] = q[j]
        elif o == 17:
            q[i] = 3
    return ops


def known(c):
    """a(x) = v on a shared buffer"""
    for key, text in known_findings("C12"):
        if key == "element-reference-writes-shared-buffer":
            h = [[1, 1, 1, 0, 0, 5], [9, 2, 1, 0, 0, 0], [14, 2, 1, 0, 0, 8]]
            out, _ = run_histories(c, adt("int", 2), [h], "known")
            if out and out[0].split(";")[2] == "0[8,][8,]":
                print("KNOWN-FINDING: property=C12 %s" % text, flush=True)


def run():
    build_repo()
    c = Check("C12")
    c.cov["rule"] = ("one history per transition of the bounded state graph of ArraySpec.tla (value sequences x buffer sharing x "
                     "capacity), replayed in the real Array with object and Int elements; plus random long histories "
                     "recorded from the real Array and accepted by the specification")
    c.assumptions = ["contents are read back through Array itself (getLength and indexing)",
                     "writing through the reference returned by a(i) while the buffer is shared is outside the domain (known finding)"]
    spaces = [(2, "{1,2}", 2)] if not THOROUGH else [(2, "{1,2}", 3), (3, "{1}", 2), (2, "{1,2}", 2)]
    for na, vals, ms in spaces:
        A = adt("object", na)
        cases = generate(c, A, "NA=%d Vals=%s MaxSeq=%d" % (na, vals, ms), "gen%d%d" % (na, ms))
        if THOROUGH:
            check_generated(c, A, cases, "object%d%d" % (na, ms))
            check_generated(c, adt("int", na), cases, "int%d%d" % (na, ms))
        else:
            check_generated(c, A, [x for k, x in enumerate(cases) if k % 3 != SEED % 3], "object%d%d" % (na, ms))
            check_generated(c, adt("int", na), [x for k, x in enumerate(cases) if k % 3 == SEED % 3], "int%d%d" % (na, ms))
        c.sample({"history": cases[len(cases) // 2][0], "specified": cases[len(cases) // 2][1]})
    n = 20000 if THOROUGH else 800
    for kind in ("object", "int"):
        hs = [rand_history(c.rng, 4, c.rng.choice([10, 25, 50])) for _ in range(n)]
        check_recorded(c, adt(kind, 4), [h for h in hs if h], "NA=4 Vals={1} MaxSeq=100", "random_" + kind)
    known(c)
    c.finish()


main_guard(run)
