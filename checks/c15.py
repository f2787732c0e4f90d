"""C15 smart references: spec/RefSpec.tla + spec/Hist.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from histcheck import *

SRC = open(VERIF + "/drivers/refs.alusus").read()


def fmt(o):
    return "".join("+%d" % e if e > 0 else "%d" % e for e in o[0]) + "|%d" % o[1] + \
        "".join("|" + "".join("%d," % v for v in q) for q in o[2:])


def parse(t):
    p = t.split("|")
    return [[int(x) for x in re.findall(r"[+-]\d+", p[0])], int(p[1])] + [[int(v) for v in q.split(",") if v] for q in p[2:]]


def adt(dims):
    return Adt("RefHist", "R", ["InvAlive", "InvWeak"], SRC, "%d %d %d %d %d" % dims, fmt, parse)


class Ref:
    """Who points where; used to keep random operations inside their domain."""
    def __init__(self, d):
        self.r, self.b, self.w, self.u, self.a = [0] * d[0], [0] * d[1], [0] * d[2], [0] * d[3], [[] for _ in range(d[4])]
        self.nx, self.n = {}, 0

    def owners(self, o):
        return self.r.count(o) + self.b.count(o) + sum(q.count(o) for q in self.a) + list(self.nx.values()).count(o)

    def sweep(self):
        dead = True
        while dead:
            dead = [o for o in self.nx if not self.owners(o) and o not in self.u]
            for o in dead:
                del self.nx[o]
                self.w = [-1 if x == o else x for x in self.w]

    def new(self):
        self.n += 1
        self.nx[self.n] = 0
        return self.n

    def reach(self, o):
        s = set()
        while o and o not in s:
            s.add(o)
            o = self.nx[o]
        return s


def rand_history(rng, d, n):
    m, ops = Ref(d), []
    for _ in range(n):
        o = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 10, 10, 10, 10, 11, 11, 11, 12, 12, 13, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23,
                        24, 25, 26, 27, 28, 29, 30, 31, 32, 33])
        R, Bn, W, U, A = range(d[0]), range(d[1]), range(d[2]), range(d[3]), range(d[4])
        i, j, x = rng.choice(R), rng.choice(R), 0
        if len(m.nx) > 14 and o in (1, 9, 26, 21, 22):
            continue
        if o in (1, 9, 26):
            m.r[i] = m.new()
        elif o in (2, 25):
            m.r[i] = m.r[j]
        elif o == 3:
            j = rng.choice(W)
            if m.w[j] < 0:
                continue
            m.r[i] = m.w[j]
        elif o == 4:
            m.r[i] = 0
        elif o in (5, 6, 7, 8, 33):
            i = rng.choice(W)
            j = rng.choice(R if o == 5 else W)
            if o in (8, 33) and m.w[i] < 0:
                continue
            if o == 33:
                m.w[j] = m.w[i]
            elif o != 8:
                m.w[i] = m.r[j] if o == 5 else m.w[j] if o == 6 else 0
        elif o == 10:
            if not m.r[i] or m.r[i] in m.reach(m.r[j]):
                continue
            m.nx[m.r[i]] = m.r[j]
        elif o in (11, 30):
            if not m.r[i]:
                continue
            if o == 11:
                m.r[i] = m.nx[m.r[i]]
            else:
                m.nx[m.r[i]] = 0
        elif o == 12:
            if not m.r[j]:
                continue
            m.r[i] = m.nx[m.r[j]]
        elif o in (13, 31, 32, 14, 27):
            i = rng.choice(A)
            if len(m.a[i]) > 7 and o in (13, 31, 32):
                continue
            x = rng.randrange(len(m.a[i]) + 1)
            q = list(m.a[i])
            if o == 13 or (o in (31, 32) and x == len(q)):
                q.append(m.r[j])
            elif o == 31:
                q.insert(x, m.r[j])
            elif o == 32:
                q[x] = m.r[j]
            elif o == 14:
                q = q[:x] + q[x + 1:]
            else:
                q = []
            m.a[i] = q
        elif o == 15:
            i, j = rng.choice(A), rng.choice(A)
            m.a[i] = m.a[j]
        elif o == 16:
            j = rng.choice(A)
            if not m.a[j]:
                continue
            x = rng.randrange(len(m.a[j]))
            m.r[i] = m.a[j][x]
        elif o in (17, 18, 19):
            i = rng.choice(Bn)
            j = rng.choice(Bn if o == 19 else R)
            m.b[i] = m.r[j] if o == 17 else m.b[j] if o == 19 else 0
        elif o == 20:
            j = rng.choice(Bn)
            if not m.b[j]:
                continue
            m.r[i] = m.b[j]
        elif o in (21, 22, 23, 24):
            i = rng.choice(U)
            if o in (21, 22):
                m.u[i] = m.new()
            elif o == 23:
                m.u[i] = 0
        m.sweep()
        ops.append([o, i + 1, j + 1, x])
    return ops


def run():
    build_repo()
    c = Check("C15")
    c.cov["rule"] = ("one history per transition of bounded state graphs of RefSpec.tla (who owns whom), replayed with the real "
                     "SrdRef, WkRef, UnqRef, base casts, arrays of references and chained objects; random long histories "
                     "recorded from the real classes and accepted by the specification; every init/terminate event is compared")
    c.assumptions = ["outside the domain: ownership cycles, reading an expired WkRef, two UnqRefs given the same object"]
    q = [((2, 1, 1, 0, 0), 2, 0), ((1, 0, 1, 1, 1), 2, 2), ((2, 0, 0, 0, 1), 2, 1), ((3, 0, 0, 0, 0), 3, 0)]
    t = [((2, 1, 1, 0, 0), 3, 0), ((1, 0, 1, 2, 1), 3, 2), ((2, 0, 1, 0, 1), 2, 2), ((3, 0, 1, 0, 0), 3, 0), ((1, 0, 0, 0, 2), 2, 2), ((2, 2, 0, 0, 0), 3, 0)]
    consts = "NR=%d NBase=%d NW=%d NU=%d NArr=%d MaxObj=%d MaxArr=%d MaxLive=%d"
    for dims, live, arr in (t if THOROUGH else q):
        A = adt(dims)
        name = "".join(map(str, dims))
        cases = generate(c, A, consts % (dims + (live + 3, arr, live)), "gen" + name)
        check_generated(c, A, cases if THOROUGH or len(cases) < 40000 else cases[SEED % 2::2], "s" + name)
        c.sample({"history": cases[len(cases) // 2][0], "specified": cases[len(cases) // 2][1]})
    n = 12000 if THOROUGH else 700
    dims = (3, 2, 2, 2, 2)
    hs = [rand_history(c.rng, dims, c.rng.choice([15, 40, 80])) for _ in range(n)]
    check_recorded(c, adt(dims), [h for h in hs if h], consts % (dims + (20, 12, 20)), "random")
    c.finish()


main_guard(run)
