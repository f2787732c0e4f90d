"""C08: imports load each file once, in order, from the right place, against ImpSpec.tla."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from batch import *

EXT = {"E1": "alusus", "E2": "source", "E3": "الأسس", "E4": "أسس", "E5": "مصدر"}
PRE = 'import "alusus_spp"; def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any)=>Int[64]; '


def real_name(n, p):
    parts = n.split(".")
    return ".".join([parts[0].replace("ar", "ملف")] + [EXT.get(q, q) for q in parts[1:]])


def node_path(p, root, n):
    x = p["nodes"][n - 1]
    return root if n == 1 else node_path(p, root, x["up"]) + "/" + real_name(x["name"], p)


def build(p, ev, root, libs):
    """Write the tree.  -> expected observation: marks and located errors in order.  What comes after the first error is
    marked by errors, as nothing runs any more."""
    err = next((i for i, e in enumerate(ev) if e[0] == "err"), len(ev))
    late = {e[1] for e in ev[err:] if e[0] != "lib"}
    place = {}
    for n, x in enumerate(p["nodes"], 1):
        path = node_path(p, root, n)
        if x["kind"] == "dir":
            os.makedirs(path, exist_ok=True)
    for n, x in enumerate(p["nodes"], 1):
        path = node_path(p, root, n)
        if x["kind"] == "link":
            os.symlink(node_path(p, root, x["to"]), path)
        elif x["kind"] == "lib":
            shutil.copy(libs[n % len(libs)], path)
        elif x["kind"] == "txt":
            with open(path, "w") as f:
                f.write("not code\n")
        elif x["kind"] == "src":
            lines = [PRE if n == p["main"] else "", "func f%d() {};" % n]
            for it in p["files"][n - 1]:
                pre, col = "", 1
                if it["k"] == "mark":
                    t = ("unk%d;" if it["id"] in late else 'printf("@ 1 mark %d\\n");') % it["id"]
                elif it["k"] == "use":
                    t = "f%d();" % it["f"]
                    if it["id"] not in late:
                        t += ' printf("@ 1 used %d\\n");' % it["id"]
                else:
                    how = it.get("how", 0)
                    def lit(a):
                        q = ("//" if how & 1 else "/").join(real_name(c, p) for c in a["path"])
                        return '"%s%s"' % (root + "/" if a["abs"] else "./" if how & 2 else "", q)
                    t = "import " + (" or " if how & 4 else " || ").join(lit(a) for a in it["alts"]) + ";"
                    w = how // 8 % 6
                    if w in (1, 2, 3):
                        pre = ["module M%d { ", "func g%d() { ", "if 1 == %d { "][w - 1] % it["id"]
                        t += " };"
                place[it["id"]] = (path, len(lines) + 1, len(pre) + 1)
                lines.append(pre + t)
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
    want = []
    for i, e in enumerate(ev):
        if e[0] == "lib":
            want.append("lib %d" % (e[1] % len(libs)))
        elif i < err:
            want.append("%s %d" % tuple(e))
        elif e[0] != "used":
            want.append("error %s %d %d" % place[e[1]])
    return want


def observed(r):
    """marks, library loads and located errors in the order printed"""
    res = []
    txt = ANSI.sub("", r.out)
    pos = 0
    for m in re.finditer(r"^@ 1 (.*)$|^(ERROR [A-Z]+\d+: (?:.|\n)*?\n {2}(\S.*) \((\d+),(\d+)\)$)", txt, re.M):
        res.append(m.group(1) if m.group(1) else "error %s %s %s" % m.group(3, 4, 5))
    return res


def make_libs(c):
    res = []
    for i in range(3):
        src, so = "%s/lib%d.c" % (c.dir, i), "%s/tmpl%d.so" % (c.dir, i)
        with open(src, "w") as f:
            f.write('#include <stdio.h>\n__attribute__((constructor)) static void f%d(void) { printf("@ 1 lib %d\\n"); }\n' % (i, i))
        subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, src], check=True)
        res.append(so)
    return res


def check(c, preds, tag, libs):
    def one(job):
        n, (p, ev) = job
        root = os.path.realpath("%s/%s_%d" % (c.dir, tag, n))
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        want = build(p, ev, root, libs)
        # later directories are searched first; the compiler's own come before all of these
        env = {"ALUSUS_LIBS": ":".join([BUILD + "/Spp"] + [node_path(p, root, b) for b in p["base"][1:]])}
        cwd = node_path(p, root, p["base"][0])
        main = node_path(p, root, p["main"])
        r = run_alusus(main, cwd=cwd, env=env)
        return root, want, r, main
    bad = 0
    res = pmap(one, list(enumerate(preds, 1)))
    c.add("evaluations", len(res))
    c.add("traces_validated_against_impl", len(res))
    for (p, ev), (root, want, r, main) in zip(preds, res):
        got = observed(r)
        m = ""
        if r.timeout or r.rc is None or r.rc < 0 or "Exception" in ANSI.sub("", r.out + r.err):
            m = "the compiler died"
        elif got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            m = "after %d events: %s, not %s" % (k, (got[k:] or ["the end"])[0], (want[k:] or ["the end"])[0])
        if m:
            bad += 1
            with open("%s/diffs_%s.jsonl" % (c.dir, tag), "a" if bad > 1 else "w") as f:
                f.write(json.dumps({"p": p, "ev": ev, "want": want, "got": got, "m": m, "o": r.out + r.err}) + "\n")
            if bad <= 3:
                files = {"expected.json": want, "abstract.json": p,
                         "output.txt": r.out + r.err}
                for d, _, fs in os.walk(root):
                    for f in fs:
                        q = os.path.join(d, f)
                        if not f.endswith(".so") and not os.path.islink(q):
                            files["tree__" + os.path.relpath(q, root).replace("/", "__")] = open(q).read()
                c.violation("%s: %s" % (tag, m), files)
        shutil.rmtree(root, ignore_errors=True)
    log("%s: %d programs, %d differ" % (tag, len(res), bad))
    c.sample({"program": preds[0][0], "expected": preds[0][1], "observed": observed(res[0][2])})


INVS = ("InvOnce", "InvNoReentry", "InvWhole", "InvMeans", "Report")


def rand_prog(rng):
    nodes = [{"up": 1, "kind": "dir", "name": "", "to": 0}]
    dirs = [1]
    names = ["x", "y", "z", "arx", "a b"]

    def free(up, name):
        return all(not (q["up"] == up and q["name"] == name) for q in nodes[1:])

    def add(up, kind, name, to=0):
        if not free(up, name):
            return 0
        nodes.append({"up": up, "kind": kind, "name": name, "to": to})
        return len(nodes)
    for k in range(rng.randint(1, 4)):
        d = add(rng.choice(dirs), "dir", rng.choice(["A", "B", "C", "x"]))
        if d:
            dirs.append(d)
    srcs = []
    for k in range(rng.randint(2, 7)):
        kind = rng.choice(["src"] * 8 + ["lib", "txt"])
        base = rng.choice(names)
        if kind == "src":
            n = add(rng.choice(dirs), "src", base + "." + rng.choice(["E1", "E1", "E1", "E2", "E3", "E4", "E5"]))
            if n:
                srcs.append(n)
        elif kind == "lib":
            add(rng.choice(dirs), "lib", "lib" + base + rng.choice([".so", ".dbg.so"]))
        else:
            add(rng.choice(dirs), "txt", base + rng.choice(["", ".no"]))
    m = add(rng.choice(dirs), "src", "main.E1")
    srcs.append(m)
    for k in range(rng.choice([0, 0, 1, 2])):       # links
        to = rng.choice(srcs + dirs[1:]) if len(dirs) > 1 else rng.choice(srcs)
        nm = rng.choice(names) + ".E1" if to in srcs else rng.choice(["D", "F"])
        add(rng.choice(dirs), "link", nm, to)
    ident = [0]

    def walk_to(a, n):
        """some path from directory a to node n"""
        def chain(x):
            r = [x]
            while x != 1:
                x = nodes[x - 1]["up"]
                r.append(x)
            return r
        ca, cn = chain(a), chain(n)
        if rng.random() < 0.1:
            return True, [nodes[x - 1]["name"] for x in reversed(cn[:-1])]
        common = next(x for x in ca if x in cn)
        up = ca.index(common)
        return False, [".."] * up + [nodes[x - 1]["name"] for x in reversed(cn[:cn.index(common)])]

    def alt(src):
        d = nodes[src - 1]["up"]
        q = rng.random()
        cand = [n for n in range(2, len(nodes) + 1) if nodes[n - 1]["kind"] != "dir" or rng.random() < 0.1]
        n = rng.choice(cand)
        if q < 0.45:
            a, path = False, [nodes[n - 1]["name"]]
        elif q < 0.9:
            a, path = walk_to(rng.choice([d, d, rng.choice(dirs)]), n)
        else:
            a, path = False, rng.sample(["A", "B", "x", "..", "."], rng.randint(0, 2)) + [rng.choice(names)]
        path = path or ["x"]
        if rng.random() < 0.7:     # leave the extension out
            last = path[-1].split(".")[0]
            if last.startswith("lib") and rng.random() < 0.8:
                last = last[3:]
            path = path[:-1] + [last or "x"]
        if rng.random() < 0.15:
            k = rng.randint(0, len(path) - 1)
            path = path[:k] + ["."] + path[k:]
        return {"abs": a, "path": path}

    def new():
        ident[0] += 1
        return ident[0]
    files = []
    for n, x in enumerate(nodes, 1):
        items = []
        if x["kind"] == "src":
            items.append({"k": "mark", "id": new(), "f": 0, "alts": []})
            for _ in range(rng.randint(0, 4)):
                q = rng.random()
                if q < 0.65:
                    items.append({"k": "imp", "id": new(), "f": 0, "how": rng.randint(0, 47), "alts": [alt(n) for _ in range(rng.choice([1, 1, 2, 3]))]})
                elif q < 0.8:
                    items.append({"k": "use", "id": new(), "f": rng.choice(srcs), "alts": []})
                else:
                    items.append({"k": "mark", "id": new(), "f": 0, "alts": []})
            items.append({"k": "mark", "id": new(), "f": 0, "alts": []})
        files.append(items)
    base = [rng.choice(dirs)] + rng.sample(dirs, rng.choice([0, 0, 1, min(2, len(dirs))]))
    return {"nodes": nodes, "main": m, "files": files, "base": base}


def run():
    build_repo()
    c = Check("C08")
    libs = make_libs(c)
    c.cov["rule"] = ("ImpRun's space (three files in two directories, each there or not, all choices of imports from a pool of spellings, "
                     "two working directories) and seeded random trees with links, libraries and search paths: marks, library loads and "
                     "located errors in exactly the order of ImpSpec's machine")
    preds = predict(c, "ImpRun", 'Mode = "gen"', "space", invs=INVS)
    c.cov["program_space"] = len(preds)
    check(c, c.rng.sample(preds, 5000 if THOROUGH else 400), "space", libs)
    preds = predict(c, "ImpRun", 'Mode = "batch"', "random", progs=[rand_prog(c.rng) for _ in range(8000 if THOROUGH else 800)], invs=INVS)
    check(c, preds, "random", libs)
    c.finish()


if __name__ == "__main__":
    main_guard(run)
