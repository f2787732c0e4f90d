"""Programs with one predicted observation each: TLC explores a specification over a space of abstract programs (or
over programs given to it) and prints what each must do; the harness renders them, runs them in the real compiler in
bundles and compares."""
from vlib import *


def predict(c, module, consts, tag, progs=None, invs=(), extra="", timeout=700, heap="6g", count=True):
    """-> [(program, expected)].  The module prints  "@X " \\o ToJson([p |-> .., x |-> ..])  in each final state."""
    cfg = "SPECIFICATION Spec\nCONSTANTS %s\n%s%s\nCHECK_DEADLOCK FALSE\n" % (
        consts, "".join("INVARIANT %s\n" % i for i in invs), extra)
    r = tlc(module, cfg, "%s/tlc_%s" % (c.dir, tag), {"batch": {"batch": progs}} if progs is not None else None,
            timeout=timeout, heap=heap)
    if not r.ok:
        raise CheckError("the specification %s violates %s:\n%s" % (module, r.violated, r.state))
    c.add("states", r.distinct)
    c.add("transitions", r.generated)
    res, seen = [], set()
    for m in re.finditer(r'^"@X (\{.*\})"$', r.out, re.M):
        t = m.group(1)
        if t in seen:
            continue
        seen.add(t)
        t = t.replace('\\"', '"').replace("\\\\", "\\")
        d = json.loads(t)
        res.append((d["p"], d["x"]))
    res.sort(key=lambda a: json.dumps(a[0], sort_keys=True))
    want = len({json.dumps(p, sort_keys=True) for p in progs}) if progs is not None and count else None
    if not res or (want is not None and want != len(res)):
        raise CheckError("%s: predictions for %d of %s programs" % (module, len(res), want))
    log("%s: %d predictions, %d states (%.0fs TLC)" % (tag, len(res), r.distinct, r.wall))
    os.remove("%s/tlc_%s/tlc.out" % (c.dir, tag))
    return res


class Obs:
    """What one program did: events (lists of strings after "@ n"), errors [(code, line within the program, col)]"""
    def __init__(self, events, errors, crash, out):
        self.events, self.errors, self.crash, self.out = events, errors, crash, out

    def __repr__(self):
        return "events %s errors %s%s" % (self.events, self.errors, " CRASH " + self.crash if self.crash else "")


def parse_events(text):
    ev = {}
    for m in re.finditer(r"^@ (\d+)((?: \S+)*) *$", text, re.M):
        ev.setdefault(int(m.group(1)), []).append(m.group(2).split())
    return ev


def run_bundle(c, path, header, srcs, timeout=120, env=None, tail='printf("@ 0\\n"); fflush(0);\n'):
    """srcs: [(number, text)] -> ({number: Obs}, clean) ; clean: no error reported and the end was reached"""
    text, where = header, []
    for n, s in srcs:
        a = text.count("\n") + 1
        text += s if s.endswith("\n") else s + "\n"
        where.append((n, a, text.count("\n")))
    text += tail
    with open(path, "w") as f:
        f.write(text)
    r = run_alusus(path, timeout, env=env)
    c.add("evaluations", 1)
    ev = parse_events(r.out)
    errs = {n: [] for n, _ in srcs}
    stray = []
    base = os.path.basename(path)
    for sev, code, msg, locs in notices(r.out):
        if sev not in ("ERROR", "BLOCKER"):
            continue
        hit = False
        for f, l, col in locs:
            for n, a, b in where:
                if os.path.basename(f) == base and a <= l <= b:
                    errs[n].append((code, l - a + 1, col))
                    hit = True
                    break
            if hit:
                break
        if not hit:
            stray.append((code, msg, locs))
    any_err = bool(stray) or any(errs.values())
    crash = ""
    if r.timeout:
        crash = "timeout"
    elif r.rc is None or r.rc < 0:
        crash = "signal %s" % r.rc
    elif not any_err and 0 not in ev:
        crash = "stopped early"
    elif "Exception" in ANSI.sub("", r.out + r.err) and not any_err:
        crash = "exception"
    out = (r.out + r.err)[-3000:]
    res = {n: Obs(ev.get(n, []), errs[n] + [(x[0], 0, 0) for x in stray[:1] if len(srcs) == 1], crash, out) for n, _ in srcs}
    return res, not any_err and not crash, text


def observe(c, items, header, tag, bundle=40, reject_bundle=60, timeout=120, env=None):
    """items: [(source text, predicted to be rejected)] -> [(Obs, file text)].
    Programs predicted to run share a process; those predicted to be rejected share a compilation (nothing of them
    runs).  A bundle that does not go as predicted is run again program by program."""
    res = [None] * len(items)
    good = [i for i in range(len(items)) if not items[i][1]]
    bad = [i for i in range(len(items)) if items[i][1]]
    jobs = [(g, False) for g in (good[k:k + bundle] for k in range(0, len(good), bundle))]
    jobs += [(g, True) for g in (bad[k:k + reject_bundle] for k in range(0, len(bad), reject_bundle))]

    def one(job):
        ids, rej = job
        path = "%s/%s_%d_%d%s.alusus" % (c.dir, tag, ids[0], len(ids), "r" if rej else "")
        o, clean, text = run_bundle(c, path, header, [(i + 1, items[i][0]) for i in ids], timeout, env)
        return ids, rej, o, clean, text
    again = []
    for ids, rej, o, clean, text in pmap(one, jobs):
        if not rej and not clean and len(ids) > 1:
            again += [([i], False) for i in ids]
        elif rej and len(ids) > 1 and any(o[i + 1].crash for i in ids):
            again += [([i], True) for i in ids]
        elif rej and len(ids) > 1:
            for i in ids:
                if o[i + 1].errors and not o[i + 1].events:
                    res[i] = (o[i + 1], text)
                else:
                    again.append(([i], True))
        else:
            for i in ids:
                res[i] = (o[i + 1], text)
    for ids, rej, o, clean, text in pmap(one, again):
        for i in ids:
            res[i] = (o[i + 1], text)
    return res


def compare(c, what, preds, items, header, judge, bundle=40, reject_bundle=60, tag=None, limit=3, env=None, timeout=120):
    """preds: [(program, expected)], items: [(text, rejected)], judge(program, expected, Obs) -> "" or a complaint"""
    obs = observe(c, items, header, tag or what, bundle, reject_bundle, timeout, env)
    c.add("traces_validated_against_impl", len(items))
    c.add("programs_rejected_by_the_compiler", sum(1 for o, _ in obs if o.errors))
    bad = 0
    for (p, x), it, (o, text) in zip(preds, items, obs):
        m = judge(p, x, o)
        if not m and o.crash:
            m = "the compiler or program died: " + o.crash
        if m:
            bad += 1
            with open("%s/diffs_%s.jsonl" % (c.dir, tag or what), "a" if bad > 1 else "w") as f:
                f.write(json.dumps({"p": p, "x": x, "m": m, "o": str(o), "src": it[0]}) + "\n")
            if bad <= limit:
                one = observe(c, [it], header, (tag or what) + "_again", 1, 1, timeout, env)[0]
                if judge(p, x, one[0]) or one[0].crash:
                    o, text = one
                    m = judge(p, x, o) or m
                c.violation("%s: %s; expected %s, %s" % (what, m, json.dumps(x)[:300], str(o)[:400]),
                            {"program.alusus": text, "abstract.json": {"program": p, "expected": x}, "output.txt": o.out})
    log("%s: %d programs compared, %d rejected, %d differ" % (what, len(items), sum(1 for o, _ in obs if o.errors), bad))
    if preds:
        c.sample({"source": items[0][0], "expected": preds[0][1], "observed": str(obs[0][0])})
        c.sample({"source": items[-1][0], "expected": preds[-1][1], "observed": str(obs[-1][0])})
    return bad
