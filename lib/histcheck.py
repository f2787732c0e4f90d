"""Histories of an abstract data type: generated from the specification (Hist.tla, gen) and replayed in a
real Alusus driver program, or generated at random, recorded from the driver and checked against the
specification (Hist.tla, trace)."""
from vlib import *

SRL_ENV = {"MALLOC_PERTURB_": "165"}


class Adt:
    """module: TLA+ module extending Hist; prefix: of its operators; invs: its invariants;
    source: driver program text; header: first stdin tokens; fmt(obs): text the driver prints for obs;
    enc(op): stdin text of an op; parse(text): inverse of fmt; tail: expected end-of-history text."""
    def __init__(self, module, prefix, invs, source, header, fmt, parse, enc=None, tail="0 0", env=None):
        self.module, self.prefix, self.invs, self.source, self.header = module, prefix, invs, source, header
        self.fmt, self.parse, self.tail = fmt, parse, tail
        self.enc = enc or (lambda op: " ".join(map(str, op)))
        self.env = dict(SRL_ENV, **(env or {}))


def subst(prefix):
    return "Init0<-%sInit Ops<-%sOps Apply<-%sApply Obs<-%sObs Within<-%sWithin Shape<-%sShape" % ((prefix,) * 6)


def generate(c, adt, consts, name, timeout=800, workers=NCPU, extra_inv=()):
    """All histories of the bounded state graph, one per transition -> [(ops, expected obs)]"""
    cfg = ("SPECIFICATION GenSpec\nCONSTANTS %s %s\nVIEW GenView\nCONSTRAINT GenBound\nACTION_CONSTRAINT Emit\n%s"
           "CHECK_DEADLOCK FALSE\n" % (consts, subst(adt.prefix), "".join("INVARIANT %s\n" % i for i in adt.invs)))
    r = tlc(adt.module, cfg, "%s/%s" % (c.dir, name), timeout=timeout, workers=workers)
    if not r.ok:
        raise CheckError("specification %s violates %s:\n%s" % (adt.module, r.violated, r.state))
    res, seen = [], set()
    for m in re.finditer(r'^"?@E (\{.*\})"?$', r.out, re.M):
        t = m.group(1).replace('\\"', '"')
        if t in seen:
            continue
        seen.add(t)
        d = json.loads(t)
        res.append((d["ops"], d["obs"]))
    c.add("states", r.distinct)
    c.add("transitions", r.generated)
    log("%s: %d distinct states, %d histories (%.0fs TLC)" % (name, r.distinct, len(res), r.wall))
    if not res:
        raise CheckError("the generator produced no history")
    os.remove("%s/%s/tlc.out" % (c.dir, name))
    return res


def driver_run(adt, path, hists, timeout=300):
    inp = "\n".join([adt.header] + ["\n".join(adt.enc(o) for o in ops) + "\n0" for ops in hists]) + "\n"
    if getattr(adt, "runner", None):      # a driver that is already built
        return adt.runner(path, inp.encode(), timeout, adt.env)
    return run_alusus(path, timeout=timeout, stdin=inp.encode(), env=adt.env)


def lines_of(r):
    out = r.out.split("\n")
    return out[:-1], out[-1]


def run_histories(c, adt, hists, name, chunk=4000, timeout=300):
    """Run op lists in the real driver -> list of observation texts per history (list of step texts, tail),
    or None where the process died."""
    d = c.dir + "/" + name
    os.makedirs(d, exist_ok=True)
    path = d + "/driver.alusus"
    with open(path, "w") as f:
        f.write(adt.source)
    chunk = max(50, min(chunk, (len(hists) + NCPU - 1) // NCPU))
    parts = [hists[i:i + chunk] for i in range(0, len(hists), chunk)]
    probe = driver_run(adt, path, [])
    if notices(probe.out + probe.err):
        return None, probe

    def one(part):
        res = []
        while len(res) < len(part):
            r = driver_run(adt, path, part[len(res):], timeout)
            ls, rest = lines_of(r)
            for l in ls:
                res.append(l)
            if len(res) < len(part):
                res.append("DIED rc=%s timeout=%s after: %s" % (r.rc, r.timeout, rest[-300:]))
            elif r.rc != 0:
                res[-1] += " EXIT rc=%s" % r.rc
                break
            if len([x for x in res if x.startswith("DIED")]) > 3:
                res += ["SKIPPED"] * (len(part) - len(res))
        return res[:len(part)]
    out = [l for p in pmap(one, parts) for l in p]
    return out, probe


def replay_files(adt, hist, text, exp):
    return {"driver.alusus": adt.source, "stdin.txt": adt.header + "\n" + "\n".join(adt.enc(o) for o in hist) + "\n0\n",
            "observed.txt": text, "expected.txt": exp}


def check_generated(c, adt, cases, name):
    """Replay spec histories; every history is one transition, its last observation must be the specified one."""
    hists = [ops for ops, _ in cases]
    out, probe = run_histories(c, adt, hists, name)
    if out is None:
        c.violation("the driver program does not compile:\n%s" % (probe.out + probe.err)[:1500],
                    {"driver.alusus": adt.source, "output.txt": probe.out + probe.err})
        return
    bad = 0
    for (ops, obs), text in zip(cases, out):
        exp = adt.fmt(obs)
        steps = text.split(";")
        ok = len(steps) == len(ops) + 1 and steps[-2] == exp and steps[-1].strip() == adt.tail
        if not ok and text != "SKIPPED":
            bad += 1
            if bad <= 3:
                c.violation("%s: after the operations %s the real code shows\n%s\nspecified: %s, end of history: %s" %
                            (name, [adt.enc(o) for o in ops], text, exp, adt.tail), replay_files(adt, ops, text, exp))
    c.add("evaluations", sum(len(o) for o in hists))
    c.add("histories_replayed", len(hists))
    c.add("distinct_nontrivial", len({json.dumps(o) for _, o in cases}))
    log("%s: %d histories replayed, %d rejected" % (name, len(hists), bad))


def check_recorded(c, adt, hists, consts, name, timeout=600):
    """Run random histories, validate the recorded observations with TLC."""
    out, probe = run_histories(c, adt, hists, name)
    if out is None:
        c.violation("the driver program does not compile:\n%s" % (probe.out + probe.err)[:1500],
                    {"driver.alusus": adt.source, "output.txt": probe.out + probe.err})
        return
    batch, ids = [], []
    for ops, text in zip(hists, out):
        steps = text.split(";")
        if len(steps) != len(ops) + 1 or steps[-1].strip() != adt.tail:
            if text != "SKIPPED":
                c.violation("%s: history %s did not complete cleanly: %s" % (name, [adt.enc(o) for o in ops], text[-500:]),
                            replay_files(adt, ops, text, "tail " + adt.tail))
                if len(c.violations) > 3:
                    return
            continue
        try:
            batch.append({"ops": ops, "obs": [adt.parse(t) for t in steps[:-1]]})
        except ValueError:
            c.violation("%s: unreadable answer %s" % (name, text[:300]), replay_files(adt, ops, text, ""))
            return
    cfg = ("SPECIFICATION TraceSpec\nCONSTANTS %s %s\nINVARIANT Conforms\n%sCHECK_DEADLOCK FALSE\n" %
           (consts, subst(adt.prefix), "".join("INVARIANT %s\n" % i for i in adt.invs)))
    done = 0
    for i in range(0, len(batch), 4000):
        part = batch[i:i + 4000]
        r = tlc(adt.module, cfg, "%s/%s" % (c.dir, name), data={"batch": part}, timeout=timeout)
        c.add("states", r.distinct)
        if not r.ok:
            m = re.search(r"/\\ h = (\d+)", r.state)
            k = re.search(r"/\\ k = (\d+)", r.state)
            b = part[int(m.group(1)) - 1]
            kk = int(k.group(1))
            c.violation("%s (%s): after %s the real code shows %s; specified state:\n%s" %
                        (name, r.violated, [adt.enc(o) for o in b["ops"][:kk]], json.dumps(b["obs"][kk - 1]), r.state[:1500]),
                        dict(replay_files(adt, b["ops"], json.dumps(b["obs"]), r.state)))
            return
        if r.distinct != sum(len(b["ops"]) + 1 for b in part):
            raise CheckError("%s: TLC followed %d states of %d" % (name, r.distinct, sum(len(b["ops"]) + 1 for b in part)))
        done += len(part)
    c.add("evaluations", sum(len(o) for o in hists))
    c.add("histories_recorded", done)
    c.add("distinct_nontrivial", len({json.dumps(b["obs"][-1]) for b in batch}))
    log("%s: %d recorded histories conform" % (name, done))
