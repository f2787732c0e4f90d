"""C02 object lifetime: spec/Exec.tla + spec/ExecGen.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from execcheck import *


def run():
    build_repo()
    c = Check("C02")
    c.cov["rule"] = ("programs = all loop nests up to the depth with one guarded jump and all short-circuit formulas "
                     "(enumerated by ExecGen.tla), plus seeded random programs; each is compiled and executed by the real "
                     "JIT and its event trace must be a behaviour of Exec.tla")
    c.assumptions = ["event order is observed through printf in the generated program",
                     "serial numbers given by the init handlers identify objects",
                     "integer variables are not modified twice within one expression"]
    loops, forms = generated_space(c, 3 if THOROUGH else 2, True)
    if not THOROUGH:
        loops = [p for i, p in enumerate(loops) if i % 2 == SEED % 2]
        forms = [p for i, p in enumerate(forms) if i % 4 == SEED % 4]
    n = 5000 if THOROUGH else 500
    rnd = [execgen.Gen(random.Random(SEED * 100000 + 50000 + i), objs=c.rng.choice([.3, .5, .8]), size=c.rng.choice([20, 40, 60])).program() for i in range(n)]
    progs = loops + forms + rnd
    c.cov["exhaustive_loop_nests"] = len(loops)
    c.cov["formulas"] = len(forms)
    c.cov["random_programs"] = n
    seen = set()
    for k in range(0, len(progs), 3000):
        part = progs[k:k + 3000]
        obs = check_programs(c, part, "b%d" % k)
        for p, o in zip(part, obs):
            if len(o[0]) > 3:
                seen.add(json.dumps(o[0]))
        if c.violations:
            break
        c.sample({"program": execgen.Render(rnd[0], c.rng).module("P"), "trace": obs[-1][0][:40]})
    c.cov["distinct_nontrivial"] = len(seen)
    c.finish()


main_guard(run)
