import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


def run():
    build_repo()
    r = subprocess.run(["java", "-cp", tlc_classpath(), "tla2sany.SANY", SPEC + "/Exec.tla"], stdout=subprocess.PIPE)
    if r.returncode != 0:
        raise CheckError("TLA+ tools do not work: " + r.stdout.decode()[-500:])
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    sys.exit(0)


main_guard(run)
