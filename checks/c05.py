import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    t = os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv
    c = Check("C05", {"depths": "1..12", "hidden leaves": "every index up to depth %d, %s above" % (10 if t else 8, "boundary, single-bit and complement indices"), "levels": "128, 192, 256", "root seeds, IVs, openings": "all"},
              ["PRG, H0 and H1 are arbitrary functions of everything they are given (C19, C20)"])
    b = c.build()
    bc = b.link("c05.c", defs=["-DALLD=%d" % (10 if t else 8), "-DIDXMODE=1"])
    jobs = []
    for d in range(11, -1, -1):
        for lev in range(3):
            jobs += [Job(bc, "harness_commit", choice="%d,%d" % (lev, d), covers=["commit"]), Job(bc, "harness_open", choice="%d,%d" % (lev, d), covers=["open"], timeout=3000), Job(bc, "harness_malformed", choice="%d,%d" % (lev, d), covers=["malformed"], timeout=3000)]
    c.run(jobs)
    c.finish()

main(run)
