import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C18", {"states": "all 2^1600", "rounds": "24 and 12 (complete), Nrounds for every n in 0..24", "byte access": "every offset; lengths 0..9 and selected up to 200 (quick), every length (thorough)",
                      "implementations": "opt64, plain32 (avx2, armv8a and s390 assembly are outside: no C source)", "blocks absorbed by the fast loop": "0..2"})
    jobs = []
    for sha in ("opt64", "plain32"):
        b = c.build(tag=sha, sha3=sha)
        us = [u for u in b.units if u.startswith("KeccakP-1600")]
        bc = b.link("c18.c", units=us, defs=["-DFULL=%d" % c.thorough])
        jobs += [Job(bc, "harness_perm", choice=0, covers=["perm"]), Job(bc, "harness_perm", choice=1, covers=["perm"]), Job(bc, "harness_perm", choice=2, covers=["perm"]), Job(bc, "harness_perm4", covers=["perm4"])]
        if sha == "opt64":
            jobs += [Job(bc, "harness_fast", covers=["fast"])]
        jobs += [Job(bc, "harness_bytes", choice=o, covers=["bytes"], timeout=1800) for o in range(6)]
        jobs += [Job(bc, "harness_bytes4", choice=o, covers=["bytes4"]) for o in range(3)]
    c.run(jobs)
    c.finish()

main(run)
