import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C15", {"witness, masks, VOLE rows": "all", "challenges": "all", "public input and output": "all", "parameter sets": "all twelve"},
              ["field multiplication, sum_poly by definition (C12)", "zk_hash is replaced by the list it is given; its linearity and determinism: C13",
               "round keys of the Even-Mansour variants are arbitrary (C06)", "GF(2^8) inversion is one uninterpreted function in code and reference (C12)"])
    b = c.build()
    bc = b.link("c15.c")
    jobs = [Job(bc, "harness_relation", choice=v, covers=["relation"], timeout=600, must_functions=["aes_prove", "aes_verify"]) for v in (5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6)]
    jobs += [Job(bc, "harness_honest", choice=v, covers=["honest"], must_functions=["aes_extend_witness"]) for v in range(12)]
    c.run(jobs)
    c.finish()

main(run)
