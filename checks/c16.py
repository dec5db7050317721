import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C16", {"witness (valid or not), masks, VOLE rows": "all", "challenges": "all", "public input and output": "all", "parameter sets": "all twelve circuits' relation lists; the s-sets differ from the f-sets in the column decoding only (thorough: both)"},
              ["field multiplication, sum_poly by definition (C12)", "zk_hash is replaced by the list it is given (C13)",
               "round keys of the Even-Mansour variants are arbitrary (C06)", "the probability argument (few challenges satisfy a violated relation) is the specification's"])
    b = c.build()
    bc = b.link("c15.c")
    sets = (5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6) if c.thorough else (4, 3, 10, 9, 0, 7)
    jobs = [Job(bc, "harness_relation", choice=v, covers=["relation"], timeout=600, must_functions=["aes_prove", "aes_verify"]) for v in sets]
    jobs += [Job(bc, "harness_unique", choice=v, covers=["unique"]) for v in range(12)]
    jobs += [Job(bc, "harness_sbox", covers=["sbox"]), Job(bc, "harness_embed", covers=["embed"])]
    c.run(jobs)
    c.finish()

main(run)
