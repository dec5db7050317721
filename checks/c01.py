import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C01", {"sets": "all twelve at full size", "keys, public keys, messages, randomness": "all; message and randomness of every 64-bit length (hashed as a whole), short lengths byte by byte", "challenges": "all values"},
              ["the components behind faest_sign and faest_verify are modelled by the relations that C04/C05 (commit, open, reconstruct, correlation), C13 (linearity of the VOLE hash), C14 (witness) and C15 (prover and verifier values) decide for the real code; hash functions are arbitrary functions",
               "the relation of C15 presumes that all constraints hold, which C14 and C16 decide for usable keys"])
    b = c.build()
    bc = b.link("c01.c")
    order = [5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6]
    jobs = [Job(bc, e, choice="%d" % s + x, covers=["accepted"], timeout=1500) for s in order for e, x in ([("harness_long", "")] + ([("harness", ",%d" % k) for k in range(3)] if c.thorough else [("harness", ",%d" % (s % 3))]))]
    c.run(jobs)
    c.finish()

main(run)
