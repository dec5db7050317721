import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C02", {"sets": "all twelve at full size", "keys, public keys, randomness, signatures": "all byte strings", "lengths": "message and randomness of every 64-bit length as a whole; lengths 0, 1, 5, 16 (message) and 0, 7, 32, 80 (randomness) byte by byte", "component outputs": "all"},
              ["hash functions are arbitrary functions of the concatenation of everything they are given (C19), the other components arbitrary functions of everything they are given"])
    b = c.build()
    bc = b.link("c02.c")
    jobs = []
    for s in [5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6]:
        jobs += [Job(bc, "harness_sign_long", choice="%d" % s, covers=["signed"]), Job(bc, "harness_verify_long", choice="%d" % s, covers=["verdict"])]
        jobs += [Job(bc, "harness_sign", choice="%d,%d" % (s, k), covers=["signed"]) for k in (range(5) if c.thorough else ([4, s % 4]))]
    c.run(jobs)
    c.finish()

main(run)
