import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C19", {"input lengths": "0, 1, 2, 16, 32, 33, 48, 64, and rate-3..rate, 2*rate-3..2*rate, 3*rate+5; output lengths from 1 byte to 2*rate+9", "splits": "two updates, four split points", "contents": "all", "levels": "128, 192, 256",
                      "builds": "opt64; plain32 in the thorough tier"},
              ["the permutation is one uninterpreted function of the state bytes (C18 decides that it is Keccak-f[1600]); all other hashing code runs unmodified"])
    jobs = []
    for sha in ("opt64", "plain32") if c.thorough else ("opt64",):
        b = c.build(tag=sha, sha3=sha)
        bc = b.link("c19.c", units=[u for u in b.units if u.startswith("Keccak")] + ["random_oracle.c"])
        for e in ("h0", "h0x4", "h1", "h2", "h3"):
            jobs += [Job(bc, "harness_" + e, choice=l, covers=[e], timeout=1200) for l in range(3)]
    c.run(jobs)
    c.finish()

main(run)
