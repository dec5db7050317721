import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C03", {"sets": "all twelve at full size", "signatures, public keys": "all byte strings", "messages": "lengths 0 and 13 byte by byte, every 64-bit length as a whole", "component outputs": "all"},
              ["the components behind faest_verify (hash functions, vole_reconstruct, vole_hash, aes_verify) are arbitrary functions of everything they are given"])
    b = c.build()
    bc = b.link("c02.c")
    jobs = [Job(bc, e, choice="%d" % s, covers=["verdict"]) for e in ("harness_verify", "harness_verify_long") for s in [5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6]]
    c.run(jobs)
    c.finish()

main(run)
