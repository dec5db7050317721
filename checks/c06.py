import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C06", {"keys": "all", "blocks": "all", "rounds": "all (complete unrolling)", "round keys": "from the key schedule, and arbitrary"},
              ["GF(2^8) inversion (bf8_inv) is one uninterpreted function in code and reference; C12 decides that bf8_inv is the inversion"])
    b = c.build()
    bc = b.link("c06.c")
    c.run([Job(bc, choice="%d,%d" % (v, d), covers=["done"]) for v in range(5) for d in range(2)])
    c.finish()

main(run)
