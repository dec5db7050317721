import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C07", {"keys": "all", "inputs": "all", "functions": "all six", "rounds": "complete unrolling"},
              ["GF(2^8) inversion (bf8_inv) is one uninterpreted function in code and reference; C12 decides that bf8_inv is the inversion"])
    b = c.build()
    bc = b.link("c07.c")
    c.run([Job(bc, "harness_owf", choice=v, covers=["owf"]) for v in range(6)])
    c.finish()

main(run)
