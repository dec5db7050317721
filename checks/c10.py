import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C10", {"signature_len": "all 64-bit values", "null pointers": "all combinations", "message lengths": "0, 1, 32, 48", "randomness lengths": "0, 1, 32, 64, absent", "contents": "all", "sets": "all twelve"},
              ["the one-way function's output is uninterpreted and its usability verdict an arbitrary function of key and input (C07 decides both)", "the signing and verification cores are replaced by stubs that check their arguments (C01-C03)", "rand_bytes delivers fresh bytes or fails (C27)"])
    b = c.build()
    us = ["instances.c", "compat.c"] + [u for u in b.units if re.match(r"faest_(em_)?\d+[sf]\.c$", u)]
    bc = b.link("capi.c", units=us)
    c.run([Job(bc, e, choice=i, covers=v) for e, v in (("harness_sign", ["success", "rejected"]), ("harness_verify", ["rejected", "verdict"])) for i in range(12)])
    c.finish()

main(run)
