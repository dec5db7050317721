import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C08", {"random draws": "up to 3 unusable keys in a row (with fixed contents: 17, 101, 257, 1025 and 4097 in a row), failure at every draw up to the fifth; all contents", "sets": "all twelve"},
              ["the one-way function's output is uninterpreted and its usability verdict an arbitrary function of key and input (C07 decides both)", "the signing and verification cores are replaced by stubs that check their arguments (C01-C03)", "rand_bytes delivers fresh bytes or fails (C27)"])
    b = c.build()
    us = ["instances.c", "compat.c"] + [u for u in b.units if re.match(r"faest_(em_)?\d+[sf]\.c$", u)]
    bc = b.link("capi.c", units=us)
    c.run([Job(bc, e, choice=i, covers=v) for e, v in (("harness_keygen", ["rng failed", "generated"]), ("harness_keygen_null", ["null"]), ("harness_keygen_many", ["many"]), ("harness_sign", ["success", "rejected"])) for i in range(12)])
    c.finish()

main(run)
