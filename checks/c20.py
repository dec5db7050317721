import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    ml = 66 if os.environ.get("VERIF_TIER", "quick") != "thorough" and "--thorough" not in sys.argv else 240
    c = Check("C20", {"output length": "0..%d bytes" % ml, "keys": "all", "IVs": "all 2^128", "builds": "own AES and OpenSSL"},
              ["GF(2^8) inversion (bf8_inv) is one uninterpreted function in code and reference; C12 decides that bf8_inv is the inversion",
               "OpenSSL's EVP CTR interface behaves as documented (modelled by the reference keystream)"])
    d = ["-DMAXLEN=%d" % ml]
    b = c.build(); bo = c.build(tag="ossl", openssl=True)
    us = ["aes.c", "fields.c", "randomness.c", "compat.c"]
    bc = b.link("c20.c", units=us, defs=d); bco = bo.link("c20.c", units=us, defs=d + ["-DOSSL"])
    jobs = [Job(bc, "harness_inc", covers=["inc"])]
    for x in (bc, bco):
        jobs += [Job(x, "harness_prg", flags=["-shard", "%d/8" % i], covers=["prg"]) for i in range(8)]
    c.run(jobs)
    c.finish()

main(run)
