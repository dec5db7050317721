import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C23", {"identifiers": "all 2^32", "sets": "all twelve at full size; layout for all keys, messages of every 64-bit length, randomness, and all component outputs"},
              ["signature layout: positions of every component decided on faest_sign and faest_verify over modelled components (harness of C02)"])
    b = c.build()
    jobs = [Job(b.link("c23.c"), "harness_table", covers=["set", "none"])]
    for s in SETS:
        for h in ("crypto_sign.h", "api.h"):
            p = os.path.join(b.m, "faest_" + s, h)
            jobs.append(Job(b.link("c23.c", defs=['-DAPI="%s"' % p], name="c23_%s_%s.bc" % (s, h[0])), "harness_api", covers=["api"]))
    bc = b.link("c02.c")
    for s in [5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6]:
        jobs += [Job(bc, "harness_sign_long", choice="%d" % s, covers=["signed"]), Job(bc, "harness_verify_long", choice="%d" % s, covers=["verdict"])]
    c.run(jobs)
    c.finish()

main(run)
