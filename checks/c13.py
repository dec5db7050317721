import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C13", {"keys": "all", "inputs": "all", "vole_hash lengths": "the lengths of all parameter sets and every multiple of 8 bits from 0 to 3 lambda (thorough: 7 lambda)",
                      "zk_hash lengths": "0..12 (thorough: 0..40) and the constraint counts of all parameter sets"},
              ["field multiplication by its definition (checked in C12)"])
    b = c.build()
    jobs = []
    for w in (128, 192, 256):
        d = ["-DW=%d" % w, "-DFAEST_TESTS"] + (["-DMAXB=%d" % (7 * w // 8), "-DMAXN=40"] if c.thorough else [])
        bc = b.link("c13.c", defs=d, name="c13_%d" % w)
        for e, v in (("vole_sets", "sets"), ("zk_len", "zk"), ("zk_sets", "zksets"), ("zk_linear", "linear")):
            jobs.append(Job(bc, "harness_" + e, covers=[v]))
        for i in range(4):
            jobs.append(Job(bc, "harness_vole_len", covers=["len"], flags=["-shard", "%d/4" % i]))
    c.run(jobs)
    c.finish()

main(run)
