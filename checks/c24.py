import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C24", {"challenges": "all", "tree indices": "all 2^32 (in range one by one, out of range symbolically)", "parameters": "all twelve sets; k0,k1 in {1,2,7,8,9,11,12} x t0,t1 in {0,1,2,3,10}", "depths": "0..12", "positions": "all"})
    b = c.build()
    bc = b.link("c24.c")
    jobs = [Job(bc, "harness_" + e, covers=v) for e, v in (("sets", ["sets"]), ("bits", ["range", "bitdec"]), ("numrec", ["numrec"]), ("node", ["node"]))]
    jobs += [Job(bc, "harness_generic", covers=["generic"], flags=["-shard", "%d/4" % i]) for i in range(4)]
    c.run(jobs)
    c.finish()

main(run)
