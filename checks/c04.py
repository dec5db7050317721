import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C04", {}, ["PRG, H0 and H1 are arbitrary functions of everything they are given (C19, C20); vc.c and vole.c run unmodified"])
    t = c.thorough
    b = c.build()
    bc = b.link("c04.c")
    jobs = []
    for s in (1, 3, 5, 7, 9, 11):
        jobs += [Job(bc, "harness_sets", choice="%d,%d,%d" % (s, x % 3, x), covers=["commit", "correlation"], timeout=3000) for x in range(0, 256, 1 if t else 51)]
    for s in range(9):
        xs = range(16) if s > 2 else ([0, 1, 2, 3, 4, 7, 4095, 4094, 1365, 819] + [1 << k for k in range(3, 12)] if t else [0, 1365, 4095])
        jobs += [Job(bc, "harness_deep", choice="%d,%d" % (s, x), covers=["commit", "correlation"], timeout=3000) for x in xs]
    jobs += [Job(bc, "harness_small", choice="%d,%d" % (lev, s), covers=["commit", "correlation"], timeout=3000) for s in range(7) for lev in range(3)]
    c.bounds = {"sets": "the six fast sets complete (depth 8), output length 1..3 bytes, hidden leaf of tree i is x+37i, x = %s; shapes of the six small sets with depths lowered by 8 (x = 0..15), and pairs of trees of their real depths (11, 12) with %d hidden leaves" % (("0..255", 19) if t else ("0, 51, .., 255", 3)),
                "small shapes": "seven mixed-depth shapes, every hidden leaf of the first and of the last tree, output lengths 1, 6, 17, 25 bytes, three levels", "root keys, IVs": "all"}
    c.run(jobs)
    c.finish()

main(run)
