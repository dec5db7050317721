import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C17", {"updates": "three per message: every queue position, then every length class up to two blocks (quick: boundary lengths; thorough: every length up to 2*rate+9), then 0 or 3 bytes",
                      "reads": "three per output: every queue position, then the same lengths, then 0 or 9 bytes", "contents": "all", "rates": "168 and 136", "variants": "single and four-way; opt64 and plain32",
                      "large lengths": "one update or read of any length below 2^61 bytes from every queue position (first access to the state and progress)"},
              ["the permutation is one uninterpreted function of the state bytes (C18 decides that it is Keccak-f[1600])"])
    jobs = []
    for sha in ("opt64", "plain32"):
        b = c.build(tag=sha, sha3=sha)
        bc = b.link("c17.c", units=[u for u in b.units if u.startswith("Keccak")], defs=["-DFULL=%d" % c.thorough])
        for e in ("absorb1", "absorb4", "squeeze1", "squeeze4"):
            if sha == "plain32" and e[-1] == "4" and not c.thorough:
                continue  # same sponge source as opt64; the four-way state access of plain32 is part of C18
            for l in range(2):
                n = (8 if c.thorough else 2) if sha == "plain32" else (4 if c.thorough else 1)
                jobs += [Job(bc, "harness_" + e, choice=l, covers=[e[:-1]], timeout=3000, flags=["-shard", "%d/%d" % (i, n)]) for i in range(n)]
        jobs += [Job(bc, "harness_big", choice="%d,%d" % (x, q), covers=["big"]) for x in range(2) for q in range(2)]
    c.run(jobs)
    c.finish()

main(run)
