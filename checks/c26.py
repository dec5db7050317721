import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C26", {"signer and verifier": "all twelve sets at full size, one other signature and verification in between (same or another set, keys shared or not), earlier heap and buffer contents arbitrary, other addresses", "components": "one-way functions, witness extension, PRG (40 bytes), key schedules, H0..H3 (up to 200 bytes, also alternating contexts), universal hashes (40 bytes, 3 constraints), vector and VOLE commitments of small shapes", "contents": "all"},
              ["signer and verifier: components are arbitrary functions; components: GF(2^8) inversion, permutation, field multiplication, PRG and hashes are arbitrary or exact stubs as in C06, C19, C13, C05"])
    b = c.build()
    f = b.link("c26.c")
    jobs = []
    for s in [5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6]:
        jobs += [Job(f, "harness_sign", choice="%d,%d" % (s, v), covers=["sign"]) for v in (range(3) if c.thorough else [s % 3])]
        jobs += [Job(f, "harness_verify", choice="%d,%d" % (s, v), covers=["verify"]) for v in (range(2) if c.thorough else [(s // 2) % 2])]
    for p, n in ((1, 24), (2, 15), (3, 9), (4, 9)):
        x = b.link("c26c.c", defs=["-DP=%d" % p], name="c26c_%d.bc" % p)
        jobs += [Job(x, "harness", choice="%d" % i, covers=["twice"]) for i in range(n)]
        if p == 2:
            jobs.append(Job(x, "harness_alt", covers=["alt"]))
    c.run(jobs)
    c.finish()

main(run)
