import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C22", {"layers": "fields; own AES key schedule, one-way functions, witness, PRG (up to 96 bytes); hash interfaces (16 message lengths, updates split in two) and permutation in both implementations; universal hashes (both lengths per level, 100 elements); vector commitments of depth 1..12; VOLE commitments with both depths; prover, signing and key generation of all twelve sets",
                      "contents": "all secrets and all public values", "observations": "branch and switch conditions, load and store addresses, lengths of copies, allocation sizes, division operands, call targets, memcmp on secrets"},
              ["layers below the one looked at are arbitrary functions whose outputs are secret", "source-level program (LLVM IR before optimisation turns branches into selections); instruction timing and later compiler passes are outside",
               "public by design: usability of a key, one-way function output, IV, Fiat-Shamir challenges, verdict of the key validation, all verification inputs"])
    ct = ["-ct"]
    jobs = []
    b = c.build()
    L = lambda bb, p, defs=(), nm="": bb.link("c22.c", defs=["-DP=%d" % p] + list(defs), passes=PASSES_LIGHT, name="c22_%d%s_%s.bc" % (p, nm, bb.tag))
    J = lambda f, e, ch=None, cov=None, **k: jobs.append(Job(f, "harness_" + e, choice=ch, flags=ct, covers=[cov or e], **k))
    f = L(b, 7)
    for s in [5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6]:
        J(f, "sign", "%d" % s)
    f = L(b, 6)
    for s in [5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6]:
        J(f, "prove", "%d" % s)
    f = L(b, 5)
    for D in range(11, -1, -1):
        J(f, "vc", "%d" % D)
    for s in range(12):
        J(f, "commit", "%d" % s)
    f = L(b, 4)
    J(f, "vole"), J(f, "zk128", cov="zk"), J(f, "zk192", cov="zk"), J(f, "zk256", cov="zk")
    f = L(b, 1)
    for w in (64, 128, 192, 256, 8):
        J(f, "f%d" % w, cov="field")
    J(f, "compat")
    f = L(b, 2)
    for s in range(6):
        J(f, "owf", "%d" % s)
    for s in range(12):
        J(f, "witness", "%d" % s)
    for s in range(3):
        J(f, "prg", "%d" % s)
    bo = c.build(tag="ossl", openssl=True)
    f = L(bo, 2, ["-DOSSL"])
    J(f, "prg")
    for sha in ("opt64", "plain32"):
        bs = c.build(tag=sha, sha3=sha)
        f = L(bs, 3, ["-DSTUBPERM"], "s")
        for s in range(3):
            J(f, "hash", "%d" % s)
        J(L(bs, 3), "perm")
    bt = c.build(tag="timecop", extra=["-DTIMECOP"])
    us = bt.core() + [u for u in bt.units if re.match(r"faest_(em_)?\d+[sf]\.c$", u)]
    f = bt.link("c22.c", units=us, defs=["-DP=8"], passes=PASSES_LIGHT, name="c22_8.bc")
    J(f, "ctkeygen", cov="keygen"), J(f, "ctvalidate", cov="validate"), J(f, "ctsign", cov="sign")
    c.run(jobs)
    c.finish()

main(run)
