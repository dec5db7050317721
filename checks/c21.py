import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *
SZ = {"128s": (5006, 32, 32), "128f": (6336, 32, 32), "192s": (12744, 64, 56), "192f": (16792, 64, 56), "256s": (22100, 64, 64), "256f": (28400, 64, 64),
      "em_128s": (4566, 32, 32), "em_128f": (5696, 32, 32), "em_192s": (10824, 48, 48), "em_192f": (13912, 48, 48), "em_256s": (20956, 64, 64), "em_256f": (26736, 64, 64)}

def run():
    c = Check("C21", {"signing and verification": "all twelve sets, arbitrary signature bytes, keys, inputs; message of 0, 5, 64 bytes, randomness of 0, 32, 64 bytes", "proof": "all twelve sets, arbitrary witness, rows and challenges",
                      "commitments": "vector commitments of depth 1..12 (every index up to depth 3, six beyond), VOLE commitments and reconstruction with the twelve sets' tree mixtures at depth reduced by 8 (4), rows of 1 and 26 bytes, three challenges; the same at full depth with fixed contents",
                      "components": "PRG 0..81 bytes, 20 hash message lengths, both universal hashes at full length, all ciphers, one-way functions, witness extension, fields, comparison and wiping"},
              ["layers below the one looked at read and write exactly what their interface says and combine everything they read into their outputs", "allocations succeed", "alignment is not checked inside the Keccak code, which documents misaligned lane access on this architecture"])
    fl = ["-init", "-align"]
    jobs = []
    b = c.build()
    L = lambda bb, p, defs=(), nm="", **k: bb.link("c21.c", defs=["-DP=%d" % p] + list(defs), passes=PASSES_LIGHT, name="c21_%d%s_%s.bc" % (p, nm, bb.tag), **k)
    J = lambda f, e, ch=None, cov=None, flags=fl, **k: jobs.append(Job(f, "harness_" + e, choice=ch, flags=flags, covers=[cov or e], **k))
    f = L(b, 7)
    for s in [5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6]:
        J(f, "sign", "%d" % s), J(f, "verify", "%d" % s)
    f = L(b, 6)
    for s in [5, 4, 3, 2, 11, 10, 9, 8, 1, 0, 7, 6]:
        J(f, "proof", "%d,0" % s), J(f, "proof", "%d,1" % s)
    f = L(b, 5, ["-DRED=5"] if c.thorough else [])
    for D in range(11, -1, -1):
        J(f, "vc", "%d" % D)
    for s in range(12):
        J(f, "vole", "%d" % s)
    f = L(b, 5, ["-DWIDE"], "w")
    for s in range(12):
        J(f, "vole", "%d" % s)
    f = L(b, 4)
    J(f, "vole"), J(f, "zk128", cov="zk"), J(f, "zk192", cov="zk"), J(f, "zk256", cov="zk")
    f = L(b, 1)
    for w in (64, 128, 192, 256):
        J(f, "f%d" % w, cov="field")
    J(f, "compat")
    f = L(b, 2)
    for s in range(6):
        J(f, "owf", "%d" % s)
    for s in range(12):
        J(f, "witness", "%d" % s)
    J(f, "block")
    for s in range(3):
        J(f, "prg", "%d" % s)
    f = L(c.build(tag="ossl", openssl=True), 2, ["-DOSSL"])
    J(f, "prg")
    us = b.core() + [u for u in b.units if re.match(r"faest_(em_)?\d+[sf]\.c$", u)]
    f = b.link("c21.c", units=us, defs=["-DP=8"], passes=PASSES_LIGHT, name="c21_8.bc")
    J(f, "api")
    for s, (sig, pk, sk) in SZ.items():
        u = [x for x in b.units if x == "cs:faest_%s_crypto_sign.c" % s]
        d = ["-DP=9", "-DSIG=%d" % sig, "-DPK=%d" % pk, "-DSK=%d" % sk, "-Dfsr_SIGNF=fsr_faest_%s_sign" % s, "-Dfsr_VERIFYF=fsr_faest_%s_verify" % s, "-Dfsr_KEYGENF=fsr_faest_%s_keygen" % s]
        J(b.link("c21.c", units=u, defs=d, passes=PASSES_LIGHT, name="c21_9_" + s), "cs")
    for sha in ("opt64", "plain32"):
        bs = c.build(tag=sha, sha3=sha)
        f = L(bs, 3)
        for s in range(3):
            J(f, "hash", "%d" % s, flags=["-init"])
    c.run(jobs)
    c.finish()

main(run)
