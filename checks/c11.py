import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *
SZ = {"128s": (5006, 32, 32), "128f": (6336, 32, 32), "192s": (12744, 64, 56), "192f": (16792, 64, 56), "256s": (22100, 64, 64), "256f": (28400, 64, 64),
      "em_128s": (4566, 32, 32), "em_128f": (5696, 32, 32), "em_192s": (10824, 48, 48), "em_192f": (13912, 48, 48), "em_256s": (20956, 64, 64), "em_256f": (26736, 64, 64)}

def run():
    c = Check("C11", {"message lengths": "0..3, 7, 8, 15..17, 31..33, 63, 64", "placement": "16 distances between message and signed message (identical, overlapping on both sides, adjacent, disjoint)", "smlen": "every value below the signature size",
                      "contents": "all", "sets": "all twelve"}, ["signing and verification are replaced by stubs that check their arguments and succeed or fail (C10)"])
    b = c.build()
    jobs = []
    for s, (sig, pk, sk) in SZ.items():
        u = [x for x in b.units if x == "cs:faest_%s_crypto_sign.c" % s]
        inc = "-I" + os.path.dirname(b.units[u[0]][0])
        d = ["-DSIG=%d" % sig, "-DPK=%d" % pk, "-DSK=%d" % sk, "-Dfsr_SIGNF=fsr_faest_%s_sign" % s, "-Dfsr_VERIFYF=fsr_faest_%s_verify" % s, "-Dfsr_KEYGENF=fsr_faest_%s_keygen" % s, inc]
        bc = b.link("c11.c", units=u, defs=d, name="c11_" + s)
        jobs += [Job(bc, "harness_sign", covers=["sign", "signed", "failed"]), Job(bc, "harness_open", covers=["verify", "opened", "rejected"]), Job(bc, "harness_short", covers=["short"]), Job(bc, "harness_meta", covers=["meta"])]
    c.run(jobs)
    c.finish()

main(run)
