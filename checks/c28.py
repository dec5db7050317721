import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

VARIANTS = {"posix": [], "memalign": ["HAVE_POSIX_MEMALIGN"], "manual": ["HAVE_POSIX_MEMALIGN", "HAVE_MEMALIGN"]}

def run():
    c = Check("C28", {"alignment": "every 64-bit value (manual variant: every power of two, all other values in the rejection query)", "size": "every 64-bit value",
                      "address": "manual variant: every residue of the underlying block modulo alignments up to 16 (thorough: 256), five residues above", "variants": "posix_memalign, memalign, malloc with offset byte (also with default alignment helpers)"},
              ["malloc, posix_memalign, memalign and free are models that succeed or fail and check their arguments"])
    jobs = []
    for v, und in VARIANTS.items():
        h = os.path.join(c.tmp, "cfg_%s.h" % v)
        open(h, "w").write("#include <config.h>\n#undef HAVE_ALIGNED_ALLOC\n" + "".join("#undef %s\n" % u for u in und))
        b = c.build(tag=v, extra=["-include", h])
        bc = b.link("c28.c", units=["compat.c"], passes=PASSES_LIGHT, defs=["-DMANUAL", "-DALLRES=%d" % (256 if c.thorough else 16)] if v == "manual" else [])
        if v == "manual":
            jobs += [Job(bc, "harness_any", choice="%d,%d" % (i, k)) for i, ks in ((0, range(64)), (1, range(0, 64, 9))) for k in ks]
        else:
            jobs += [Job(bc, "harness_any", covers=["failed", "allocated"], must_functions=["faest_aligned_alloc", "faest_aligned_free"])]
        jobs += [Job(bc, "harness_null", covers=["null"]), Job(bc, "harness_reject_alignment", covers=["rejected"]), Job(bc, "harness_reject_size", covers=["rejected"])]
    c.run(jobs)
    c.finish()

main(run)
