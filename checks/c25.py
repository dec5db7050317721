import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C25", {"keys": "all contents, all twelve sets", "comparison lengths": "0..63, 80, 127..129, 255..257, 300, 512; all contents", "wiping": "library explicit_bzero and the portable fallback; the fallback also after whole-program -O2 on memory that is freed next"})
    open(os.path.join(c.tmp, "cfg.h"), "w").write("#include <config.h>\n#undef HAVE_EXPLICIT_BZERO\n#undef HAVE_TIMINGSAFE_BCMP\n")
    jobs = []
    for tag, extra, defs in (("def", [], []), ("fb", ["-include", os.path.join(c.tmp, "cfg.h")], ["-DFALLBACK"])):
        b = c.build(tag=tag, extra=extra)
        us = b.core() + [u for u in b.units if re.match(r"faest_(em_)?\d+[sf]\.c$", u)]
        bc = b.link("c25.c", units=us, defs=defs)
        jobs += [Job(bc, "harness_clear", covers=["clear"]), Job(bc, "harness_cmp", covers=["cmp"]), Job(bc, "harness_cmp1", covers=["cmp1"])]
        bd = b.link("c25.c", units=us, defs=defs + ["-DDSE"], name="c25_lto", lto=["harness_dse", "fsr_free"])
        jobs += [Job(bd, "harness_dse", covers=["freed"])]
        if defs:
            jobs += [Job(bc, "harness_bzero", covers=["bzero"])]
    c.run(jobs)
    c.finish()

main(run)
