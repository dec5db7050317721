import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

def run():
    c = Check("C12", {"operands": "all field elements of every width, both field representations", "unrolling": "complete"})
    open(os.path.join(c.tmp, "nov.h"), "w").write('#include "macros.h"\n#undef HAVE_ATTR_VECTOR_SIZE\n#undef ATTR_VECTOR_SIZE\n#define ATTR_VECTOR_SIZE(s)\n')
    jobs = []
    for tag, extra in (("vec", []), ("struct", ["-include", os.path.join(c.tmp, "nov.h")])):
        b = c.build(tag=tag, extra=extra)
        for w in (8, 64, 128, 192, 256):
            bc = b.link("c12.c", defs=["-DW=%d" % w], name="c12_%s_%d" % (tag, w))
            for e in {8: ["mul", "inv"], 64: ["mul", "lin"]}.get(w, ["mul", "mul64", "lin", "combine", "sumpoly"]):
                jobs.append(Job(bc, "harness_" + e, covers=[e]))
    c.run(jobs)
    c.finish()

main(run)
