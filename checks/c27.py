import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fv import *

VARIANTS = {
    "getrandom": "#include <config.h>\n",
    "arc4": "#include <config.h>\n#undef HAVE_GETRANDOM\n#undef HAVE_SYS_RANDOM_H\n#include \"macros.h\"\n#undef GLIBC_CHECK\n#define GLIBC_CHECK(a,b) 0\n",
    "urandom": "#include <config.h>\n#undef HAVE_GETRANDOM\n#undef HAVE_SYS_RANDOM_H\n#undef HAVE_ARC4RANDOM_BUF\n#include \"macros.h\"\n#undef GLIBC_CHECK\n#define GLIBC_CHECK(a,b) 0\n",
}

def run():
    c = Check("C27", {"request lengths": "0..6, 16, 24, 32, 48", "system calls per request": "at most %d before the run is cut off; every outcome of each (success, short count, EAGAIN, EINTR, hard error) explored" % (7 if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else 5),
                      "back ends": "getrandom, arc4random_buf, /dev/urandom"},
              ["operating-system calls are replaced by models that deliver a prefix of the request or fail; read and getrandom never deliver more than asked"])
    jobs = []
    for v, txt in VARIANTS.items():
        h = os.path.join(c.tmp, "cfg_%s.h" % v)
        open(h, "w").write(txt)
        b = c.build(tag=v, extra=["-include", h])
        bc = b.link("c27.c", units=["randomness.c"], defs=["-DH_MAXCALLS=7"] if c.thorough else [])
        cov = ["success"] + ([] if v == "arc4" else ["failure"])
        jobs += [Job(bc, "harness", choice=i, timeout=3000, covers=[] if v == "urandom" and c.thorough else cov if v != "getrandom" or i else ["success"]) for i in range(7)] + [Job(bc, "harness_long", choice=i, timeout=3000, covers=cov, must_functions=["rand_bytes"]) for i in range(4)]
    c.run(jobs)
    c.finish()

main(run)
