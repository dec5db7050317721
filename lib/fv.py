"""Driver shared by all checks: builds LLVM bitcode from /repo, runs fsym jobs, confirms counterexamples, writes evidence."""
import glob, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FV_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
FSYM = os.path.join(VERIF, "build", "fsym")
HARN = os.path.join(VERIF, "harness")
CC = "clang-18"
OPT = "opt-18"
LINK = "llvm-link-18"
NCPU = min(8, os.cpu_count() or 4)
SETS = ["128s", "128f", "192s", "192f", "256s", "256f", "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f"]
# mid-level optimisation: registers instead of stack slots, no inlining across functions, no vectorisation
PASSES = "always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,early-cse)"
PASSES_LIGHT = "always-inline,function(sroa,early-cse)"
PASSES_NONE = "always-inline"


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, **kw)
    if p.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout[-4000:]))
    return p.stdout


def ensure_engine():
    sh(["bash", os.path.join(ENGINE, "build.sh")], timeout=900)


class Build:
    """One configuration of the repository, compiled to bitcode file by file."""

    def __init__(self, chk, opts=(), extra=(), tag="def", openssl=False, sha3=None, only=None):
        self.chk, self.tag, self.extra = chk, tag, list(extra)
        self.dir = os.path.join(chk.tmp, "b_" + tag)
        m = os.path.join(chk.tmp, "m_" + tag)
        env = dict(os.environ, CC="gcc", CXX="g++")
        args = ["meson", "setup", m, REPO, "--buildtype=debugoptimized", "--wrap-mode=nodownload", "-Dwerror=false", "-Db_lto=false",
                "-Dvalgrind=disabled", "-Dcatch2=disabled", "-Dbenchmarks=disabled", "-Dopenssl=" + ("enabled" if openssl else "disabled")]
        if sha3:
            args.append("-DSHA3=" + sha3)
        sh(args + list(opts), env=env)
        self.m = m
        os.makedirs(self.dir, exist_ok=True)
        cc = json.load(open(os.path.join(m, "compile_commands.json")))
        self.units, self.cflags = {}, None
        for e in cc:
            lib = e["output"].split("/")[0]
            if lib.startswith("libfaest") and ".so" in lib:
                src = os.path.normpath(os.path.join(e["directory"], e["file"]))
                fl = [a for a in shlex.split(e["command"])[1:] if re.match(r"-(I|D|U|std=)", a)]
                fl = [("-I" + os.path.normpath(os.path.join(e["directory"], a[2:]))) if a.startswith("-I") else a for a in fl]
                self.units[os.path.basename(src)] = (src, fl)
            m2 = re.match(r"(faest_\w+)\.p/.*crypto_sign", e["output"])
            if m2 or e["file"].endswith("crypto_sign.c"):
                src = os.path.normpath(os.path.join(e["directory"], e["file"]))
                name = os.path.basename(os.path.dirname(src)) + "_crypto_sign.c"
                fl = [a for a in shlex.split(e["command"])[1:] if re.match(r"-(I|D|U|std=)", a)]
                fl = [("-I" + os.path.normpath(os.path.join(e["directory"], a[2:]))) if a.startswith("-I") else a for a in fl]
                self.units.setdefault("cs:" + name, (src, fl))
        if "faest.c" not in self.units:
            raise CheckError("no library units in compile_commands.json")
        self.flags = [f for f in self.units["faest.c"][1] if f not in ("-DFAEST_EXPORT=",)]
        self.cache = {}
        self.lock = threading.Lock()

    def base_flags(self, fl):
        keep = [f for f in fl if not f.startswith("-DFAEST_STATIC") and not f.startswith("-DFAEST_EXPORT") and not f.startswith("-DFAEST_TESTS")]
        return keep + ["-DFAEST_STATIC", "-DFAEST_EXPORT=", "-DFAEST_TESTS", "-I" + ENGINE, "-I" + HARN, "-I" + REPO, "-w", "-g", "-O1", "-fno-vectorize",
                       "-fno-slp-vectorize", "-fno-builtin-memcmp", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-U_FORTIFY_SOURCE"] + self.extra

    def unit(self, name, passes=PASSES, keep_static=True):
        """bitcode of one repository unit"""
        key = (name, passes)
        with self.lock:
            ev = self.cache.get(key)
            if ev is None:
                ev = self.cache[key] = [threading.Lock(), None]
        with ev[0]:
            if ev[1] is None:
                src, fl = self.units[name]
                out = os.path.join(self.dir, re.sub(r"\W", "_", name) + "_%d.bc" % (abs(hash(passes)) % 100000))
                sh([CC] + self.base_flags(fl) + [src, "-o", out])
                sh([OPT, "-passes=" + passes, out, "-o", out + ".o"])
                ev[1] = out + ".o"
        return ev[1]

    def core(self):
        return [u for u in self.units if not u.startswith("cs:") and not re.match(r"faest_(em_)?\d+[sf]\.c$", u)]

    def link(self, harness, units=None, defs=(), passes=PASSES, name=None, lto=None):
        name = name or os.path.splitext(os.path.basename(harness))[0]
        out = os.path.join(self.dir, name + ".bc")
        units = self.core() if units is None else units
        h = out + ".h.bc"
        sh([CC] + self.base_flags(self.units["faest.c"][1]) + list(defs) + [os.path.join(HARN, harness), "-o", h])
        sh([OPT, "-passes=" + passes, h, "-o", h])
        with ThreadPoolExecutor(NCPU) as ex:
            bcs = list(ex.map(lambda u: self.unit(u, passes), units))
        sh([LINK, h] + bcs + ["-o", out])
        if lto:  # whole-program optimisation, keeping the listed symbols
            sh([OPT, "-passes=internalize,default<O2>", "-internalize-public-api-list=" + ",".join(lto), "-vectorize-loops=false", "-vectorize-slp=false", out, "-o", out])
        return out


class Job:
    def __init__(self, bc, entry="harness", choice=None, flags=(), timeout=600, solver=60, covers=(), label=None, must_functions=(), mem=None):
        self.bc, self.entry, self.choice, self.flags, self.timeout, self.solver = bc, entry, choice, list(flags), timeout, solver
        self.covers, self.label, self.must = list(covers), label or (os.path.basename(bc) + ":" + entry + (":" + str(choice) if choice is not None else "")), list(must_functions)
        self.res = None


class Check:
    def __init__(self, pid, bounds, assumptions=(), level="model_checking"):
        self.pid, self.bounds, self.assumptions, self.level = pid, bounds, list(assumptions), level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="fv_%s_" % pid)
        self.jobs, self.violations, self.errors, self.notes = [], [], [], []
        self.extra_cov = {}
        self.procs = set()
        self.lock = threading.Lock()
        signal.signal(signal.SIGTERM, lambda *a: self.abort())
        ensure_engine()

    def abort(self):
        for p in list(self.procs):
            try:
                p.terminate()
            except Exception:
                pass
        shutil.rmtree(self.tmp, ignore_errors=True)
        os._exit(3)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def build(self, **kw):
        return Build(self, **kw)

    def enough(self):
        """three confirmed violations that are not known findings (one, after four minutes): the verdict stands, the rest need not be computed"""
        known = load_known(self.pid)
        n = len([1 for d, _, _ in self.violations if not any(k in d for k in known)])
        return n >= 3 or (n >= 1 and time.time() - self.t0 > 240 and not self.thorough)

    def run_job(self, j):
        if self.enough():
            j.res, j.tmp = {"status": "skipped", "violations": [], "covers": [], "functions": [], "inconclusive": []}, self.tmp
            return j
        i = len([x for x in self.jobs if x is j]) and self.jobs.index(j)
        tmp = os.path.join(self.tmp, "j%d" % i)
        os.makedirs(tmp, exist_ok=True)
        cmd = [FSYM, j.bc, "-entry", j.entry, "-o", os.path.join(tmp, "res.json"), "-replay", os.path.join(tmp, "r"), "-tmp", tmp, "-seed", str(self.seed),
               "-timeout", str(j.timeout), "-solver-timeout", str(j.solver)] + j.flags
        if j.choice is not None:
            cmd += ["-choice", str(j.choice)]
        with open(os.path.join(tmp, "log"), "w") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=lf)
            self.procs.add(p)
            end, rc = time.time() + j.timeout + 120, None
            while rc is None:
                try:
                    rc = p.wait(timeout=1 if time.time() - self.t0 > 10 else 0.2)
                except subprocess.TimeoutExpired:
                    if self.enough():
                        p.kill()
                        p.wait()
                        self.procs.discard(p)
                        j.res, j.tmp = {"status": "skipped", "violations": [], "covers": [], "functions": [], "inconclusive": []}, self.tmp
                        return j
                    if time.time() > end:
                        p.kill()
                        p.wait()
                        rc = -9
            self.procs.discard(p)
        try:
            j.res = json.load(open(os.path.join(tmp, "res.json")))
        except Exception:
            j.res = {"status": "error", "message": "fsym ended with %s: %s" % (rc, open(os.path.join(tmp, "log")).read()[-500:]), "violations": [], "covers": [], "functions": [], "inconclusive": []}
        j.tmp = tmp
        return j

    def run_and_confirm(self, j):
        self.run_job(j)
        with self.lock:
            for v in j.res.get("violations", []):
                if not self.enough():
                    self.confirm(j, v)
        return j

    def run(self, jobs, workers=None):
        self.jobs += jobs
        with ThreadPoolExecutor(workers or NCPU) as ex:
            list(ex.map(self.run_and_confirm, jobs))
        for j in jobs:
            r = j.res
            if r["status"] == "error":
                self.errors.append("%s: %s" % (j.label, r["message"]))
            for x in r.get("inconclusive", []):
                self.errors.append("%s: inconclusive: %s" % (j.label, x))
            if r["status"] == "ok":
                for c in j.covers:
                    if c not in r["covers"]:
                        self.errors.append("%s: vacuous: cover point %r not reached" % (j.label, c))
                for f in j.must:
                    if f not in r["functions"]:
                        self.errors.append("%s: function %s was not executed" % (j.label, f))

    def native(self, j, kind):
        """compiled replay binary for a job"""
        key = "nat_" + kind + ("init" if "-init" in j.flags and kind == "uninit" else "")
        cache = self.__dict__.setdefault("natcache", {})
        k = (j.bc, j.entry, key)
        if k in cache:
            return cache[k]
        out = os.path.join(j.tmp, "native_" + kind)
        fl = ["-trace"] if kind == "ct" else ["-align"] if kind == "align" else ["-san"] + (["-init"] if kind == "uninit" else [])
        sh([FSYM, j.bc, "-entry", j.entry, "-emit-native", out + ".bc"] + fl)
        san = {"ct": [], "align": [], "uninit": ["-fsanitize=memory"]}.get(kind, ["-fsanitize=address"])
        sh([CC, "-O0" if kind == "uninit" else "-O1", "-g", "-w", "-I" + ENGINE] + san + [out + ".bc", os.path.join(ENGINE, "runtime.c"), "-o", out], timeout=900)
        cache[k] = out
        return out

    def replay(self, j, v):
        kind = v["kind"] if v["kind"] in ("ct", "uninit") else "align" if v["msg"].startswith("misaligned") else "mem"
        exe = self.native(j, kind)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1", MSAN_OPTIONS="exitcode=99")
        if kind == "align":
            env["FS_ALIGN"] = "1"
        if kind == "ct":
            outs = []
            for i, run in enumerate((["A"], ["A", "B"])):
                tr = os.path.join(j.tmp, "trace%d" % i)
                p = subprocess.run([exe, v["replay"], tr] + run[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, env=env)
                if p.returncode not in (0,):
                    return False, "run ended with %d: %s" % (p.returncode, p.stdout[-300:])
                outs.append(open(tr, "rb").read())
            return outs[0] != outs[1], "traces %s (%d/%d bytes)" % ("differ" if outs[0] != outs[1] else "agree", len(outs[0]), len(outs[1]))
        last = ""
        # the model as it is, completed by random values, and with special values for one input (values the abstraction left open)
        nin = sum(l.startswith("S ") for l in open(v["replay"], errors="replace"))
        t0 = time.time()
        special = ["%d:%d" % (k, x) for x in (1, 0, 255, 2) for k in range(nin)] if nin <= 32 else []
        for fill in [None] + list(range(1, 9)) + special:
            e = dict(env)
            if isinstance(fill, str):
                if time.time() - t0 > 60:
                    break
                e["FS_SPECIAL"], fill = fill, 1
            if fill is not None:
                e["FS_FILL"] = str(fill)
            p = subprocess.run([exe, v["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, env=e, errors="replace")
            last = p.stdout[-600:]
            if p.returncode == 1 and "REPLAY-FAIL" in p.stdout:
                return True, [l for l in p.stdout.splitlines() if "REPLAY-FAIL" in l][0] + "".join(" %s=%s" % (k, e[k]) for k in ("FS_FILL", "FS_SPECIAL") if k in e)
            if p.returncode == 99 or p.returncode < 0:
                ls = [l for l in p.stdout.splitlines() if "ERROR" in l or "WARNING" in l]
                return True, ls[0] if ls else "crashed with %d" % p.returncode
            if fill is None and p.returncode == 0:
                continue
        return False, last

    def confirm(self, j, v):
        try:
            ok, how = self.replay(j, v)
        except Exception as e:  # noqa
            ok, how = False, "replay could not be run: %s" % e
        desc = "%s: %s: %s at %s" % (j.label, v["kind"], v["msg"], v["loc"])
        if not ok:
            self.errors.append("counterexample not confirmed by replay: %s (%s)" % (desc, how))
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(d, "%s_%d.replay" % (self.pid, n))
        shutil.copy(v["replay"], path)
        with open(path, "a") as f:
            f.write("JOB %s\nCONFIRMED %s\n" % (j.label, how))
        self.violations.append((desc, path, how))

    def violation(self, desc, path_text, how="confirmed on the real code"):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.replay" % (self.pid, len(self.violations)))
        open(path, "w").write(path_text)
        self.violations.append((desc, path, how))

    def finish(self):
        fns, icp = set(), set()
        tot = {k: 0 for k in ("paths", "instructions", "forks", "obligations", "normalised", "queries", "unsat", "sat", "unknown", "simulations", "abstracted_equalities", "opaque")}
        st, samples, solvers = 0.0, [], {}
        for j in self.jobs:
            r = j.res or {}
            fns.update(r.get("functions", []))
            icp.update(r.get("intercepted", []))
            for k in tot:
                tot[k] += r.get(k, 0)
            st += r.get("solver_s", 0)
            for k, x in r.get("solvers", {}).items():
                solvers[k] = solvers.get(k, 0) + x
            samples.append({"job": j.label, "status": r.get("status"), "obligations": r.get("obligations"), "queries": r.get("queries"), "paths": r.get("paths"), "covers": r.get("covers"), "wall_s": r.get("wall_s")})
        stubs = sorted(icp)
        real = sorted(f for f in fns if not f.startswith("fsr_") and not f.startswith("h_") and f not in ("harness",))
        cov = {"states": tot["paths"] + tot["forks"], "transitions": tot["instructions"], "traces_validated_against_impl": len(self.violations),
               "samples": samples[:40], "jobs": len(self.jobs), "functions_encoded": real, "functions_stubbed": stubs, "bounds": self.bounds,
               "obligations_checked": tot["obligations"], "obligations_equal_after_normalisation": tot["normalised"], "smt_queries": tot["queries"], "smt_unsat": tot["unsat"], "smt_sat": tot["sat"],
               "smt_unknown": tot["unknown"], "solver_seconds": round(st, 3), "solver_answers": solvers, "abstracted_equalities": tot["abstracted_equalities"], "opaque_terms": tot["opaque"]}
        cov.update(self.extra_cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if os.environ.get("FV_KEEP"):
            print("scratch kept:", self.tmp)
        else:
            shutil.rmtree(self.tmp, ignore_errors=True)
        for n in self.notes:
            print(n)
        known = load_known(self.pid)
        real_v = []
        for d, path, how in self.violations:
            k = next((x for x in known if x in d), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
            else:
                real_v.append((d, path, how))
        for e in self.errors:
            print("ERROR:", e)
        for d, path, how in real_v:
            print("violation: %s [%s]" % (d, how))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s: %d jobs, %d obligations, %d queries, solver %.1fs, wall %.1fs: %s" % (self.pid, self.tier, len(self.jobs), tot["obligations"], tot["queries"], st, time.time() - self.t0,
              "VIOLATED" if real_v else ("ERROR" if self.errors else "holds within the bounds")))
        sys.stdout.flush()
        os._exit(1 if real_v else (2 if self.errors else 0))


def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\w+) match=(.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except FileNotFoundError:
        pass
    return out


def main(fn):
    """run a check; any unexpected problem is an error exit, never a violation"""
    try:
        fn()
    except CheckError as e:
        print("ERROR:", e)
        sys.stdout.flush()
        os._exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(2)
