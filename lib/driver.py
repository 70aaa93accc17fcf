"""Runs the symbolic-execution jobs of one property against /repo's current sources."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
SRC = os.path.join(REPO, "src")
NCPU = int(os.environ.get("SX_JOBS", "8"))
LIBCPP = ["fec_vectorisation.cpp", "fft_2n.cpp", "gf_nf4.cpp", "gf_ring.cpp", "misc.cpp", "property.cpp", "quadiron_c.cpp"]
CFG = {"OFF": [], "SSE": ["-msse4.1", "-DQUADIRON_USE_SIMD"], "AVX": ["-mavx2", "-DQUADIRON_USE_SIMD"]}


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, env=None, mem=None, cwd=None):
    def lim():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, preexec_fn=lim, cwd=cwd)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return 124, out.decode(errors="replace") + "\n[timeout]"


class Work:
    """Scratch directory of one run, with everything built in it from the current sources."""

    def __init__(self, name):
        base = os.path.join(VERIF, "build", "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=base)
        self.lock = threading.Lock()
        self.once = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)
        gen = os.path.join(self.dir, "generated")
        os.makedirs(gen)
        src = os.path.join(SRC, "build_info.in")
        txt = open(src).read() if os.path.exists(src) else ""
        txt = re.sub(r"#cmakedefine\s+(\w+).*", r'#define \1 "verif"', txt)
        open(os.path.join(gen, "build_info.h"), "w").write(txt)
        self.gen = gen

    def memo(self, key, fn):
        with self.lock:
            f = self.once.get(key)
            if f is None:
                f = cf.Future()
                self.once[key] = f
                owner = True
            else:
                owner = False
        if owner:
            try:
                f.set_result(fn())
            except BaseException as e:  # noqa
                f.set_exception(e)
        return f.result()

    # ---- engine
    def engine(self):
        def go():
            sx = os.path.join(VERIF, "build", "sx")
            srcs = [os.path.join(VERIF, "engine", f) for f in sorted(os.listdir(os.path.join(VERIF, "engine")))]
            h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest()
            stamp = os.path.join(VERIF, "build", "sx.stamp")
            if not (os.path.exists(sx) and os.path.exists(stamp) and open(stamp).read() == h):
                rc, out = sh(["make", "-s", "-j3", "-C", os.path.join(VERIF, "engine"), "OUT=" + os.path.join(VERIF, "build")], timeout=600)
                if rc:
                    raise BuildError("engine build failed:\n" + out[-3000:])
                open(stamp, "w").write(h)
            return sx
        return self.memo("engine", go)

    # ---- bitcode
    def clang(self, src, out, cfg, defs, libinc=True):
        cmd = ["clang++-18", "-std=c++14", "-O2"] + CFG[cfg] + [
            "-g1", "-gno-column-info", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
            "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-include", "utility", "-I" + os.path.join(VERIF, "rt"),
            "-I" + os.path.join(VERIF, "harness"), "-I" + SRC, "-I" + self.gen, "-emit-llvm", "-c", src, "-o", out] + defs
        rc, o = sh(cmd, timeout=300)
        if rc:
            raise BuildError("clang failed on %s:\n%s" % (src, o[-3000:]))
        return out

    def lib_bc(self, cpp, cfg, nd):
        def go():
            out = os.path.join(self.dir, "%s.%s%s.bc" % (cpp[:-4], cfg, "n" if nd else ""))
            return self.clang(os.path.join(SRC, cpp), out, cfg, ["-DNDEBUG"] if nd else [])
        return self.memo(("lib", cpp, cfg, nd), go)

    def models(self):
        def go():
            return self.clang(os.path.join(VERIF, "rt", "models.cpp"), os.path.join(self.dir, "models.bc"), "OFF", [])
        return self.memo("models", go)

    @staticmethod
    def cpps():
        fs = [f for f in sorted(os.listdir(SRC)) if f.endswith(".cpp")]
        return fs or LIBCPP

    def harness_bc(self, h, cfg, nd, defs):
        def go():
            out = os.path.join(self.dir, "h_%s.%s%s%s.bc" % (h, cfg, "n" if nd else "", hashlib.md5(repr(defs).encode()).hexdigest()[:6]))
            return self.clang(os.path.join(VERIF, "harness", h + ".cpp"), out, cfg, (["-DNDEBUG"] if nd else []) + list(defs))
        return self.memo(("h", h, cfg, nd, tuple(defs)), go)

    # ---- native replay binary (g++-9 as in the repository's build, AddressSanitizer)
    def native_lib(self, cpp, cfg, nd):
        def go():
            out = os.path.join(self.dir, "%s.%s%s.o" % (cpp[:-4], cfg, "n" if nd else ""))
            rc, o = sh(["g++-9", "-std=c++14", "-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-include", "utility"] + CFG[cfg] +
                       (["-DNDEBUG"] if nd else []) + ["-I" + SRC, "-I" + self.gen, "-c", os.path.join(SRC, cpp), "-o", out])
            if rc:
                raise BuildError("g++ failed on %s:\n%s" % (cpp, o[-3000:]))
            return out
        return self.memo(("nlib", cpp, cfg, nd), go)

    def native(self, h, cfg, nd, defs):
        def go():
            tag = "%s.%s%s%s" % (h, cfg, "n" if nd else "", hashlib.md5(repr(defs).encode()).hexdigest()[:6])
            obj = os.path.join(self.dir, "nh_%s.o" % tag)
            out = os.path.join(self.dir, "n_%s" % tag)
            common = ["g++-9", "-std=c++14", "-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-include", "utility", "-I" + os.path.join(VERIF, "rt"),
                      "-I" + os.path.join(VERIF, "harness")] + CFG[cfg] + (["-DNDEBUG"] if nd else [])
            rc, o = sh(common + list(defs) + ["-Dmain=sx_main", "-I" + SRC, "-I" + self.gen, "-c", os.path.join(VERIF, "harness", h + ".cpp"), "-o", obj])
            if rc:
                raise BuildError("g++ failed on harness %s:\n%s" % (h, o[-3000:]))
            rt = self.memo(("nrt",), lambda: self._nrt())
            libs = [self.native_lib(c, cfg, nd) for c in self.cpps()]
            rc, o = sh(["g++-9", "-fsanitize=address", obj, rt] + libs + ["-o", out])
            if rc:
                raise BuildError("link failed for %s:\n%s" % (h, o[-3000:]))
            return out
        return self.memo(("native", h, cfg, nd, tuple(defs)), go)

    def _nrt(self):
        out = os.path.join(self.dir, "nrt.o")
        rc, o = sh(["g++-9", "-std=c++14", "-O1", "-g1", "-w", "-I" + os.path.join(VERIF, "rt"), "-c", os.path.join(VERIF, "rt", "sx_native.cpp"), "-o", out])
        if rc:
            raise BuildError("runtime build failed:\n" + o[-2000:])
        return out

    def replay(self, h, cfg, nd, defs, file, timeout=60):
        exe = self.native(h, cfg, nd, defs)
        env = dict(os.environ, SX_INPUT=file, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:malloc_fill_byte=203:max_malloc_fill_size=268435456")
        rc, out = sh([exe], timeout=timeout, env=env)
        return rc, out

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("SX_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


def job_defaults(j):
    j = dict(j)
    j.setdefault("cfg", "OFF")
    j.setdefault("p", {})
    j.setdefault("defs", [])
    j.setdefault("nd", False)
    j.setdefault("t", 60)
    j.setdefault("labels", [])
    j.setdefault("audit", 5)
    j.setdefault("args", [])
    return j


def job_name(j):
    return j["h"] + "/" + j["cfg"] + "".join(" %s=%s" % kv for kv in sorted(j["p"].items()))


def run_job(w, idx, j, log):
    r = {"job": j, "name": job_name(j), "error": None, "res": None, "confirmed": [], "unreproduced": [], "wit_ok": 0, "wit_bad": [], "log": ""}
    try:
        sx = w.engine()
        files = [w.harness_bc(j["h"], j["cfg"], j["nd"], j["defs"])]
        files += [w.lib_bc(c, j["cfg"], j["nd"]) for c in w.cpps()]
        files.append(w.models())
        out = os.path.join(w.dir, "job%d" % idx)
        os.makedirs(out)
        cmd = [sx, "--out", out, "--time", str(j["t"]), "--audit", str(j["audit"])] + j["args"]
        for k, v in j["p"].items():
            cmd += ["--param", "%s=%d" % (k, v)]
        rc, o = sh(cmd + files, timeout=j["t"] + j["audit"] + 60, mem=12 << 30)
        r["log"] = o[-4000:]
        rf = os.path.join(out, "result.json")
        if rc or not os.path.exists(rf):
            r["error"] = "symbolic execution ended abnormally (rc %d): %s" % (rc, o[-600:])
            return r
        r["res"] = json.load(open(rf))
        res = r["res"]
        # counterexamples: only what the real code does counts
        for v in res["violations"]:
            rc, o = w.replay(j["h"], j["cfg"], j["nd"], j["defs"], v["file"])
            v["native_rc"] = rc
            v["native"] = o[-3000:]
            if rc in (0, 11, 12, 124) and not (rc == 124 and v["kind"] == "timeout"):
                r["unreproduced"].append(v)
            else:
                r["confirmed"].append(v)
        # witnesses of completed paths: the native run must agree on every recorded output
        for f in res["witness"]:
            rc, o = w.replay(j["h"], j["cfg"], j["nd"], j["defs"], f)
            if rc == 0:
                r["wit_ok"] += 1
            elif rc in (10, 77, 134, 139, -6, -11):
                r["confirmed"].append({"kind": "native", "msg": "native execution of a symbolically verified path fails: " + first_line(o), "where": "", "file": f, "native_rc": rc, "native": o[-3000:]})
            else:
                r["wit_bad"].append("%s rc=%d %s" % (os.path.basename(f), rc, first_line(o)))
    except BuildError as e:
        r["error"] = str(e)
    except Exception as e:  # noqa
        r["error"] = "driver: %r" % (e,)
    return r


def first_line(o):
    for l in o.splitlines():
        if l.startswith("SX-") or "ERROR: AddressSanitizer" in l or "Assertion" in l or "terminate" in l:
            return l.strip()[:300]
    return (o.strip().splitlines() or [""])[-1][:300]
