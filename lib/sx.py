"""Build and run driver of the solver-based checks (see DESIGN.md)."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
CACHE = os.environ.get("SX_CACHE", os.path.join(VERIF, ".cache"))
NJ = os.cpu_count() or 4

DEFS = ("-D_POSIX_C_SOURCE=200112 -DBOOST_NO_CXX98_FUNCTION_BASE=1 -DHAS_FS -DUNISTR_FROM_CHAR_EXPLICIT=explicit "
        "-DUNISTR_FROM_STRING_EXPLICIT=explicit -DU_CHARSET_IS_UTF8=1 -DU_DISABLE_RENAMING=0").split()
INCS = ["-I" + os.path.join(REPO, d) for d in ("src", "include", "include/posix")]
LIBS = "-licui18n -licuio -licuuc -licudata -lsqlite3 -lpthread".split()
NOTLIB = re.compile(r"^(main|cg-.*|all_.*|test_.*|icu_uoptions)\.cpp$")
# slowest first, so that the wall time of a parallel build is that of the slowest unit
SLOW = ["GrammarApplicator_runRules", "TextualParser", "GrammarApplicator", "GrammarApplicator_reflow", "Grammar",
        "JsonlApplicator", "GrammarApplicator_runGrammar", "ApertiumApplicator", "GrammarApplicator_runContextualTest"]


class BuildError(Exception):
    pass


def sh(cmd, env=None, timeout=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-6000:]))
    return p.stdout.decode("utf8", "replace")


def fhash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_headers():
    r = []
    for d in ("src", "include"):
        for base, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(base, f) for f in fs if f.endswith((".hpp", ".h"))]
    return sorted(r)


def repo_units():
    r = []
    for f in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
        if not NOTLIB.match(os.path.basename(f)):
            r.append(f)
    r.append(os.path.join(REPO, "include/posix/popen_plus.cpp"))
    return r


def once(path, fn):
    """build artefact `path` through fn(tmp) unless it is there"""
    if os.path.exists(path):
        return path
    tmp = "%s.%d.tmp" % (path, os.getpid())
    fn(tmp)
    os.replace(tmp, path)
    return path


class Build:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.t0 = time.time()
        eng = [os.path.join(ENG, f) for f in ("SxPass.cpp", "sxrt.cpp", "sxmalloc.cpp", "sxnative.cpp", "models.cpp", "sx.h",
                                              "redirect.txt", "override.txt", "safe.txt", "sxrt.map")]
        self.ekey = fhash(eng)
        self.hkey = fhash(repo_headers())
        self.edir = os.path.join(CACHE, "e-" + self.ekey)
        os.makedirs(os.path.join(self.edir, "ov", "bits"), exist_ok=True)
        self.odir = os.path.join(CACHE, "o")
        os.makedirs(self.odir, exist_ok=True)

    # ---- engine
    def engine(self, pool):
        ed = self.edir
        E = lambda f: os.path.join(ENG, f)
        flags = sh(["llvm-config-18", "--cxxflags"]).split()
        jobs = [
            (ed + "/SxPass.so", lambda o: sh(["clang++-18", "-O1", "-w", "-fPIC", "-shared"] + flags + [E("SxPass.cpp"), "-o", o])),
            (ed + "/libsxrt.so", lambda o: sh(["g++", "-O2", "-g", "-fPIC", "-shared", "-fvisibility=hidden", E("sxrt.cpp"), "-o", o,
                                              "-Wl,--version-script=" + E("sxrt.map"), "-Wl,-soname,libsxrt.so", "-lz3", "-lpthread"])),
            (ed + "/sxmalloc.o", lambda o: sh(["clang++-18", "-O2", "-c", E("sxmalloc.cpp"), "-o", o])),
            (ed + "/sxnative.o", lambda o: sh(["clang++-18", "-O1", "-std=c++20", "-c", E("sxnative.cpp"), "-o", o])),
            (ed + "/ov/bits/c++config.h", self.overlay),
        ]
        return [pool.submit(once, p, f) for p, f in jobs]

    def overlay(self, out):
        src = None
        for c in glob.glob("/usr/include/*/c++/*/bits/c++config.h"):
            if "/13/" in c or src is None:
                src = c
        t = open(src).read()
        t = t.replace("# define _GLIBCXX_EXTERN_TEMPLATE 1", "# define _GLIBCXX_EXTERN_TEMPLATE 0")
        open(out, "w").write(t)

    def unit_cmds(self, src, out, extra=(), redirect=True):
        env = {"SX_SAFE": os.path.join(ENG, "safe.txt"), "SX_OVERRIDE": os.path.join(ENG, "override.txt")}
        if redirect:
            env["SX_REDIRECT"] = os.path.join(ENG, "redirect.txt")
        else:
            env["SX_NO_REDIRECT"] = "1"
        cmd = (["clang++-18", "-O1", "-std=c++2b", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin-printf", "-ffp-contract=off",
                "-I" + self.edir + "/ov", "-I" + ENG, "-I" + HAR] + DEFS + INCS + list(extra) +
               ["-fpass-plugin=" + self.edir + "/SxPass.so", "-emit-llvm", "-c", src, "-o", out + ".bc"])
        sh(cmd, env)
        sh(["llc-18", "-O0", "-filetype=obj", "-relocation-model=pic", out + ".bc", "-o", out])
        os.unlink(out + ".bc")

    def unit(self, src, extra=(), redirect=True, dep=""):
        key = hashlib.sha256("|".join([self.ekey, self.hkey, fhash([src]), " ".join(extra), dep]).encode()).hexdigest()[:20]
        out = os.path.join(self.odir, os.path.basename(src)[:-4] + "-" + key + ".o")
        return once(out, lambda o: self.unit_cmds(src, o, extra, redirect))

    def harness_dep(self):
        return fhash(sorted(glob.glob(HAR + "/*.hpp")) + [os.path.join(ENG, "sx.h")])

    def build(self, harnesses):
        """harnesses: list of (name, extra flags, libset) -> {index: exe}"""
        exes = {}
        dep = self.harness_dep()
        with cf.ThreadPoolExecutor(NJ) as pool:
            for f in self.engine(pool):
                f.result()
            full = any(h[2] == "full" for h in harnesses)
            units = repo_units() if full else []
            units.sort(key=lambda u: next((i for i, s in enumerate(SLOW) if os.path.basename(u) == s + ".cpp"), 99))
            slow = [pool.submit(self.unit, u) for u in units[:3]]
            hfut = [pool.submit(self.unit, os.path.join(HAR, n + ".cpp"), tuple(x), True, dep) for n, x, _ in harnesses]
            mfut = pool.submit(self.unit, os.path.join(ENG, "models.cpp"), ("-fno-builtin",), False)
            lib = slow + [pool.submit(self.unit, u) for u in units[3:]]
            libo = [f.result() for f in lib]
            mo = mfut.result()
            arch = None
            if libo:
                akey = hashlib.sha256("|".join(libo).encode()).hexdigest()[:20]
                def ar(o):
                    if os.path.exists(o):
                        os.unlink(o)
                    sh(["ar", "qcs", o] + libo)
                arch = once(os.path.join(self.odir, "lib-%s.a" % akey), ar)
            for i, (n, x, ls) in enumerate(harnesses):
                ho = hfut[i].result()
                exe = os.path.join(self.odir, "%s-%s" % (n, hashlib.sha256(("%s|%s|%s|%s" % (ho, mo, arch, self.ekey)).encode()).hexdigest()[:16]))
                def link(o, ho=ho, ls=ls):
                    sh(["clang++-18", "-no-pie", "-rdynamic", "-o", o, ho, mo, self.edir + "/sxmalloc.o", self.edir + "/sxnative.o"] +
                       ([arch] if arch and ls == "full" else []) + ["-L" + self.edir, "-lsxrt", "-Wl,-rpath," + self.edir] + LIBS + ["-lz3"])
                exes[i] = once(exe, link)
        return exes

    # ---- plain build for replays
    def native_unit(self, src, extra, san, dep=""):
        key = hashlib.sha256("|".join(["n", self.hkey, fhash([src]), " ".join(extra), san, dep]).encode()).hexdigest()[:20]
        out = os.path.join(self.odir, "n-" + os.path.basename(src)[:-4] + "-" + key + ".o")
        sanf = ["-fsanitize=address", "-fno-omit-frame-pointer"] if san else []
        return once(out, lambda o: sh(["clang++-18", "-O0", "-g", "-std=c++2b", "-w", "-DSX_REPLAY", "-I" + ENG, "-I" + HAR] + DEFS + INCS +
                                      list(extra) + sanf + ["-c", src, "-o", o]))

    def build_native(self, name, extra, libset, san=""):
        dep = self.harness_dep()
        with cf.ThreadPoolExecutor(NJ) as pool:
            units = repo_units() if libset == "full" else []
            units.sort(key=lambda u: next((i for i, s in enumerate(SLOW) if os.path.basename(u) == s + ".cpp"), 99))
            fs = [pool.submit(self.native_unit, u, (), san) for u in units]
            hs = [pool.submit(self.native_unit, os.path.join(HAR, name + ".cpp"), tuple(extra), san, dep),
                  pool.submit(self.native_unit, os.path.join(ENG, "replay.cpp"), (), san)]
            o = [f.result() for f in hs + fs]
        exe = os.path.join(self.odir, "n-%s-%s" % (name, hashlib.sha256("|".join(o).encode()).hexdigest()[:16]))
        return once(exe, lambda x: sh(["clang++-18", "-Wl,--allow-multiple-definition"] + (["-fsanitize=address"] if san else []) + ["-o", x] + o + LIBS))

    def prune(self, keep=600):
        fs = sorted(glob.glob(self.odir + "/*"), key=os.path.getmtime)
        for f in fs[:-keep]:
            try:
                os.unlink(f)
            except OSError:
                pass
        ds = sorted(glob.glob(CACHE + "/e-*"), key=os.path.getmtime)
        for d in ds[:-3]:
            shutil.rmtree(d, ignore_errors=True)


def run_exe(exe, out, budget_s, workers=None, maxviol=6, env=None):
    e = dict(os.environ)
    e.update({"SX_OUT": out, "SX_WORKERS": str(workers or NJ), "SX_BUDGET_MS": str(int(budget_s * 1000)), "SX_MAXVIOL": str(maxviol)})
    if env:
        e.update(env)
    if os.path.exists(out):
        os.unlink(out)
    log = out + ".log"
    with open(log, "wb") as lf:
        try:
            p = subprocess.run([exe], env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=budget_s + 120, cwd=os.path.dirname(out))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    if not os.path.exists(out):
        tail = open(log, "rb").read()[-3000:].decode("utf8", "replace")
        raise BuildError("harness %s gave no report (rc %s)\n%s" % (exe, rc, tail))
    with open(out) as f:
        return json.load(f)


def functions_of(exe, pcs):
    """names of the functions in which symbolic branches were decided"""
    txt = sh(["nm", "-n", "--defined-only", exe])
    syms = []
    for l in txt.splitlines():
        p = l.split()
        if len(p) == 3 and p[1] in "tTwWvVuU":
            syms.append((int(p[0], 16), p[2]))
    import bisect
    addrs = [s[0] for s in syms]
    names = set()
    for pc in pcs:
        i = bisect.bisect_right(addrs, pc - 1) - 1
        if i >= 0:
            names.add(syms[i][1])
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(sorted(names)).encode(), stdout=subprocess.PIPE)
    out = []
    for n in p.stdout.decode("utf8", "replace").splitlines():
        if len(n) > 160:
            n = n[:157] + "..."
        out.append(n)
    return sorted(set(out))
