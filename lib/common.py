"""Build, run and report machinery shared by every check.

A check builds /repo's working tree in a scratch directory of its own (the project's
install step rewrites tracked files), one object set per sanitizer variant, links a
driver of /verif/harness against it, runs the driver in shards and judges what the
monitors in it reported. Exit status: 0 held, 1 violation, 2 no verdict.
"""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
NCPU = 8


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- scratch space

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="cakev.", dir=os.environ.get("TMPDIR", "/tmp"))
        atexit.register(shutil.rmtree, _scratch, True)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    return _scratch


# ---------------------------------------------------------------- fake hardware

LSCPU_ONE = "L1d       {l1}\nL1i       {l1}\nL2         {l2}\nL3         {l3}\n"


def hw_dir(name, cores=4, l1="32K", l2="1M", l3="8M", threads=1, sockets=1):
    """A directory with stand-ins for lscpu and for grep's count of processors."""
    d = os.path.join(scratch(), "hw_" + name)
    os.makedirs(d, exist_ok=True)
    body = f"""#!/bin/bash
case "$*" in
*ONE-SIZE*) printf 'NAME ONE-SIZE\\nL1d       {l1}\\nL1i       {l1}\\nL2         {l2}\\nL3         {l3}\\n' ;;
*ALL-SIZE*) printf 'NAME ALL-SIZE\\nL1d      {l1}\\nL1i      {l1}\\nL2         {l2}\\nL3         {l3}\\n' ;;
*) printf 'Architecture:        x86_64\\nCPU(s):              {cores}\\nModel name:          Generic CPU @ 2.50GHz\\nThread(s) per core:  {threads}\\nCore(s) per socket:  {cores}\\nSocket(s):           {sockets}\\n' ;;
esac
"""
    write_exec(os.path.join(d, "lscpu"), body)
    write_exec(os.path.join(d, "grep"), fake_grep(cores * threads * sockets))
    return d


def fake_grep(n):
    real = "/usr/bin/grep" if os.path.exists("/usr/bin/grep") else "/bin/grep"
    return f"""#!/bin/bash
[ "$*" = "-c ^processor /proc/cpuinfo" ] && {{ echo {n}; exit 0; }}
exec {real} "$@"
"""


def write_exec(path, text):
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, 0o755)


def base_env(hw, **extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "GOMP_", "ASAN_", "UBSAN_", "TSAN_", "LD_"))}
    env["PATH"] = hw + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.update(HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", OMP_WAIT_POLICY="passive",
               OMP_DYNAMIC="false", GOMP_SPINCOUNT="0")
    env.update({k: str(v) for k, v in extra.items()})
    return env


def sh(cmd, env=None, cwd=None, timeout=600, what="command"):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if r.returncode:
        raise NoVerdict(f"{what} failed ({r.returncode}): {' '.join(cmd) if isinstance(cmd, list) else cmd}\n{r.stdout[-4000:]}")
    return r.stdout


# ---------------------------------------------------------------- building /repo

VARIANTS = {
    # the flags of /repo's own build
    "plain": ("g++", ["-O2", "-mtune=haswell", "-g"], []),
    "asan": ("g++", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], []),
    # the same, for the armv8 configuration (its stand-in intrinsics take long to optimise)
    "asan0": ("g++", ["-O0", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], []),
    "tsan": ("g++", ["-O1", "-g", "-fsanitize=thread"], []),
    "pat": ("g++", ["-O2", "-g", "-ftrivial-auto-var-init=pattern"], []),
    "zero": ("g++", ["-O2", "-g", "-ftrivial-auto-var-init=zero"], []),
    "dbg": ("g++", ["-O1", "-g"], []),
    # every access calls back, to harness/trace.cpp and not to the sanitizer's runtime
    "trace": ("g++", ["-O1", "-g", "-fsanitize=thread"], []),
}
MARCH = ["-mavx", "-mfma"]
BASE = ["-w", "-fPIC", "-D_POSIX_C_SOURCE=200112L", "-fopenmp"]


class Tree:
    """/repo's working tree, staged and configured (kernels and grid generated)."""

    def __init__(self, name="stage", cores=4, hw=None, arm=False, tiles=None, redefine=None):
        """arm: configured as on aarch64 (uname stand-in), NEON played by harness/neon.
        tiles: (mr, nr) limits of the generated kernels. redefine: {-Dold: -Dnew}."""
        self.dir = os.path.join(scratch(), name)
        self.hw = hw or hw_dir("b%d" % cores, cores=cores)
        self.incs = []
        self.arm = arm
        if arm:
            self.hw = hw_dir("arm%d" % cores, cores=cores)
            write_exec(os.path.join(self.hw, "uname"), "#!/bin/bash\necho aarch64\n")
            self.incs = ["-I" + os.path.join(HARNESS, "neon")]
        os.makedirs(self.dir)
        for d in ("src", "include", "python", "examples"):
            if os.path.isdir(os.path.join(REPO, d)):
                shutil.copytree(os.path.join(REPO, d), os.path.join(self.dir, d), ignore=shutil.ignore_patterns("__pycache__", "*.o", "*.so"))
        for f in ("Makefile", "kernels.mk", "install.sh", "env.sh"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy2(os.path.join(REPO, f), self.dir)
        env = base_env(self.hw, CAKE_HOME=self.dir, BLIS_INSTALL_PATH=self.dir)
        sh(["bash", "-e", "./install.sh"], env=env, cwd=self.dir, what="install.sh")
        self.env = env
        if tiles:
            arch = "armv8" if arm else "haswell"
            sh(["python3", "python/kernel_gen.py", arch, str(tiles[0]), str(tiles[1]), "dense"], env=env, cwd=self.dir, what="kernel_gen")
            shutil.move(os.path.join(self.dir, "dense.cpp"), os.path.join(self.dir, "src", "kernels", arch, "dense.cpp"))
        self.sources, self.defs = self._sources()
        self.defs = [(redefine or {}).get(d, d) for d in self.defs]
        self.objs = {}

    def _sources(self):
        """The sources and defines of the two libraries, as the makefiles have them."""
        srcs, defs = [], []
        for mk in ("kernels.mk", "Makefile"):
            out = sh(["make", "-n", "-B", "-f", mk], env=self.env, cwd=self.dir, what="make -n")
            for line in out.replace("\\\n", " ").splitlines():
                if "g++" not in line:
                    continue
                for w in line.split():
                    if w.endswith(".cpp"):
                        p = w if os.path.isabs(w) else os.path.join(self.dir, w)
                        if p not in srcs:
                            srcs.append(p)
                    elif w.startswith("-D") and w not in defs and "POSIX" not in w:
                        defs.append(w)
        if len(srcs) < 5:
            raise NoVerdict("could not find the sources in the makefiles: %r" % srcs)
        return srcs, defs

    def compile(self, variant="plain", extra=(), tag="", sources=None, defs=None):
        key = variant + tag
        if key in self.objs:
            return self.objs[key]
        cc, vflags, _ = VARIANTS[variant]
        od = os.path.join(self.dir, "obj_" + key)
        os.makedirs(od)
        jobs = []
        for s in (sources or self.sources):
            o = os.path.join(od, re.sub(r"\W", "_", os.path.relpath(s, self.dir)) + ".o")
            jobs.append(([cc] + BASE + MARCH + vflags + list(extra) + (self.defs if defs is None else defs) +
                         ["-I" + os.path.join(self.dir, "include")] + self.incs + ["-c", s, "-o", o], o, os.path.getsize(s)))
        jobs.sort(key=lambda j: -j[2])
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda j: sh(j[0], what="compile"), jobs))
        self.objs[key] = [j[1] for j in jobs]
        return self.objs[key]

    def extra_obj(self, source, variant="plain"):
        """One of the harness's own support files (not the project's)."""
        o = os.path.join(self.dir, re.sub(r"\W", "_", source) + "_" + variant + ".o")
        if not os.path.exists(o):
            sh([VARIANTS[variant][0]] + BASE + VARIANTS[variant][1] + ["-c", os.path.join(HARNESS, source), "-o", o], what="compile")
        return o

    def sparse_driver(self, limits, variant="plain"):
        """The sparse kernels, generated for register tiles up to the limits."""
        arch = "armv8" if self.arm else "haswell"
        d = os.path.join(self.dir, "sparse_%d_%d" % limits)
        inc = os.path.join(d, "include")
        exe = os.path.join(d, "drv_sparse_" + variant)
        if not os.path.isdir(inc):
            os.makedirs(inc)
            sh(["python3", os.path.join(self.dir, "python", "kernel_gen.py"), arch, str(limits[0]), str(limits[1]), "sparse"], env=self.env, cwd=d, what="kernel_gen")
        flags = [VARIANTS[variant][0]] + BASE + MARCH + VARIANTS[variant][1] + self.incs + ["-I" + inc, "-I" + HARNESS, "-DUSE_ROSKO_" + arch.upper()]
        sh(flags + ["-c", os.path.join(d, "sparse.cpp"), "-o", exe + "_k.o"], what="compile")
        sh(flags + [os.path.join(HARNESS, "drv_sparse.cpp"), exe + "_k.o", "-o", exe, "-lpthread", "-lm"], what="link")
        return exe

    def shim_driver(self, source, variant="plain", **kw):
        """A driver over the OpenMP stand-in instead of libgomp."""
        return self.driver(source, variant, omp=False, link_extra=[self.extra_obj("gomp_shim.cpp", variant)], drv_flags=["-DWITH_SHIM"], **kw)

    def trace_driver(self, source):
        """A driver that sees every access the library makes (the driver's own are not)."""
        return self.driver(source, "dbg", objs=self.compile("trace"), tag="_trace",
                           link_extra=[self.extra_obj("trace.cpp", "dbg"), "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"])

    def driver(self, source, variant="plain", extra=(), tag="", libs=(), omp=True, objs=None, link_extra=(), drv_flags=(), name=None):
        """Compile and link a driver of /verif/harness against a variant's objects."""
        cc, vflags, _ = VARIANTS[variant]
        objs = self.compile(variant, extra=extra, tag=tag) if objs is None else objs
        exe = os.path.join(self.dir, (name or os.path.splitext(os.path.basename(source))[0]) + "_" + variant + tag)
        srcs = [source if os.path.isabs(source) else os.path.join(HARNESS, source)]
        cmd = [cc] + BASE + MARCH + vflags + list(drv_flags) + self.defs + ["-I" + os.path.join(self.dir, "include"), "-I" + HARNESS] + self.incs + srcs
        if omp:
            cmd += objs + list(link_extra) + ["-o", exe, "-lpthread", "-lm", "-ldl"] + list(libs)
            sh(cmd, what="link")
        else:   # OpenMP pragmas compiled, but the runtime is our own stand-in
            o = exe + ".o"
            sh(cmd + ["-c", "-o", o], what="compile")
            sh([cc] + vflags + [o] + objs + list(link_extra) + ["-o", exe, "-lpthread", "-lm", "-ldl"] + list(libs), what="link")
        return exe


# ---------------------------------------------------------------- running drivers

SAN_ENV = dict(ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_segv=1",
               UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1",
               TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0")


class Result:
    def __init__(self):
        self.viol = []        # (key, detail, replay)
        self.stats = {}
        self.classes = {}
        self.samples = []
        self.hashes = {}      # case -> hash of its result

    def merge(self, o):
        self.viol += o.viol
        for k, v in o.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in o.classes.items():
            self.classes[k] = self.classes.get(k, 0) + v
        self.samples += o.samples[:3]
        self.hashes.update(o.hashes)

    def add_viol(self, key, detail, replay=""):
        self.viol.append((key, detail, replay))


def classify_crash(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan-" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:50].strip("-")
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if m:
        return "tsan-" + m.group(1).strip().split(" (")[0].replace(" ", "-")
    if rc is not None and rc < 0:
        try:
            return "crash-" + signal.Signals(-rc).name
        except ValueError:
            return "crash-%d" % -rc
    return "exit-%s" % rc


_runs = [0]


def run_one(exe, args, env, timeout, tagname="", stall=None):
    """One driver process. Returns (Result, done, rc, stderr, last case, timed out)."""
    _runs[0] += 1
    prog = os.path.join(scratch(), f"progress.{_runs[0]}.{os.path.basename(exe)}.{abs(hash((exe, tuple(args), tagname))) % 10**9}")
    e = dict(env, VH_PROGRESS=prog)
    with tempfile.TemporaryFile(dir=scratch()) as fo, tempfile.TemporaryFile(dir=scratch()) as fe:
        p = subprocess.Popen([exe] + list(args), env=e, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                             cwd=scratch(), start_new_session=True)
        timed = False
        try:
            rc = await_end(p, prog, timeout, stall)
            timed = rc is None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        fo.seek(0)
        fe.seek(0)
        out = fo.read().decode(errors="replace")
        err = fe.read().decode(errors="replace")
    case = ""
    if os.path.exists(prog):
        with open(prog, "rb") as f:
            case = f.read().split(b"\0")[0].decode(errors="replace")
    r = Result()
    done = False
    replay = " ".join([os.path.basename(exe)] + list(args))
    for line in out.splitlines():
        if line.startswith("V "):
            key, _, detail = line[2:].partition("\t")
            r.add_viol(key, detail, replay)
        elif line.startswith("C "):
            r.classes[line[2:]] = r.classes.get(line[2:], 0) + 1
        elif line.startswith("S "):
            _, k, v = line.split(" ", 2)
            r.stats[k] = r.stats.get(k, 0) + int(float(v))
        elif line.startswith("H "):
            _, k, v = line.split(" ", 2)
            r.hashes[int(k)] = v
        elif line.startswith("X "):
            r.samples.append(line[2:])
        elif line == "DONE":
            done = True
    return r, done, rc, err, case, timed


def await_end(p, prog, timeout, stall):
    """The exit status; None after timeout seconds, or stall seconds spent on one case."""
    t0 = since = time.time()
    last = None
    while True:
        try:
            return p.wait(2 if stall else timeout)
        except subprocess.TimeoutExpired:
            now = time.time()
            if now - t0 >= timeout: return None
            if stall:
                try:
                    with open(prog, "rb") as f: at = f.read(4096)
                except OSError: at = None
                if at != last or not at: last, since = at, now
                elif now - since >= stall: return None


def run_driver(exe, args, env, timeout=420, crash_ok=False, shards=1, seed=1, hang_key="hang", stall=None):
    """Run a driver in shards; crashes and hangs become violations of the case under way."""
    def shard(i):
        a = list(args) + ["--seed", str(seed), "--shard", f"{i}/{shards}"]
        r, done, rc, err, case, timed = run_one(exe, a, env, timeout, str(i), stall)
        if timed:   # inconclusive: once more before calling it a hang
            r, done, rc, err, case, timed = run_one(exe, a, env, timeout, str(i) + "again", stall)
            if timed:
                r.add_viol(hang_key, f"no progress within {stall or timeout} s, twice [case {case}]", " ".join([os.path.basename(exe)] + a))
                return r
        if not done or (rc != 0 and rc is not None):
            if rc in (-signal.SIGKILL, -signal.SIGTERM):
                raise NoVerdict(f"{os.path.basename(exe)} was killed from outside (case {case})")
            if rc == 3:
                raise NoVerdict(f"{os.path.basename(exe)}: harness failure: {err[-500:]}")
            key = classify_crash(rc, err)
            r.add_viol(key, f"[case {case}] " + brief(err), " ".join([os.path.basename(exe)] + a) + "\n" + err[-6000:])
        return r
    total = Result()
    with ThreadPoolExecutor(shards) as ex:
        for r in ex.map(shard, range(shards)):
            total.merge(r)
    return total


def brief(err):
    keep = [l.strip() for l in err.splitlines() if re.search(r"ERROR: |runtime error|WARNING: ThreadSan|SUMMARY|#\d+ 0x", l)]
    return " | ".join(keep[:6])[:700]


# ---------------------------------------------------------------- verdict

def load_known():
    """known: property=<id> key=<key> [match=<regex>] <what>"""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(?:match=(\S+)\s+)?(.*)", line)
            if m:
                known.append((m.group(1), m.group(2), m.group(3), m.group(4).strip()))
    return known


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.res = Result()
        self.notes = {}
        self.assumptions = []
        self.rule = ""
        self.thorough = tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def run(self, exe, args, env, **kw):
        kw.setdefault("seed", self.seed)
        kw.setdefault("stall", None if self.thorough else 180)
        if any(k == "hang" for k, _, _ in self.res.viol): return Result()     # decided, and the rest would only hang too
        env = dict(SAN_ENV, **env)
        r = run_driver(exe, args, env, **kw)
        self.res.merge(r)
        return r

    def finish(self, evaluations="judged", min_eval=1):
        """Write the evidence, print the verdict, return the exit status."""
        res = self.res
        known, new = [], []
        table = load_known()
        for key, detail, replay in res.viol:
            hit = next((k for k in table if k[0] == self.pid and k[1] == key and (not k[2] or re.search(k[2], detail))), None)
            (known if hit else new).append((key, detail, replay, hit))
        ev = res.stats.get(evaluations, 0)
        cov = {
            "evaluations": ev,
            "distinct_nontrivial": len(res.classes),
            "rule": self.rule,
            "samples": res.samples[:8],
            "counters": dict(sorted(res.stats.items())),
        }
        cov.update(self.notes)
        doc = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        for what in sorted({k[3][3] for k in known}):
            log(f"KNOWN-FINDING: property={self.pid} {what}")
        log(f"{self.pid} [{self.tier} seed={self.seed}] {json.dumps(dict(sorted(res.stats.items())))} classes={len(res.classes)} wall={doc['wall_s']}s")
        if new:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.pid}.txt")
            with open(path, "w") as f:
                f.write(f"property {self.pid} tier {self.tier} VERIF_SEED={self.seed}\n")
                f.write(f"re-run: VERIF_SEED={self.seed} python3 {VERIF}/check.py {self.pid} {self.tier}\n\n")
                for key, detail, replay, _ in new[:50]:
                    f.write(f"{key}: {detail}\n  driver: {replay}\n\n")
            seen = set()
            for key, detail, _, _ in new:
                if key not in seen and len(seen) < 5:
                    seen.add(key)
                    log(f"  {key}: {detail[:600]}")
            log(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if ev < min_eval or not res.classes:
            log(f"{self.pid}: no verdict, only {ev} evaluations and {len(res.classes)} classes were observed")
            return 2
        return 0
