"""One function per property: what is built, what is run, what is judged."""
import concurrent.futures as cf
import os
import sys
import common, machines
from common import Tree, base_env, hw_dir, run_one, NoVerdict, log, SAN_ENV

CHECKS = {}
SHAPES = ("random and block-snapped M,N,K (multiples of the plan's own blocks, +-1, +-register tile; degenerate and very long shapes), p, schedule, "
          "cache sizes and core count")


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def product(c, mode, n, maxd=420, cores=(4,), minimum=50, **tree):
    c.rule = (SHAPES + "; the result judged elementwise, bitwise on integer data and within the summation bound on real data; a case counts by "
              "its class: entry, schedule, p, block counts and remainders per dimension, register tile, user tiling")
    for i, nc in enumerate(cores):
        t = Tree("stage%d" % nc, cores=nc, **tree)
        exe = t.driver("drv_product.cpp")
        c.run(exe, ["--mode", mode, "--n", str(n), "--maxd", str(maxd)], base_env(t.hw), shards=8, seed=c.seed + i * 1000)
        if i == 0:
            huge(c, t, mode)
    return c.finish(min_eval=minimum)


def huge(c, t, mode, n=9, **kw):
    """Operands of gigabytes; few at a time, for their memory."""
    args = ["--mode", mode, "--n", str(n * c.n(1, 3))]
    for k, v in dict(kw, deep=int(c.thorough)).items():
        args += ["--" + k, str(v)]
    c.run(t.driver("drv_huge.cpp"), args, base_env(t.hw), shards=1 if c.thorough else 3, timeout=c.n(420, 3000))


@check("P01")
def p01(c):
    return product(c, "sgemm", c.n(2400, 40000), c.n(420, 700))


@check("P02")
def p02(c):
    return product(c, "online", c.n(2400, 40000), c.n(420, 700))


@check("P03")
def p03(c):
    return product(c, "2d", c.n(1600, 20000), c.n(420, 700), cores=c.n((4, 16), (4, 1, 6, 16, 24, 64)))


@check("P04")
def p04(c):
    c.rule = (SHAPES + ", every register tile the generator makes (the default set and a larger one), user tile sizes; judged elementwise, bitwise on "
              "integer data; a case counts by entry, schedule, p, block structure, register tile, user tiling")
    t = Tree("stage", cores=4)
    c.run(t.driver("drv_product.cpp"), ["--mode", "tiles", "--n", str(c.n(2400, 40000))], base_env(t.hw), shards=8)
    c.run(t.driver("drv_product.cpp"), ["--mode", "2d_small", "--n", str(c.n(800, 8000))], base_env(t.hw), shards=8)
    t = Tree("wide", cores=4, tiles=(12, 48))
    c.run(t.driver("drv_product.cpp"), ["--mode", "tiles", "--n", str(c.n(1600, 20000))], base_env(t.hw), shards=8, seed=c.seed + 50)
    return c.finish(min_eval=100)


@check("P05")
def p05(c):
    c.rule = (SHAPES + ", alpha and beta from {0, 1, -1, fractions, powers of two, NaN/Inf in C under beta 0}; judged elementwise against "
              "alpha*A*B + beta*C; a case counts by entry, block structure, alpha and beta")
    t = Tree()
    c.run(t.driver("drv_scale.cpp"), ["--n", str(c.n(2400, 40000))], base_env(t.hw), shards=8)
    huge(c, t, "sgemm", n=1, which="C", beta=1)
    huge(c, t, "2d", n=1, which="C", beta=1)
    return c.finish(min_eval=100)


@check("P06")
def p06(c):
    c.rule = ("operands packed through the packing interface and passed in every combination of packed and unpacked, reused over calls and schedules; "
              "bits compared with the unpacked call, packed buffers in read-only pages; a case counts by block structure and combination")
    t = Tree()
    c.run(t.driver("drv_packed.cpp"), ["--mode", "use", "--n", str(c.n(2000, 30000))], base_env(t.hw), shards=8)
    return c.finish(min_eval=100)


@check("P07")
def p07(c):
    c.rule = ("every driver of the dense interface under AddressSanitizer and UndefinedBehaviorSanitizer, operands flush against inaccessible pages on "
              "either side; a case counts by entry, schedule, block structure, register tile")
    t = Tree()
    n = c.n(1, 12)
    jobs = [("drv_product.cpp", "product", ["--mode", "sgemm", "--n", str(400 * n)]), ("drv_product.cpp", "product", ["--mode", "online", "--n", str(300 * n)]),
            ("drv_product.cpp", "product", ["--mode", "2d", "--n", str(300 * n)]), ("drv_product.cpp", "product", ["--mode", "tiles", "--n", str(500 * n)]),
            ("drv_product.cpp", "product", ["--mode", "long", "--n", str(400 * n)]),
            ("drv_scale.cpp", "scale", ["--n", str(240 * n)]), ("drv_packed.cpp", "packed", ["--mode", "use", "--n", str(240 * n)]),
            ("drv_packed.cpp", "packed", ["--mode", "layout", "--n", str(240 * n)]), ("drv_frame.cpp", "frame", ["--n", str(160 * n)]),
            ("drv_kernels.cpp", "kernels", ["--mode", "dense", "--n", str(600 * n)]), ("drv_kernels.cpp", "kernels", ["--mode", "pack", "--n", str(400 * n)]),
            ("drv_transpose.cpp", "transpose", ["--n", str(600 * n)]), ("drv_checker.cpp", "checker", ["--n", str(400 * n)]),
            ("drv_plan.cpp", "plan", ["--n", str(1500 * n)]), ("drv_history.cpp", "history", ["--n", str(24 * n)])]
    t.compile("asan")
    with cf.ThreadPoolExecutor(8) as ex:
        exes = dict(zip([j[1] for j in jobs], ex.map(lambda j: t.driver(j[0], "asan", name="a_%s_%d" % (j[1], jobs.index(j))), jobs)))
    for src, name, args in jobs:
        r = c.run(exes[name], args, base_env(t.hw), shards=8)
        c.notes.setdefault("cases_per_driver", {})[name + " " + " ".join(args[:2])] = r.stats.get("cases", 0)
    t16 = Tree("grid16", cores=16)
    c.run(t16.driver("drv_product.cpp", "asan"), ["--mode", "2d", "--n", str(240 * n)], base_env(t16.hw), shards=8, seed=c.seed + 9)
    c.run(t.driver("drv_huge.cpp"), ["--mode", "beyond", "--n", "8"], base_env(t.hw), shards=4)
    return c.finish(min_eval=200)


@check("P08")
def p08(c):
    c.rule = (SHAPES + "; operands in read-only pages, canaries beside C, context and floating-point control compared before and after, C filled with "
              "different garbage in two calls; a case counts by entry and block structure")
    t = Tree()
    c.run(t.driver("drv_frame.cpp"), ["--n", str(c.n(1600, 24000))], base_env(t.hw), shards=8)
    return c.finish(min_eval=100)


@check("P09")
def p09(c):
    c.rule = ("entry points, schedules, packing and the parallel helpers run on teams of real threads over an OpenMP stand-in whose fork and join are the "
              "only ordering ThreadSanitizer sees; random delays and team sizes; a case counts by entry, schedule and block structure")
    t = Tree()
    t.compile("tsan")
    c.run(t.shim_driver("drv_race.cpp", "tsan"), ["--mode", "race", "--n", str(c.n(500, 6000)), "--maxd", str(c.n(120, 200))], base_env(t.hw), shards=8)
    c.run(t.shim_driver("drv_transpose.cpp", "tsan"), ["--n", str(c.n(500, 4000))], base_env(t.hw), shards=8)
    return c.finish(min_eval=100)


@check("P10")
def p10(c):
    c.rule = ("each case run with its tasks serialised in ascending, descending and random order, on smaller teams and on free-running delayed threads, and "
              "repeated on the real runtime; bits compared; a case counts by entry, schedule and block structure")
    t = Tree()
    c.run(t.shim_driver("drv_race.cpp"), ["--mode", "order", "--n", str(c.n(700, 9000))], base_env(t.hw), shards=8)
    exe = t.driver("drv_uninit.cpp")
    runs = [c.run(exe, ["--n", str(c.n(800, 8000))], base_env(t.hw, **e), shards=s)
            for s, e in ((8, {}), (2, {"OMP_WAIT_POLICY": "active", "OMP_PROC_BIND": "false"}), (8, {"OMP_THREAD_LIMIT": "2"}))]
    for i, r in enumerate(runs[1:]):
        compare(c, runs[0], r, "run-dependent", "run %d of the same call gave other bits" % (i + 2))
    return c.finish(min_eval=100)


def compare(c, a, b, key, what):
    for k in sorted(set(a.hashes) & set(b.hashes)):
        if a.hashes[k] != b.hashes[k]:
            c.res.add_viol(key, "case #%d: %s" % (k, what))
    c.res.stats["compared"] = c.res.stats.get("compared", 0) + len(set(a.hashes) & set(b.hashes))


@check("P11")
def p11(c):
    c.rule = ("2 to 6 caller threads released together, each making a sequence of calls on its own context and C over operands some of them share; bits "
              "compared with the same call made alone, once natively and once under ThreadSanitizer; a case counts by the mix of entries")
    t = Tree()
    c.run(t.driver("drv_conc.cpp"), ["--n", str(c.n(400, 5000))], base_env(t.hw), shards=4)
    t.compile("tsan")
    tsan = t.shim_driver("drv_conc.cpp", "tsan")
    c.run(tsan, ["--n", str(c.n(160, 1600))], base_env(t.hw), shards=8)
    for k in range(c.n(1, 12)):     # processes in which the concurrent calls are the first ones
        c.run(t.driver("drv_conc.cpp"), ["--n", "16", "--first", "1"], base_env(t.hw), shards=16, seed=c.seed + 1000 * k)
        c.run(tsan, ["--n", "16", "--first", "1"], base_env(t.hw), shards=16, seed=c.seed + 500 + 1000 * k)
    return c.finish(min_eval=100)


@check("P12")
def p12(c):
    c.rule = ("random sequences of calls (entries, schedules, tile switches, packed calls, helpers) on one context in one process, each compared bit for bit "
              "with the same call alone in a fresh process; a case counts by the pairs of consecutive operations")
    t = Tree()
    c.run(t.driver("drv_history.cpp"), ["--n", str(c.n(320, 4000))], base_env(t.hw), shards=8)
    return c.finish(min_eval=100)


@check("P13")
def p13(c):
    c.rule = ("each kind of call repeated until it settles: live heap blocks and bytes, file descriptors, child processes and threads counted before and "
              "after; a case counts by call kind and block structure")
    t = Tree()
    extra = t.extra_obj("alloc_mon.cpp")
    exe = t.driver("drv_resource.cpp", link_extra=[extra])
    c.run(exe, ["--mode", "leak", "--n", str(c.n(1200, 12000))], base_env(t.hw), shards=8, timeout=800)
    # queries on machines whose tools fail, say nothing, or lack levels
    d, _ = machines.machine(0, c.seed)
    odd = [dict(failing=True), dict(silent=True), dict(l3=None), dict(nosocket=True, nocpuinfo=True), dict(l1=None, l2=None)]
    for i, o in enumerate(odd):
        hw = machines.make(dict(d, i=9000 + i, failing=False, silent=False, nosocket=False, nocpuinfo=False) | o)
        c.run(exe, ["--mode", "query", "--n", str(c.n(6, 60))], base_env(hw), shards=2)
    return c.finish(min_eval=100)


@check("P14")
def p14(c):
    c.rule = ("each case run in builds whose automatic variables start as patterns and as zeros, over heaps and stacks left dirty in different ways, bits "
              "compared; and under memcheck, which tracks definedness bit by bit up to the result; a case counts by entry and block structure")
    t = Tree()
    n = str(c.n(1200, 15000))
    runs = []
    for var, dirty, perturb in (("pat", 1, 85), ("zero", 2, 170), ("plain", 1, 0), ("plain", 2, 254)):
        exe = t.driver("drv_uninit.cpp", var)
        runs.append(c.run(exe, ["--n", n, "--dirty", str(dirty)], base_env(t.hw, MALLOC_PERTURB_=perturb), shards=8))
    compare(c, runs[0], runs[1], "depends-on-garbage", "differs between locals that start as patterns and as zeros")
    compare(c, runs[2], runs[3], "depends-on-garbage", "differs with what the heap and stack held before")
    exe = t.driver("drv_uninit.cpp", "dbg", drv_flags=["-DHAVE_MEMCHECK"])
    r = c.run("/usr/bin/valgrind", ["-q", exe, "--n", str(c.n(240, 3000)), "--maxd", "70"], base_env(t.hw), shards=8, timeout=800)
    c.notes["memcheck_cases"] = r.stats.get("judged", 0)
    return c.finish(min_eval=100)


@check("P15")
def p15(c):
    c.rule = (SHAPES + ", NaN, infinities and subnormals planted in a few rows and columns; every element's class and the bits of the untouched ones "
              "compared; a case counts by entry, block structure and kind of value")
    t = Tree()
    c.run(t.driver("drv_ieee.cpp"), ["--n", str(c.n(2000, 30000))], base_env(t.hw), shards=8)
    return c.finish(min_eval=100)


@check("P16")
def p16(c):
    c.rule = ("block plans of random problems (up to a million per dimension) on random machines, every invariant of a plan evaluated; a case counts by "
              "schedule, block counts, remainders, register tile")
    n = str(c.n(40000, 1500000))
    for nc in c.n((4, 16), (4, 1, 6, 16, 64)):
        t = Tree("stage%d" % nc, cores=nc)
        c.run(t.driver("drv_plan.cpp"), ["--n", n], base_env(t.hw), shards=8, seed=c.seed + nc)
    return c.finish(min_eval=1000)


@check("P17")
def p17(c):
    c.rule = ("peak live heap of each call, measured at every allocation, against the bound its schedule implies; a case counts by entry, schedule and shape")
    t = Tree()
    extra = t.extra_obj("alloc_mon.cpp")
    c.run(t.driver("drv_resource.cpp", link_extra=[extra]), ["--mode", "workspace", "--n", str(c.n(1200, 12000))], base_env(t.hw), shards=8, timeout=800)
    return c.finish(min_eval=100)


@check("P18")
def p18(c):
    c.rule = ("machines played by stand-ins for the system's tools: cache sizes in every unit, missing levels, sockets and threads per core, silent and "
              "failing tools, callers without input or output, that ignore or block signals, hold many files or set a locale, environments with a decimal comma and translated tools; what the library says compared with what the machine is; a case counts by the machine")
    t = Tree()
    exes = [t.driver("drv_query.cpp"), t.driver("drv_query.cpp", "asan")]
    loc = machines.comma_locale()

    def one(i):
        d, want = machines.machine(i, c.seed)
        path = machines.make(d)
        exe = exes[1] if i % 4 == 0 else exes[0]
        env = dict(SAN_ENV, **base_env(path, MALLOC_PERTURB_=(i * 37) % 255, LOCPATH=loc))
        env.update(d["loc"])
        caller = i // 3 % 7
        r, done, rc, err, case, timed = run_one(exe, [str(caller)], env, 120, str(i))
        what = "machine %r, caller %d" % (d, caller)
        if not done or rc:
            r.add_viol("hang" if timed else common.classify_crash(rc, err), "%s: %s" % (what, common.brief(err)))
        else:
            got = tuple(int(v) for v in r.samples[0].split()[:4])
            if got != want:
                r.add_viol("query-wrong", "%s: L1, L2, L3, cores are %r, expected %r" % (what, got, want))
            r.samples = [what + " -> %r" % (got,)] if i % 40 == 0 else []
        r.viol = [(k, dd if what in dd else what + ": " + dd, rp) for k, dd, rp in r.viol]
        r.stats["judged"] = 1
        key = (d["l1"] or "-", d["l2"] or "-", d["l3"] or "-", d["cps"], d["thr"], d["socks"], d["style"], d["silent"], d["failing"], ".".join(d["loc"]), caller)
        r.classes = {"/".join(str(k) for k in key): 1}
        return r
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, range(c.n(240, 3000))):
            c.res.merge(r)
    return c.finish(min_eval=100)


def kernels(c, t, modes, n, san=True, seed=0):
    for var in ("plain", "asan0" if t.arm else "asan") if san else ("plain",):
        exe = t.driver("drv_kernels.cpp", var)
        for m in modes:
            c.run(exe, ["--mode", m, "--n", str(n if var == "plain" else n // 3)], base_env(t.hw), shards=8, seed=c.seed + seed)


@check("P19")
def p19(c):
    c.rule = ("every micro-kernel of the generated set and of a larger one, x86 and (over a NEON stand-in) armv8, for k from 0 on, panels flush against "
              "inaccessible pages; tiles judged elementwise; a case counts by kernel, k and kind of data")
    n = c.n(4000, 60000)
    kernels(c, Tree("stage"), ("dense",), n)
    kernels(c, Tree("wide", tiles=(14, 64)), ("dense",), n, san=False, seed=1)
    kernels(c, Tree("arm", arm=True), ("dense",), n, seed=2)
    if c.thorough:
        kernels(c, Tree("armwide", arm=True, tiles=(14, 36)), ("dense",), n, seed=3)
    return c.finish(min_eval=1000)


@check("P20")
def p20(c):
    c.rule = ("packing of random operands under every schedule: each element of the operand exactly once at the place the plan gives it, padding zero, "
              "nothing outside the announced size; and the panel kernels and the block routines by themselves; a case counts by block structure")
    t = Tree()
    c.run(t.driver("drv_packed.cpp"), ["--mode", "layout", "--n", str(c.n(2000, 30000))], base_env(t.hw), shards=8)
    kernels(c, t, ("pack",), c.n(2000, 30000), san=False)
    kernels(c, t, ("blocks",), c.n(4000, 60000), seed=1)
    return c.finish(min_eval=1000)


@check("P21")
def p21(c):
    c.rule = ("the generated sparse kernels, x86 and (over a NEON stand-in) armv8, on random sparse tiles: densities, empty columns, column orders, k from 0 "
              "on, every array flush against an inaccessible page; a case counts by kernel, k, empty columns, density, kind of data")
    n = c.n(6000, 100000)
    jobs = [(Tree("x86"), (10, 48), "plain"), (Tree("arm", arm=True), (12, 36), "plain")]
    jobs += [(jobs[0][0], (20, 32), "plain"), (jobs[1][0], (20, 24), "plain")]
    jobs += [(jobs[0][0], (8, 32), "asan"), (jobs[1][0], (8, 24), "asan")]
    if c.thorough:
        jobs += [(jobs[0][0], (14, 64), "plain"), (jobs[0][0], (40, 32), "plain")]
    with cf.ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda j: j[0].sparse_driver(j[1], j[2]), jobs))
    for i, (j, exe) in enumerate(zip(jobs, exes)):
        c.run(exe, ["--n", str(n)], base_env(j[0].hw), shards=8, seed=c.seed + i)
    return c.finish(min_eval=1000)


@check("P22")
def p22(c):
    c.rule = ("the BLIS packing kernels by themselves (x86 assembly, armv8 over a NEON stand-in) for k from 0 on and any strides, and the product of builds "
              "configured to pack with them; a case counts by kernel, k and strides, or by block structure")
    n = c.n(3000, 40000)
    t = Tree("own")
    c.run(t.driver("drv_blis.cpp"), ["--mode", "test", "--n", str(n // 3)], base_env(t.hw), shards=8, seed=c.seed + 5)
    t = Tree("blis", redefine={"-DUSE_CAKE_PACK": "-DUSE_BLIS_HASWELL_PACK"})
    kernels(c, t, ("blis",), n, san=False)
    c.run(t.driver("drv_blis.cpp"), ["--n", str(n // 4)], base_env(t.hw), shards=8)
    t = Tree("armblis", arm=True, redefine={"-DBLIS_ARMV8_PACK": "-DUSE_BLIS_ARMV8_PACK"})
    kernels(c, t, ("blis",), n, seed=1)
    c.run(t.driver("drv_blis.cpp"), ["--n", str(n // 4)], base_env(t.hw), shards=8)
    return c.finish(min_eval=1000)


@check("P23")
def p23(c):
    c.rule = ("transposition of random shapes with random tile sizes and team sizes, every element compared, canaries and gaps checked, under sanitizers; a "
              "case counts by shape, tile size and team size modulo the register block")
    t = Tree()
    c.run(t.driver("drv_transpose.cpp"), ["--n", str(c.n(8000, 150000))], base_env(t.hw), shards=8)
    c.run(t.driver("drv_transpose.cpp", "asan"), ["--n", str(c.n(4000, 50000))], base_env(t.hw), shards=8, seed=c.seed + 1)
    return c.finish(min_eval=1000)


@check("P24")
def p24(c):
    c.rule = ("every entry point called from inside parallel regions, small-stack threads, signal storms and after the caller's own runtime settings, "
              "under OMP_* environments that limit, nest, bind or vary the team; a case counts by surroundings, entry and block structure")
    t = Tree()
    exe = t.driver("drv_env.cpp")
    envs = [{}, {"OMP_THREAD_LIMIT": 1}, {"OMP_THREAD_LIMIT": 3, "OMP_DYNAMIC": "true"}, {"OMP_NESTED": "true", "OMP_MAX_ACTIVE_LEVELS": 4},
            {"OMP_NUM_THREADS": "3,2"}, {"OMP_SCHEDULE": "dynamic,1", "OMP_WAIT_POLICY": "active"}, {"OMP_STACKSIZE": "128K", "OMP_DISPLAY_ENV": "false"}]
    for i, e in enumerate(envs):
        c.run(exe, ["--n", str(c.n(384, 4000))], base_env(t.hw, **e), shards=8, seed=c.seed + i)
    c.notes["environments"] = len(envs)
    return c.finish(min_eval=100)


@check("P25")
def p25(c):
    c.rule = ("right results, right results with rounding noise, and results wrong in one place, everywhere, or with NaN and infinities, shown to each of the "
              "library's judges; a case counts by judge, kind of error, shape and place")
    t = Tree()
    c.run(t.driver("drv_checker.cpp"), ["--n", str(c.n(8000, 120000))], base_env(t.hw), shards=8)
    return c.finish(min_eval=1000)


@check("P26")
def p26(c):
    c.rule = ("calls on a clock that the monitor owns and moves at every reading, across second boundaries too; the time reported must lie between two "
              "readings of the call; a case counts by entry, schedule, step size and seconds crossed")
    t = Tree()
    c.run(t.driver("drv_clock.cpp"), ["--n", str(c.n(3000, 40000))], base_env(t.hw), shards=8)
    return c.finish(min_eval=100)


@check("P27")
def p27(c):
    n = c.n(700, 10000)
    c.rule = (SHAPES + " on the library as configured for armv8, its NEON instructions played by a scalar stand-in; judged elementwise, bitwise on integer "
              "data; a case counts by entry, schedule, p, block structure, register tile, user tiling")
    for nc in (4, 16):
        t = Tree("arm%d" % nc, cores=nc, arm=True)
        exe = t.driver("drv_product.cpp")
        for i, mode in enumerate(("sgemm", "online", "2d", "tiles") if nc == 4 else ("2d",)):
            c.run(exe, ["--mode", mode, "--n", str(n), "--maxd", "300"], base_env(t.hw), shards=8, seed=c.seed + i)
        if nc == 4:
            c.run(t.driver("drv_product.cpp", "asan0"), ["--mode", "tiles", "--n", str(n // 2), "--maxd", "160"], base_env(t.hw), shards=8, seed=c.seed + 7)
            c.run(t.driver("drv_scale.cpp"), ["--n", str(n // 2)], base_env(t.hw), shards=8)
            c.run(t.driver("drv_packed.cpp"), ["--mode", "use", "--n", str(n // 2)], base_env(t.hw), shards=8)
    return c.finish(min_eval=100)


def linear_driver(t, src, var, **kw):
    inc = "-I" + os.path.join(common.HARNESS, "torch")
    objs = t.compile(var)
    o = os.path.join(t.dir, "linear_%s.o" % var)
    common.sh(["g++"] + common.BASE + common.MARCH + common.VARIANTS[var][1] + t.defs + ["-std=c++17", inc, "-I" + os.path.join(t.dir, "include"), "-c",
               os.path.join(t.dir, "src", "linear.cpp"), "-o", o], what="compile")
    return t.driver(src, var, objs=objs + [o], drv_flags=["-std=c++17", inc] + kw.pop("drv_flags", []), **kw)


@check("P28")
def p28(c):
    c.rule = ("forward and backward passes of the bound linear layer, over a stand-in for the tensor library, on random shapes, strided operands, with and "
              "without bias, natively and under sanitizers; outputs and gradients judged exactly; a case counts by pass, shape, bias and strides")
    t = Tree()
    for i, var in enumerate(("plain", "asan")):
        exe = linear_driver(t, "drv_linear.cpp", var, drv_flags=[] if i else ["-DALLOC_MON"], link_extra=[] if i else [t.extra_obj("alloc_mon.cpp")])
        c.run(exe, ["--n", str(c.n(1200, 20000) // (1 + 2 * i))], base_env(t.hw), shards=8, seed=c.seed + i)
    return c.finish(min_eval=100)


@check("P29")
def p29(c):
    c.rule = (SHAPES + "; every access of the library counted by compiler instrumentation: reads per element of A and B, writes and reads per element of C, "
              "against what the schedule's walk over the blocks allows; a case counts by entry, schedule and block structure")
    t = Tree()
    c.run(t.trace_driver("drv_traffic.cpp"), ["--mode", "traffic", "--n", str(c.n(2400, 30000))], base_env(t.hw), shards=8)
    t = Tree("grid16", cores=16)
    c.run(t.trace_driver("drv_traffic.cpp"), ["--mode", "traffic", "--n", str(c.n(800, 8000))], base_env(t.hw), shards=8, seed=c.seed + 1)
    return c.finish(min_eval=100)


@check("P30")
def p30(c):
    c.rule = ("regular problems of many blocks per thread on teams of 4 to 8; accesses per thread counted by compiler instrumentation, separately for reads of "
              "A, of B, writes of C and accesses to panels; a case counts by entry, schedule, team and core grid")
    t = Tree()
    c.run(t.trace_driver("drv_traffic.cpp"), ["--mode", "share", "--n", str(c.n(320, 4000))], base_env(t.hw, GOMP_SPINCOUNT="2000"), shards=3, timeout=800)
    return c.finish(min_eval=100)


@check("P31")
def p31(c):
    c.rule = ("every allocation or subprocess of a call made to fail in turn, each in a process of its own, for products on all entries and schedules, packed "
              "products, machine queries, planning, checkers and the linear layer's passes; how the process ends, or the result it goes on to, is judged; "
              "a case counts by operation, kind of fault, entry, schedule, p and number of places a fault can strike")
    t = Tree()
    c.run(t.driver("drv_faults.cpp"), ["--n", str(c.n(960, 12000))], base_env(t.hw), shards=8)
    exe = linear_driver(t, "drv_faults.cpp", "plain", drv_flags=["-DWITH_LINEAR"])
    c.run(exe, ["--n", str(c.n(64, 800))], base_env(t.hw), shards=8, seed=c.seed + 1)
    return c.finish(min_eval=100)


@check("P32")
def p32(c):
    c.rule = ("matrices of random shape filled by the helpers between guard pages, under repeated and changed seeds, judged element by element and, from 20000 "
              "elements on, by mean, variance and middle share; matrices printed and read back; a case counts by helper and magnitude of the shape")
    t = Tree()
    c.run(t.driver("drv_helpers.cpp"), ["--n", str(c.n(2400, 40000))], base_env(t.hw), shards=8)
    c.run(t.driver("drv_helpers.cpp", "asan"), ["--n", str(c.n(400, 4000))], base_env(t.hw), shards=8, seed=c.seed + 1)
    return c.finish(min_eval=100)


@check("P33")
def p33(c):
    c.rule = ("the self-test run over stand-ins for the entry points and the checker, on machines of 2 to 7 cores, with no, one, some and all products "
              "wrong: operands, teams, checks, reported failures and verdict judged; a case counts by cores and share of wrong products")
    t = Tree()
    so = os.path.join(t.dir, "libself.so")
    common.sh(["g++", "-shared", "-fopenmp", "-o", so] + t.compile("plain") + ["-lm"], what="link")
    exe = t.driver("drv_selftest.cpp", objs=[so], link_extra=["-Wl,-rpath," + t.dir])
    c.run(exe, ["--n", str(c.n(48, 400))], base_env(t.hw), shards=8)
    return c.finish(min_eval=6)


@check("P34")
def p34(c):
    c.rule = ("the Python linear module over a stand-in for the tensor library and the real C++ passes, on several machines: single passes, training steps, passes "
              "forward before those backward, chains, two modules in turn, strided operands and gradients, with and without bias; outputs, gradients, parameters and "
              "the caches passed on judged exactly; a case counts by use, shape, bias and way of making")
    t = Tree()
    inc = "-I" + os.path.join(common.HARNESS, "torch")
    so = os.path.join(t.dir, "liblinear.so")
    common.sh(["g++"] + common.BASE + common.MARCH + t.defs + ["-std=c++17", "-fPIC", "-shared", inc, "-I" + os.path.join(t.dir, "include"), "-o", so,
               os.path.join(t.dir, "src", "linear.cpp"), os.path.join(common.HARNESS, "pybridge.cpp")] + t.compile("plain") + ["-lm"], what="link")
    for k in range(c.n(5, 24)):
        d, want = machines.machine(c.seed * 100 + k if k else 1, c.seed)
        hw = machines.make(d)
        c.run(sys.executable, [os.path.join(common.HARNESS, "drv_pylayer.py"), "--src", common.REPO, "--n", str(c.n(120, 1000)), "--l2", str(want[1]), "--l3", str(want[2])],
              dict(base_env(hw), LINEAR_SO=so, **d["loc"]), shards=8, seed=c.seed + k)
    return c.finish(min_eval=100)


@check("P35")
def p35(c):
    c.rule = ("installations and kernel generation repeated in one tree on changing machines, x86 and armv8: the headers and the kernels must build, the kernel table "
              "hold every register tile asked for and each compute its tile, the grid table every grid of the last machine; the grid generator by itself for any "
              "number of cores; a case counts by sequence, or by number of cores")
    c.run(sys.executable, [os.path.join(common.HARNESS, "drv_install.py"), "--src", common.REPO, "--n", str(c.n(72, 700))], base_env(common.hw_dir("b4"), TMPDIR=common.scratch()), shards=8)
    return c.finish(min_eval=40)
