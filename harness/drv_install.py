"""Installing, once or again, on one machine after another: the sources the generators leave must
build, the kernel table hold every register tile and the grid table every grid of the machine."""
import argparse
import os
import random
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import common      # noqa: E402
import machines    # noqa: E402

ap = argparse.ArgumentParser()
for o in ("--src", "--n", "--seed", "--shard"): ap.add_argument(o)
opt = ap.parse_args()
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
prog = open(os.environ["VH_PROGRESS"], "w+b", 0) if "VH_PROGRESS" in os.environ else None
cur, nviol, counts = "", 0, {}


def say(s): out.write(s + "\n"); out.flush()
def case(s):
    global cur
    cur = s
    if prog: prog.seek(0); prog.write(s.encode() + b"\0")
def viol(key, detail):
    global nviol
    nviol += 1
    if nviol <= 40: say("V %s\t%s [case %s]" % (key, re.sub(r"\s+", " ", detail)[:500], cur))
def count(k, n=1): counts[k] = counts.get(k, 0) + n


PROBE = r"""
#include "cake.h"
#include <cstdio>
int main() {
	printf("map %d %d min %d %d fact %d %d\n", (int) (sizeof kernel_map / sizeof kernel_map[0]), (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]), MR_MIN, NR_MIN, MR_FACT, NR_FACT);
	return 0;
}
"""
GRID = r"""
#include "tiling.h"
#include <cstdio>
int main() {
	int P = sizeof grid_dims[0] / sizeof grid_dims[0][0], R = sizeof grid_dims / sizeof grid_dims[0];
	printf("grid %d %d", R, P);
	for(int i = 0; i < R; i++) { printf(" "); for(int j = 0; j < P; j++) printf("%d", (int) grid_dims[i][j]); }
	printf("\n");
	return 0;
}
"""
KERNELS = r"""
#include "cake.h"
#include <cstdio>
#include <cstdlib>
int main() {
	int bad = 0, n = 0;
	for(int i = 0; i < (int) (sizeof kernel_map / sizeof kernel_map[0]); i++)
	for(int j = 0; j < (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]); j++)
	for(int k = 0; k < 12; k++) {
		int m = MR_MIN + i*MR_FACT, r = NR_MIN + j*NR_FACT;
		float *A, *B, *C;
		posix_memalign((void**) &A, 64, 4*(m*k + 16)); posix_memalign((void**) &B, 64, 4*(r*k + 16)); posix_memalign((void**) &C, 64, 4*m*r + 256);
		for(int q = 0; q < m*k; q++) A[q] = (q*7) % 11 - 5;
		for(int q = 0; q < r*k; q++) B[q] = (q*5) % 13 - 6;
		for(int q = 0; q < m*r + 64; q++) C[q] = q % 17;
		kernel_map[i][j](A, B, C, m, r, k);
		int wrong = 0;
		for(int a = 0; a < m; a++) for(int b = 0; b < r; b++) {
			float s = (a*r + b) % 17;
			for(int q = 0; q < k; q++) s += A[q*m + a]*B[q*r + b];
			wrong += C[a*r + b] != s;
		}
		for(int q = m*r; q < m*r + 64; q++) wrong += C[q] != q % 17;
		if(wrong) { bad++; printf("bad %dx%d k=%d\n", m, r, k); }
		n++;
		free(A); free(B); free(C);
	}
	printf("kernels %d bad %d\n", n, bad);
	return 0;
}
"""


def run(cmd, **kw): return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, **kw)
def cc(tree, arm): return ["g++"] + common.BASE + common.MARCH + (["-DUSE_CAKE_ARMV8", "-I" + os.path.join(HERE, "neon")] if arm else ["-DUSE_CAKE_HASWELL"]) + ["-DUSE_CAKE_PACK", "-I" + os.path.join(tree, "include")]


def built(tree, arm, text, name, objs=()):
    """Compile, link and run a program over the tree's headers: (ok, what it printed)."""
    src, exe = os.path.join(tree, name + ".cpp"), os.path.join(tree, name + ".exe")
    with open(src, "w") as f: f.write(text)
    r = run(cc(tree, arm) + ["-O1", src, *objs, "-o", exe])
    if r.returncode: return False, r.stdout
    return True, run([exe]).stdout


def judge_grid(tree, arm, cores, must):
    """The table, if there is one: row i says which sizes divide P - i; P the machine's cores."""
    ok, text = built(tree, arm, GRID, "grid")
    if not ok:
        if must: count("no-table")
        return
    f = text.split()
    R, P, rows = int(f[1]), int(f[2]), f[3:]
    count("grid-rows", R)
    if cores is not None and P != cores: viol("wrong-grid", "the grid table is for %d cores, the machine has %d" % (P, cores))
    for i, row in enumerate(rows):
        want = "".join("1" if (P - i) % (j + 1) == 0 else "0" for j in range(P))
        if row != want: viol("wrong-grid", "grids of %d cores: %s, expected %s" % (P - i, row, want)); break


def install(tree, hw, how, tiles, arm, loc):
    env = dict(common.base_env(hw, CAKE_HOME=tree, BLIS_INSTALL_PATH=tree), **loc)
    if how == "install": return run(["bash", "./install.sh"], env=env, cwd=tree)
    arch = "armv8" if arm else "haswell"
    r = run(["python3", "python/kernel_gen.py", arch, str(tiles[0]), str(tiles[1]), "dense"], env=env, cwd=tree)
    if r.returncode == 0: shutil.move(os.path.join(tree, "dense.cpp"), os.path.join(tree, "src", "kernels", arch, "dense.cpp"))
    return r


def one(idx, r):
    tree = os.path.join(common.scratch(), "t%d" % idx)
    os.makedirs(tree)
    for d in ("src", "include", "python"): shutil.copytree(os.path.join(opt.src, d), os.path.join(tree, d), ignore=shutil.ignore_patterns("__pycache__", "*.o", "*.so"))
    shutil.copy2(os.path.join(opt.src, "install.sh"), tree)
    if idx % 3 == 2:      # the grid generator by itself, for any number of cores
        P, alpha = r.choice([1, 2, 3, 4, 9, 16, 25, 36, 49, 64, r.randint(1, 90)]), r.choice([0.1, 0.5, 1.0, 0.01])
        case("#%d grids of %d cores, alpha %g" % (idx, P, alpha))
        q = run([sys.executable, "-c", "import sys; sys.path.insert(0, 'python'); import grid_gen; f = getattr(grid_gen, 'gen_factor_table', None); f or sys.exit(9); [f(p, %r) for p in %r]" % (alpha, [r.randint(1, 70), P] if r.random() < 0.5 else [P])], cwd=tree)
        if q.returncode == 0:
            run([sys.executable, "python/kernel_gen.py", "haswell", "6", "16", "dense"], cwd=tree)   # the headers want one
            judge_grid(tree, False, P, True)
            count("judged")
        elif q.returncode != 9: viol("generator-failed", "the grid generator failed: " + q.stdout[-300:])
        say("C grids/%g/%d" % (alpha, P))
        shutil.rmtree(tree)
        return
    arm = idx % 9 == 4
    steps = r.choice([1, 2, 2, 2, 3, 4])
    done, told, lim, ran = [], None, None, 0
    for s in range(steps):
        d, want = machines.machine(r.randrange(1 << 20), int(opt.seed))
        if r.random() < 0.4: d.update(socks=1, thr=r.choice([1, 2]), cps=r.choice([1, 2, 4, 9, 10]))
        d["i"] = idx * 10 + s
        hw = machines.make(d)
        loc = d["loc"]
        if arm: common.write_exec(os.path.join(hw, "uname"), "#!/bin/bash\necho aarch64\n")
        how = "install" if s == 0 or r.random() < 0.7 else "tiles"
        tiles = (r.choice([8, 10, 12, 9]), r.choice([12, 24, 36])) if arm else (r.choice([6, 8, 10, 12, 7]), r.choice([16, 32, 48, 31]))
        silent = d["silent"] or d["failing"] or d["nosocket"] or d["nocpuinfo"]
        done.append("%s(%s)" % (how, "%dx%d" % tiles if how == "tiles" else "mute" if silent else "%dx%dx%d" % (d["socks"], d["cps"], d["thr"])))
        case("#%d %s %s" % (idx, "armv8" if arm else "haswell", " then ".join(done)))
        q = install(tree, hw, how, tiles, arm, loc)
        if how == "tiles" and q.returncode: viol("generator-failed", "the kernel generator failed: " + q.stdout[-300:])
        if how == "tiles": lim = tiles
        else:
            lim = None
            if not silent: told, ran = d["cps"], ran + 1
            elif told is None or re.search("Traceback", q.stdout) is None: told = None
        count("steps")
    ok, text = built(tree, arm, PROBE, "probe")
    m = re.match(r"map (\d+) (\d+) min (\d+) (\d+) fact (\d+) (\d+)", text) if ok else None
    if not ok: viol("does-not-build", "the headers do not compile: " + text)
    elif not m: viol("no-kernels", "the kernel table could not be read: " + text)
    else:
        R, C, mm, nm, fm, fn = map(int, m.groups())
        if lim and not (mm + (R - 1) * fm <= lim[0] < mm + R * fm and nm + (C - 1) * fn <= lim[1] < nm + C * fn):
            viol("no-kernels", "kernels up to %dx%d asked for, the table has %dx%d of them from %dx%d in steps of %dx%d" % (lim + (R, C, mm, nm, fm, fn)))
        count("tiles", R * C)
        judge_grid(tree, arm, told, ran > 0)
        bad = None
        for s in ["src/block_sizing.cpp", "src/cake_sgemm.cpp"] if idx % 2 else []:
            q = run(cc(tree, arm) + ["-fsyntax-only", os.path.join(tree, s)])
            if q.returncode: bad = s + ": " + q.stdout
        if bad: viol("does-not-build", bad)
        dense = os.path.join(tree, "src", "kernels", "armv8" if arm else "haswell", "dense.cpp")
        q = run(cc(tree, arm) + ["-c", dense, "-o", tree + "/dense.o"])
        if q.returncode: viol("does-not-build", "the kernels: " + q.stdout)
        else:
            ok, text = built(tree, arm, KERNELS, "kernels", [tree + "/dense.o"])
            if not ok: viol("does-not-build", "linking the kernels: " + text)
            else:
                k = re.search(r"kernels (\d+) bad (\d+)", text)
                if not k: viol("wrong-kernel", "the kernels end the program: " + text[-200:])
                elif int(k.group(2)): viol("wrong-kernel", text[:300])
                else: count("kernel-runs", int(k.group(1)))
        count("judged")
    say("C %s/%d/%s" % ("arm" if arm else "x86", steps, ">".join(re.sub(r"\(\d.*", "", s) for s in done)))
    say("X " + cur)
    shutil.rmtree(tree)


sh, shs = (int(v) for v in opt.shard.split("/"))
for idx in range(int(opt.n)):
    if idx % shs == sh: one(idx, random.Random("%s/%d" % (opt.seed, idx)))
for k, v in counts.items(): say("S %s %d" % (k, v))
say("DONE")
