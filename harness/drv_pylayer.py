"""The Python linear module and its autograd function, over a stand-in for the tensor library
and the real C++ passes: outputs, gradients and parameters judged against their definition."""
import argparse
import os
import random
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
for o in ("--src", "--n", "--seed", "--shard", "--l2", "--l3"): ap.add_argument(o)
opt = ap.parse_args()
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "pytorch")]
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
prog = open(os.environ["VH_PROGRESS"], "w+b", 0) if "VH_PROGRESS" in os.environ else None
cur, nviol, counts = "", 0, {}


def say(s): out.write(s + "\n"); out.flush()
def case(s):
    global cur
    cur = s
    if prog: prog.seek(0); prog.write(s.encode() + b"\0")
def viol(key, detail):
    global nviol
    nviol += 1
    if nviol <= 40: say("V %s\t%s [case %s]" % (key, detail.replace("\n", " ")[:500], cur))
def count(k, n=1): counts[k] = counts.get(k, 0) + n


case("import")
import torch          # noqa: E402
import linear_cpp     # noqa: E402
sys.path.insert(0, os.path.join(opt.src, "python"))
try:
    import cake
except Exception:
    viol("raised", "importing the layer: " + traceback.format_exc(limit=-2))
    say("DONE")
    sys.exit(0)

R = 6


def mat(r, rows, cols, grad=False):
    """rows x cols of small integers, contiguous, transposed, every other row of a larger one, or part of one"""
    k = r.randrange(8)
    if k == 0: t = torch.empty(cols, rows).t()
    elif k == 1: t = torch.empty(2 * rows, cols)[::2]
    elif k == 2: t = torch.empty(rows + 3, cols)[2:2 + rows]
    else: t = torch.empty(rows, cols)
    t = t.detach()
    t._fill([r.randint(-R, R) for _ in range(rows * cols)])
    t.requires_grad = grad
    return t


def same(what, got, want, shape):
    if got is None: viol("wrong-layer", what + " is missing"); return False
    if tuple(got.shape) != tuple(shape): viol("wrong-shape", "%s has shape %s, not %s" % (what, tuple(got.shape), tuple(shape))); return False
    v = got._vals()
    count("elements", len(v))
    for i, (a, b) in enumerate(zip(v, want)):
        if a != b: viol("wrong-layer", "%s[%d] = %r, expected %r" % (what, i, a, b)); return False
    return True


def lin(x, w, b, n, k, m):   # n x k times (m x k)^T
    return [sum(x[i * k + q] * w[j * k + q] for q in range(k)) + (b[j] if b else 0) for i in range(n) for j in range(m)]


class Layer:
    """A module, and what it ought to hold."""
    def __init__(self, r, i, o, bias, how):
        self.i, self.o, self.bias = i, o, bias
        self.m = cake.cake_linear(i, o, bias) if how == 0 else cake.cake_linear(i, o, bias=bias) if how == 1 or not bias else cake.cake_linear(i, o)
        p = dict(self.m.named_parameters())
        want = {"weight": (o, i)}
        if bias: want["bias"] = (o,)
        if {k: tuple(v.shape) for k, v in p.items()} != want: viol("wrong-parameters", "parameters %s, expected %s" % ({k: tuple(v.shape) for k, v in p.items()}, want))
        for k, v in p.items():
            e = v.detach()._vals()
            if not v.requires_grad or not v.is_leaf: viol("wrong-parameters", k + " is not a parameter to train")
            if any(not -0.1 <= x <= 0.1000001 for x in e): viol("wrong-parameters", "%s starts at %r, not within 0.1 of 0" % (k, max(e, key=abs)))
            if len(e) >= 4 and len(set(e)) == 1: viol("wrong-parameters", k + " starts with all elements the same")
            count("parameters", len(e))
        self.gw, self.gb = [0] * (i * o), [0] * o
        self.set(r)

    def set(self, r):
        self.w = [r.randint(-R, R) for _ in range(self.i * self.o)]
        self.m.weight.data._fill(self.w)
        if self.bias:
            self.b = [r.randint(-50, 50) for _ in range(self.o)]
            self.m.bias.data._fill(self.b)

    def out(self, x, n): return lin(x, self.w, self.b if self.bias else None, n, self.i, self.o)

    def back(self, g, x, n):
        """What a backward pass adds, and the gradient of its input."""
        for i in range(n):
            for j in range(self.o):
                v = g[i * self.o + j]
                self.gb[j] += v
                if v:
                    for q in range(self.i): self.gw[j * self.i + q] += v * x[i * self.i + q]
        return [sum(g[i * self.o + j] * self.w[j * self.i + q] for j in range(self.o)) for i in range(n) for q in range(self.i)]

    def judge(self):
        same("weight gradient", self.m.weight.grad, self.gw, (self.o, self.i))
        if self.bias: same("bias gradient", self.m.bias.grad, self.gb, (self.o,))
        elif self.m.bias is not None: viol("wrong-parameters", "a bias nobody asked for")
        if self.m.weight.detach()._vals() != self.w or self.bias and self.m.bias.detach()._vals() != self.b: viol("operand-changed", "a pass changed a parameter")

    def clear(self):
        self.gw, self.gb = [0] * (self.i * self.o), [0] * self.o
        self.m.zero_grad()


def grad_for(r, y):
    """A gradient for y, and its elements: of its own, or what a sum gives (one element, expanded)."""
    if r.random() < 0.25:
        return None, [1] * y.numel()
    g = mat(r, *y.shape)
    return g, g._vals()


def backward(y, g):
    if g is None: y.sum().backward()
    else:
        before = g._vals()
        y.backward(g)
        if g._vals() != before: viol("operand-changed", "backward changed the gradient it was given")


def one(idx, r):
    d = lambda: r.choice([1, r.randint(1, 7), r.randint(1, 20), r.randint(1, 40), 16, 6 * r.randint(1, 4)])
    kind = ("once", "train", "interleaved", "chain", "nograd", "two")[idx % 6]
    n, i, o, bias = d(), d(), d(), r.random() < 0.6
    how = r.randrange(3)
    case("#%d %s batch=%d in=%d out=%d bias=%d" % (idx, kind, n, i, o, bias))
    del linear_cpp.calls[:]
    L = Layer(r, i, o, bias, how)

    def fwd(layer, x, n):
        xv = x.detach()._vals()
        y = layer.m(x)
        ok = same("output", y, layer.out(xv, n), (n, layer.o))
        if x.detach()._vals() != xv: viol("operand-changed", "forward changed its input")
        return y, xv, ok

    if kind == "once":
        x = mat(r, n, i, True)
        y, xv, ok = fwd(L, x, n)
        if ok:
            g, gv = grad_for(r, y)
            backward(y, g)
            same("input gradient", x.grad, L.back(gv, xv, n), (n, i))
            L.judge()
    elif kind == "train":      # steps that change the parameters, gradients kept or cleared, batches of any size
        for step in range(4):
            n = d()
            x = mat(r, n, i, True)
            y, xv, ok = fwd(L, x, n)
            if not ok: break
            g, gv = grad_for(r, y)
            backward(y, g)
            same("input gradient", x.grad, L.back(gv, xv, n), (n, i))
            L.judge()
            if r.random() < 0.6: L.clear()
            if r.random() < 0.7: L.set(r)
    elif kind == "interleaved":    # passes forward before those backward, which come in another order
        xs = [mat(r, n if r.random() < 0.5 else d(), i, True) for _ in range(3)]
        ys = [fwd(L, x, x.shape[0]) for x in xs]
        if all(y[2] for y in ys):
            for k in r.sample(range(3), 3):
                g, gv = grad_for(r, ys[k][0])
                backward(ys[k][0], g)
                same("input gradient", xs[k].grad, L.back(gv, ys[k][1], xs[k].shape[0]), xs[k].shape)
            L.judge()
    elif kind == "chain":
        o2 = d()
        L2 = Layer(r, o, o2, r.random() < 0.6, 1)
        x = mat(r, n, i, True)
        y, xv, ok = fwd(L, x, n)
        if ok:
            z, yv, ok = fwd(L2, y, n)
        if ok:
            g, gv = grad_for(r, z)
            backward(z, g)
            gy = L2.back(gv, yv, n)
            same("input gradient", x.grad, L.back(gy, xv, n), (n, i))
            L.judge(); L2.judge()
    elif kind == "nograd":     # an input nobody wants the gradient of
        x = mat(r, n, i)
        y, xv, ok = fwd(L, x, n)
        if ok:
            g, gv = grad_for(r, y)
            backward(y, g)
            L.back(gv, xv, n)
            L.judge()
            if x.grad is not None: viol("wrong-layer", "a gradient for an input that wants none")
            with torch.no_grad(): y, xv, ok = fwd(L, x, n)
            if y.requires_grad: viol("wrong-layer", "history kept where none is wanted")
    else:                      # two modules, turn by turn
        M = Layer(r, i if r.random() < 0.5 else d(), o if r.random() < 0.5 else d(), r.random() < 0.6, 1)
        for step in range(2):
            x, u = mat(r, n, i, True), mat(r, n, M.i, True)
            y, xv, ok1 = fwd(L, x, n)
            v, uv, ok2 = fwd(M, u, n)
            if not (ok1 and ok2): break
            for lay, inp, o_, vals in r.sample([(L, x, y, xv), (M, u, v, uv)], 2):
                g, gv = grad_for(r, o_)
                backward(o_, g)
                same("input gradient", inp.grad, lay.back(gv, vals, n), inp.shape)
        L.judge(); M.judge()
    for name, ints in linear_cpp.calls:
        for v in ints:
            if v != [int(opt.l2), int(opt.l3)]: viol("wrong-caches", "%s was told of caches %s, the machine has [%s, %s]" % (name, v, opt.l2, opt.l3)); break
    count("passes", len(linear_cpp.calls))
    if linear_cpp.calls: count("judged")
    lev = lambda v: 0 if v == 1 else 1 if v < 8 else 2 if v % 16 == 0 else 3
    say("C %s/%d%d%d/b%d/%d" % (kind, lev(n), lev(i), lev(o), bias, how))
    if idx % 97 < 2: say("X " + cur)


sh, shs = (int(v) for v in opt.shard.split("/"))
for idx in range(int(opt.n)):
    if idx % shs != sh: continue
    r = random.Random(int(opt.seed) * 1000003 + idx)
    random.seed(idx)
    try:
        one(idx, r)
    except linear_cpp.HarnessError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)
    except Exception:
        viol("raised", traceback.format_exc(limit=-2))
for k, v in counts.items(): say("S %s %d" % (k, v))
say("DONE")
