"""A stand-in for the parts of the tensor library that a linear module needs: strided tensors
over shared storage, and gradients as documented by PyTorch."""
from array import array
import contextlib
import random as _random


class dtype:
    def __init__(self, name, code): self.name, self.code = name, code
    def __repr__(self): return "torch." + self.name


float32 = float = dtype("float32", "f")
float64 = double = dtype("float64", "d")
int32 = int = dtype("int32", "i")
int64 = long = dtype("int64", "q")
bool = dtype("bool", "b")
_int, _float, _bool = __builtins__["int"], __builtins__["float"], __builtins__["bool"]
contiguous_format = preserve_format = None


class device:
    def __init__(self, t="cpu", i=None): self.type = t
    def __eq__(self, o): return True


strided = "strided"
_state = {"grad": True}


class Size(tuple):
    def numel(self): return _numel(self)


def _numel(s):
    n = 1
    for v in s: n *= v
    return n


def _contig(s):
    r = [1] * len(s)
    for i in range(len(s) - 2, -1, -1): r[i] = r[i + 1] * s[i + 1]
    return tuple(r)


def _shape(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)): a = a[0]
    return tuple(_int(v) for v in a)


def _offsets(shape, strides, off):
    r = [off]
    for n, s in zip(shape, strides): r = [o + i * s for o in r for i in range(n)]
    return r


class Tensor:
    def __init__(self, *a, dtype=None):
        if len(a) == 1 and isinstance(a[0], (list, tuple)) and not isinstance(a[0], Size):
            t = tensor(a[0], dtype=dtype or float32)
        else:
            t = empty(*a, dtype=dtype or float32)
        self._set(t._st, t.shape, t._strides, t._off, t.dtype)

    @classmethod
    def _make(cls, st, shape, strides=None, off=0, dt=float32):
        t = Tensor.__new__(Tensor)
        t._set(st, shape, _contig(shape) if strides is None else strides, off, dt)
        return t

    def _set(self, st, shape, strides, off, dt):
        self._st, self.shape, self._strides, self._off, self.dtype = st, Size(shape), tuple(strides), off, dt
        self.requires_grad, self.grad, self.grad_fn = False, None, None

    # ---- looking
    def _idx(self): return _offsets(self.shape, self._strides, self._off)
    def _vals(self): return [self._st[i] for i in self._idx()]
    def size(self, d=None): return self.shape if d is None else self.shape[d]
    def dim(self): return len(self.shape)
    ndimension = dim
    ndim = property(lambda s: len(s.shape))
    def numel(self): return _numel(self.shape)
    nelement = numel
    def stride(self, d=None): return self._strides if d is None else self._strides[d]
    def storage_offset(self): return self._off
    def is_contiguous(self, memory_format=None): return all(n == 1 or a == b for n, a, b in zip(self.shape, self._strides, _contig(self.shape)))
    def __len__(self): return self.shape[0]
    def item(self):
        if self.numel() != 1: raise ValueError("only one element tensors can be converted")
        return self._vals()[0]
    def __int__(self): return _int(self.item())
    def __float__(self): return _float(self.item())
    def __bool__(self): return _bool(self.item())
    def __hash__(self): return id(self)
    def tolist(self):
        def f(v, s):
            if not s: return v[0]
            n = len(v) // s[0] if s[0] else 0
            return [f(v[i * n:(i + 1) * n], s[1:]) for i in range(s[0])]
        return f(self._vals(), self.shape)
    device = property(lambda s: device("cpu"))
    is_cuda = False
    is_leaf = property(lambda s: s.grad_fn is None)
    layout = strided

    # ---- the same elements
    def _alias(self): return Tensor._make(self._st, self.shape, self._strides, self._off, self.dtype)
    def detach(self): return self._alias()
    def _get_data(self): return self._alias()
    def _set_data(self, o): self._st, self.shape, self._strides, self._off, self.dtype = o._st, o.shape, o._strides, o._off, o.dtype
    data = property(_get_data, _set_data)
    def requires_grad_(self, v=True): self.requires_grad = v; return self
    def cpu(self): return self
    def to(self, *a, **k):
        dt = next((x for x in list(a) + list(k.values()) if isinstance(x, dtype)), None)
        return self if dt in (None, self.dtype) else self.type(dt)
    def type(self, dt=None):
        if dt is None: return "torch.FloatTensor"
        if dt is self.dtype: return self
        return tensor(self._vals(), dtype=dt).reshape(self.shape)
    def float(self): return self.type(float32)
    def int(self): return self.type(int32)
    def long(self): return self.type(int64)
    def double(self): return self.type(float64)

    def _view(self, shape, strides, off, back):
        r = Tensor._make(self._st, shape, strides, off, self.dtype)
        return _record(r, [self], lambda g: [back(g)])

    def t(self): return self.transpose(0, 1) if len(self.shape) == 2 else self
    T = property(lambda s: s.t())
    def transpose(self, a, b):
        sh, st = list(self.shape), list(self._strides)
        sh[a], sh[b] = sh[b], sh[a]; st[a], st[b] = st[b], st[a]
        return self._view(sh, st, self._off, lambda g: g.transpose(a, b))
    def permute(self, *d):
        d = _shape(d)
        inv = sorted(range(len(d)), key=lambda i: d[i])
        return self._view([self.shape[i] for i in d], [self._strides[i] for i in d], self._off, lambda g: g.permute(inv))
    def contiguous(self, memory_format=None): return self if self.is_contiguous() else self.clone()
    def clone(self, memory_format=None):
        r = Tensor._make(array(self.dtype.code, self._vals()), self.shape, dt=self.dtype)
        return _record(r, [self], lambda g: [g])
    def reshape(self, *s):
        s = list(_shape(s))
        if -1 in s: s[s.index(-1)] = self.numel() // max(1, -_numel(s))
        if _numel(s) != self.numel(): raise RuntimeError("shape '%s' is invalid for input of size %d" % (s, self.numel()))
        if self.is_contiguous(): return self._view(s, _contig(s), self._off, lambda g: g.reshape(self.shape))
        r = Tensor._make(array(self.dtype.code, self._vals()), s, dt=self.dtype)
        return _record(r, [self], lambda g: [g.reshape(self.shape)])
    def view(self, *s):
        if not self.is_contiguous(): raise RuntimeError("view size is not compatible with input tensor's size and stride")
        return self.reshape(*s)
    def view_as(self, o): return self.view(o.shape)
    def flatten(self, start=0, end=-1):
        end = end % len(self.shape)
        return self.reshape(tuple(self.shape[:start]) + (_numel(self.shape[start:end + 1]),) + tuple(self.shape[end + 1:]))
    def unsqueeze(self, d):
        d %= len(self.shape) + 1
        sh, st = list(self.shape), list(self._strides)
        sh.insert(d, 1); st.insert(d, 1)
        return self._view(sh, st, self._off, lambda g: g.squeeze(d))
    def squeeze(self, d):
        sh, st = list(self.shape), list(self._strides)
        if sh[d] != 1: return self
        n = d % len(sh)
        del sh[d]; del st[d]
        return self._view(sh, st, self._off, lambda g: g.unsqueeze(n))
    def expand(self, *s):
        s = _shape(s)
        sh, st = [1] * (len(s) - len(self.shape)) + list(self.shape), [0] * (len(s) - len(self.shape)) + list(self._strides)
        for i, n in enumerate(s):
            if n not in (-1, sh[i]):
                if sh[i] != 1: raise RuntimeError("The expanded size does not match the existing size")
                sh[i], st[i] = n, 0
        return self._view(sh, st, self._off, lambda g: _unbroadcast(g, self.shape))
    def expand_as(self, o): return self.expand(o.shape)
    def __getitem__(self, i):
        if isinstance(i, tuple):
            r, d = self, 0
            for k in i:
                if isinstance(k, slice): r = r.transpose(0, d)[k].transpose(0, d) if d else r[k]; d += 1
                else: r = r.select(d, k)
            return r
        if isinstance(i, slice):
            a, b, c = i.indices(self.shape[0])
            n = len(range(a, b, c))
            return self._view([n] + list(self.shape[1:]), [self._strides[0] * c] + list(self._strides[1:]), self._off + a * self._strides[0], None)
        return self.select(0, _int(i))
    def select(self, d, i):
        i %= self.shape[d]
        return self._view(self.shape[:d] + self.shape[d + 1:], self._strides[:d] + self._strides[d + 1:], self._off + i * self._strides[d], None)

    # ---- new elements
    def _fill(self, vals):
        for i, v in zip(self._idx(), vals): self._st[i] = v
        return self
    def fill_(self, v): return self._fill([v] * self.numel())
    def zero_(self): return self.fill_(0)
    def copy_(self, o): return self._fill(_lift(o).expand(self.shape)._vals())
    def uniform_(self, a=0.0, b=1.0): return self._fill([_random.uniform(a, b) for _ in range(self.numel())])
    def normal_(self, m=0.0, s=1.0): return self._fill([_random.gauss(m, s) for _ in range(self.numel())])
    def add_(self, o, alpha=1): return self.copy_((self.detach() + _lift(o).detach() * alpha))
    def sub_(self, o, alpha=1): return self.add_(o, alpha=-alpha)
    def mul_(self, o): return self.copy_(self.detach() * _lift(o).detach())
    def div_(self, o): return self.copy_(self.detach() / _lift(o).detach())
    def __iadd__(self, o): return self.add_(o)
    def __isub__(self, o): return self.sub_(o)
    def __imul__(self, o): return self.mul_(o)
    def _zip(self, o, f, da, db):
        o = _lift(o)
        s = _broadcast(self.shape, o.shape)
        a, b = _ex(self, s), _ex(o, s)
        dt = self.dtype if self.dtype.code in "fd" else o.dtype
        r = Tensor._make(array(dt.code, [f(x, y) for x, y in zip(a, b)]), s, dt=dt)
        return _record(r, [self, o], lambda g: [_unbroadcast(da(g, self, o), self.shape), _unbroadcast(db(g, self, o), o.shape)])
    def __add__(self, o): return self._zip(o, lambda x, y: x + y, lambda g, a, b: g, lambda g, a, b: g)
    __radd__ = __add__
    def __sub__(self, o): return self._zip(o, lambda x, y: x - y, lambda g, a, b: g, lambda g, a, b: g * -1)
    def __rsub__(self, o): return (self * -1) + o
    def __mul__(self, o): return self._zip(o, lambda x, y: x * y, lambda g, a, b: g * b.detach(), lambda g, a, b: g * a.detach())
    __rmul__ = __mul__
    def __truediv__(self, o): return self._zip(o, lambda x, y: x / y, lambda g, a, b: g / b.detach(), lambda g, a, b: g * a.detach() / (b.detach() * b.detach()) * -1)
    def __neg__(self): return self * -1
    def add(self, o, alpha=1): return self + (_lift(o) * alpha if alpha != 1 else o)
    def sub(self, o): return self - o
    def mul(self, o): return self * o
    def div(self, o): return self / o
    def sum(self, *dims, dim=None, keepdim=False):
        d = dim if dim is not None else (dims[0] if dims else None)
        if len(dims) > 1: keepdim = dims[1]
        if d is None:
            s = 0.0
            for v in self._vals(): s += v
            r = Tensor._make(array(self.dtype.code, [s]), (), dt=self.dtype)
            return _record(r, [self], lambda g: [g.expand(self.shape)])
        if isinstance(d, (tuple, list)): d = d[0]
        d %= len(self.shape)
        acc = [0.0] * (self.numel() // max(1, self.shape[d]))
        m = self.transpose(0, d) if d else self
        v = m.detach()._vals()
        for i, x in enumerate(v): acc[i % len(acc)] += x
        sh = list(m.shape); sh[0] = 1
        full = Tensor._make(array(self.dtype.code, acc), sh, dt=self.dtype).transpose(0, d)
        full = full if keepdim else full.squeeze(d)
        full = full.contiguous()
        return _record(full, [self], lambda g: [(g if keepdim else g.unsqueeze(d)).expand(self.shape)])
    def mm(self, o):
        if len(self.shape) != 2 or len(o.shape) != 2 or self.shape[1] != o.shape[0]: raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
        n, k, m = self.shape[0], self.shape[1], o.shape[1]
        a, b = self._vals(), o._vals()
        r = array(self.dtype.code, [0] * (n * m))
        for i in range(n):
            for j in range(m):
                s = 0.0
                for q in range(k): s += a[i * k + q] * b[q * m + j]
                r[i * m + j] = s
        return _record(Tensor._make(r, (n, m), dt=self.dtype), [self, o], lambda g: [g.mm(o.detach().t()), self.detach().t().mm(g)])
    matmul = mm
    __matmul__ = mm
    def mean(self): return self.sum() / self.numel()
    def new_zeros(self, *s, **k): return zeros(*s, dtype=self.dtype)
    def new_empty(self, *s, **k): return empty(*s, dtype=self.dtype)
    def new_ones(self, *s, **k): return ones(*s, dtype=self.dtype)
    def new_tensor(self, v, **k): return tensor(v, dtype=self.dtype)
    def all(self): return tensor(all(self._vals()))
    def __eq__(self, o): return self._zip(o, lambda x, y: x == y, None, None) if isinstance(o, (Tensor, _int, _float)) else False
    def register_hook(self, f): self.__dict__.setdefault("_hooks", []).append(f)
    def retain_grad(self): self._retain = True

    # ---- gradients
    def backward(self, gradient=None, retain_graph=False):
        if gradient is None:
            if self.numel() != 1: raise RuntimeError("grad can be implicitly created only for scalar outputs")
            gradient = ones(*self.shape)
        if not self.requires_grad: raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        order, seen = [], set()
        def visit(t):
            if id(t) in seen: return
            seen.add(id(t))
            for i in (t.grad_fn[0] if t.grad_fn else []): visit(i)
            order.append(t)
        visit(self)
        grads = {id(self): gradient}
        with no_grad():
            for t in reversed(order):
                g = grads.pop(id(t), None)
                if g is None: continue
                for h in t.__dict__.get("_hooks", []):
                    g = g if (n := h(g)) is None else n
                if t.grad_fn is None or t.__dict__.get("_retain"):
                    if t.requires_grad:
                        if t.grad is None: t.grad = g.clone()
                        else: t.grad = t.grad + g
                if t.grad_fn is None: continue
                ins, back = t.grad_fn
                for i, gi in zip(ins, back(g)):
                    if gi is None or not i.requires_grad: continue
                    if tuple(gi.shape) != tuple(i.shape): raise RuntimeError("returned an invalid gradient - got %s but expected shape compatible with %s" % (list(gi.shape), list(i.shape)))
                    grads[id(i)] = grads[id(i)] + gi if id(i) in grads else gi


def _lift(o): return o if isinstance(o, Tensor) else Tensor._make(array("f", [o]), ())
def _ex(t, s): return t.detach().expand(s)._vals()


def _broadcast(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y): raise RuntimeError("The size of tensor a must match the size of tensor b")
    return tuple(y if x == 1 else x for x, y in zip(a, b))


def _unbroadcast(g, shape):
    while len(g.shape) > len(shape): g = g.sum(0)
    for d, n in enumerate(shape):
        if n == 1 and g.shape[d] != 1: g = g.sum(d, True)
    return g


def _record(r, ins, back):
    if _state["grad"] and any(i.requires_grad for i in ins):
        r.requires_grad, r.grad_fn = True, (ins, back)
    return r


class no_grad(contextlib.ContextDecorator):
    def __enter__(self): self.was, _state["grad"] = _state["grad"], False
    def __exit__(self, *a): _state["grad"] = self.was


class enable_grad(contextlib.ContextDecorator):
    def __enter__(self): self.was, _state["grad"] = _state["grad"], True
    def __exit__(self, *a): _state["grad"] = self.was


def is_tensor(x): return isinstance(x, Tensor)
def is_grad_enabled(): return _state["grad"]


def tensor(v, dtype=None, device=None, requires_grad=False):
    def shape(x): return () if not isinstance(x, (list, tuple)) else (len(x),) + (shape(x[0]) if x else ())
    def flat(x): return [x] if not isinstance(x, (list, tuple)) else [z for y in x for z in flat(y)]
    if isinstance(v, Tensor): return v.detach().clone()
    f = flat(v)
    if dtype is None: dtype = int64 if f and all(isinstance(x, _int) for x in f) else float32
    if dtype.code in "iq":
        bits = 31 if dtype.code == "i" else 63
        if any(not -2**bits <= x < 2**bits for x in f): raise RuntimeError("value cannot be converted to type %s without overflow" % dtype.name)
        f = [_int(x) for x in f]
    t = Tensor._make(array(dtype.code, f), shape(v), dt=dtype)
    t.requires_grad = requires_grad
    return t


as_tensor = tensor
def _full(s, v, dtype=None, device=None, requires_grad=False, **k):
    dt = dtype or float32
    t = Tensor._make(array(dt.code, [v]) * _numel(_shape(s)), _shape(s), dt=dt)
    t.requires_grad = requires_grad
    return t
def zeros(*s, **k): return _full(s, 0, **k)
def ones(*s, **k): return _full(s, 1, **k)
def full(s, v, **k): return _full((s,), v, **k)
def empty(*s, **k):   # what is there is anybody's guess
    k.setdefault("dtype", float32)
    return _full(s, 1e30 if (k["dtype"] or float32).code in "fd" else 123456789, **k)
def zeros_like(t, **k): return zeros(*t.shape, dtype=t.dtype)
def ones_like(t, **k): return ones(*t.shape, dtype=t.dtype)
def empty_like(t, **k): return empty(*t.shape, dtype=t.dtype)
def rand(*s, **k): return empty(*s).uniform_()
def randn(*s, **k): return empty(*s).normal_()
def matmul(a, b): return a.mm(b)
mm = matmul
def add(a, b): return a + b
def sum(a, *d, **k): return a.sum(*d, **k)
def t(a): return a.t()
def IntTensor(v): return tensor(v, dtype=int32)
def LongTensor(v): return tensor(v, dtype=int64)
FloatTensor = Tensor
def manual_seed(n): _random.seed(n)
def set_num_threads(n): pass
def get_default_dtype(): return float32


from . import autograd, nn, jit  # noqa: E402
