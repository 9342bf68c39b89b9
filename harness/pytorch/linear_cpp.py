"""The bound functions as the extension module gives them, over the real code."""
import ctypes
import os
from array import array
import torch

_lib = ctypes.CDLL(os.environ["LINEAR_SO"])


class _Arr(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_int), ("ndim", ctypes.c_int), ("shape", ctypes.c_int64 * 4), ("stride", ctypes.c_int64 * 4), ("off", ctypes.c_int64), ("data", ctypes.c_void_p)]


_lib.lp_error.restype = ctypes.c_char_p
_lib.lp_size.restype = ctypes.c_int64
calls = []      # (name, the integer tensors among its arguments)


class HarnessError(Exception):
    pass


def _call(name, args):
    n = _lib.lp_arity(name.encode())
    if n < 0: raise AttributeError("module 'linear_cpp' has no attribute '%s'" % name)
    d = _lib.lp_defaults(name.encode())
    if not n - d <= len(args) <= n:
        raise TypeError("%s(): incompatible function arguments: takes %d, given %d" % (name, n, len(args)))
    a = (_Arr * max(1, len(args)))()
    keep = []
    for r, t in zip(a, args):
        if t is None: continue
        if not isinstance(t, torch.Tensor): t = torch.tensor(t)
        if t.dtype.code == "q": t = t.int()
        if t.dtype.code not in "fi": raise RuntimeError("expected scalar type Float but found " + t.dtype.name)
        if t.dim() > 4: raise HarnessError("tensor of more than four dimensions")
        keep.append(t)
        r.kind, r.ndim, r.off = "fi".index(t.dtype.code) + 1, t.dim(), t.storage_offset()
        for i in range(t.dim()): r.shape[i], r.stride[i] = t.shape[i], t.stride(i)
        r.data = t._st.buffer_info()[0]
    calls.append((name, [t.tolist() for t in keep if t.dtype.code == "i"]))
    k = _lib.lp_call(name.encode(), a, len(args))
    if k == -2: raise HarnessError(_lib.lp_error().decode())
    if k == -1: raise RuntimeError(_lib.lp_error().decode())
    out = []
    for i in range(k):
        nd = _lib.lp_ndim(i)
        if nd < 0: out.append(None); continue
        s = tuple(_lib.lp_size(i, d) for d in range(nd))
        n = 1
        for v in s: n *= v
        st = array("f", bytes(4 * n))
        _lib.lp_read(i, ctypes.c_void_p(st.buffer_info()[0]))
        out.append(torch.Tensor._make(st, s))
    _lib.lp_release()
    return out


def forward(*args):
    r = _call("forward", args)
    return r[0] if len(r) == 1 else tuple(r)


def backward(*args):
    return _call("backward", args)


def __getattr__(name):
    if name.startswith("__") or _lib.lp_arity(name.encode()) < 0: raise AttributeError(name)
    return lambda *a: _call(name, a)
