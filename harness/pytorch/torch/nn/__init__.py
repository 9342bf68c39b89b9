from collections import OrderedDict
import torch
from torch import Tensor


class Parameter(Tensor):
    def __new__(cls, data=None, requires_grad=True):
        p = object.__new__(cls)
        return p

    def __init__(self, data=None, requires_grad=True):
        data = torch.empty(0) if data is None else data
        self._set(data._st, data.shape, data._strides, data._off, data.dtype)
        self.requires_grad = requires_grad


class Module:
    def __init__(self):
        self.__dict__.update(_parameters=OrderedDict(), _modules=OrderedDict(), _buffers=OrderedDict(), training=True)

    def register_parameter(self, name, p):
        if p is not None and not isinstance(p, Parameter): raise TypeError("cannot assign object as parameter")
        self._parameters[name] = p

    def register_buffer(self, name, t, persistent=True): self._buffers[name] = t

    def __setattr__(self, name, v):
        if isinstance(v, Parameter):
            self.__dict__.pop(name, None)
            self.register_parameter(name, v)
        elif isinstance(v, Module): self._modules[name] = v
        elif name in self.__dict__.get("_parameters", {}):
            if v is not None: raise TypeError("cannot assign as parameter '%s' (torch.nn.Parameter or None expected)" % name)
            self._parameters[name] = None
        elif name in self.__dict__.get("_buffers", {}): self._buffers[name] = v
        else: object.__setattr__(self, name, v)

    def __getattr__(self, name):
        for d in ("_parameters", "_modules", "_buffers"):
            if name in self.__dict__.get(d, {}): return self.__dict__[d][name]
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, name))

    def named_parameters(self, prefix="", recurse=True):
        for n, p in self._parameters.items():
            if p is not None: yield prefix + n, p
        for n, m in self._modules.items(): yield from m.named_parameters(prefix + n + ".")

    def parameters(self, recurse=True): return (p for _, p in self.named_parameters())
    def zero_grad(self, set_to_none=True):
        for p in self.parameters(): p.grad = None
    def train(self, mode=True): self.__dict__["training"] = mode; return self
    def eval(self): return self.train(False)
    def reset_parameters(self): pass
    def extra_repr(self): return ""
    def __call__(self, *a, **k): return self.forward(*a, **k)


from . import functional, init, parameter  # noqa: E402
