import torch
from torch import Tensor


def Variable(t, requires_grad=False):
    if requires_grad: t.requires_grad = True
    return t


class _Ctx:
    saved_tensors = ()
    needs_input_grad = ()

    def save_for_backward(self, *t):
        if any(x is not None and not isinstance(x, Tensor) for x in t): raise TypeError("save_for_backward can only save variables")
        self.saved_tensors = t

    def mark_non_differentiable(self, *t): pass
    def mark_dirty(self, *t): pass
    def set_materialize_grads(self, v): pass


class Function:
    @classmethod
    def apply(cls, *args):
        ctx = _Ctx()
        need = [isinstance(a, Tensor) and a.requires_grad for a in args]
        ctx.needs_input_grad = tuple(need)
        # the tensors seen inside have no history of their own
        inner = [a.detach() if isinstance(a, Tensor) else a for a in args]
        for a, b in zip(args, inner):
            if isinstance(a, Tensor): b.requires_grad = a.requires_grad
        with torch.no_grad():
            out = cls.forward(ctx, *inner)
        if not isinstance(out, Tensor): raise TypeError("forward did not return a tensor")
        out.requires_grad, out.grad_fn = False, None

        def back(g):
            r = cls.backward(ctx, g)
            if not isinstance(r, tuple): r = (r,)
            if len(r) != len(args) and any(x is not None for x in r[len(args):]) or len(r) < len(args):
                raise RuntimeError("function %sBackward returned an incorrect number of gradients (expected %d, got %d)" % (cls.__name__, len(args), len(r)))
            for x, a in zip(r, args):
                if x is not None and not isinstance(a, Tensor): raise RuntimeError("returned a gradient different from None at a position whose input is not a tensor")
            return [x for x, a in zip(r, args) if isinstance(a, Tensor)]
        if any(need) and torch.is_grad_enabled():
            out.requires_grad, out.grad_fn = True, ([a for a in args if isinstance(a, Tensor)], back)
        return out


def grad(out, inputs, grad_outputs=None):
    raise NotImplementedError
