def linear(x, w, b=None):
    y = x.mm(w.t())
    return y if b is None else y + b
