def uniform_(t, a=0.0, b=1.0): return t.detach().uniform_(a, b)
def zeros_(t): return t.detach().zero_()
def constant_(t, v): return t.detach().fill_(v)
def normal_(t, m=0.0, s=1.0): return t.detach().normal_(m, s)
