"""Call sources for the recorder / delivery checks."""
from torch import nn


class Boom(Exception):
    pass


class Tok:
    """An identifiable value."""

    def __init__(self, v):
        self.v = v


COUNT = [0]


def _orig(v, again):
    COUNT[0] += 1
    mine = COUNT[0]
    if v.v == 0:
        raise Boom()
    if v.v == 9:
        again(Tok(1))
    if v.v == 8:
        return None
    if v.v == 7:
        return 0
    return Tok(1000 * v.v + mine)


def f(a, b=3):
    return _orig(a, lambda t: f(t))


def g(a, b=3):
    return _orig(a, lambda t: g(t))


class A:

    def m(self, a, b=3):
        return _orig(a, lambda t: self.m(t))


class B(A):
    pass


class X(nn.Module):

    def forward(self, a):
        return _orig(a, None)


class Net(nn.Module):

    def __init__(self):
        super().__init__()
        self.lin = nn.Linear(2, 2)
        self.x = X()


ORIG = dict(f=f, g=g, m=A.__dict__['m'])
