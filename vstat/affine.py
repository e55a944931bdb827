"""Linear normal form of integer terms.  Remainders are expressed by quotients (x % k = x - k * (x / k)), so that the two halves of a split time or size cancel."""
from terms import *


class Lin:
    """c0 + sum of coefficient * atom"""
    __slots__ = ("c", "m")

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = {k: v for k, v in (m or {}).items() if v}

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items(): m[k] = m.get(k, 0) + v
        return Lin(self.c + o.c, m)

    def scale(self, n): return Lin(self.c * n, {k: v * n for k, v in self.m.items()})

    def __sub__(self, o): return self + o.scale(-1)

    def key(self): return (self.c, tuple(sorted(((k.id if type(k) is T else -1, str(k)), v) for k, v in self.m.items())))

    def __eq__(self, o): return self.c == o.c and self.m == o.m

    def __hash__(self): return hash((self.c, frozenset(self.m.items())))

    @property
    def zero(self): return not self.m and self.c == 0

    @property
    def const(self): return self.c if not self.m else None

    def __repr__(self):
        return " + ".join(["%s%s" % ("" if v == 1 else "%d*" % v, show(k) if type(k) is T else k) for k, v in self.m.items()] + ([str(self.c)] if self.c or not self.m else []))


def lin(t, env=None):
    """env: substitution of atoms by Lin"""
    if isc(t): return Lin(t.a[0])
    if env and t in env: return env[t]
    if t.k == "at": return lin(t.a[0], env) + Lin(t.a[1])
    if t.k == "ix": return lin(t.a[0], env) + lin(t.a[1], env).scale(t.a[2])
    if t.k == "op":
        n, a, b = t.a
        if n == "add": return lin(a, env) + lin(b, env)
        if n == "sub": return lin(a, env) - lin(b, env)
        if n == "mul":
            x, y = lin(a, env), lin(b, env)
            if y.const is not None: return x.scale(y.const)
            if x.const is not None: return y.scale(x.const)
            # product: expand sums over atoms
            r = Lin(x.c * y.c)
            for k, v in x.m.items(): r = r + Lin(0, {k: v * y.c})
            for k, v in y.m.items(): r = r + Lin(0, {k: v * x.c})
            for k, v in x.m.items():
                for k2, v2 in y.m.items():
                    p = ("mul",) + tuple(sorted((k, k2), key=lambda z: str(z)))
                    r = r + Lin(0, {p: v * v2})
            return r
        if n == "shl" and isc(b): return lin(a, env).scale(1 << b.a[0])
        if n in ("sdiv", "udiv") and isc(b) and b.a[0]: return div(lin(a, env), b.a[0])
        if n in ("srem", "urem") and isc(b) and b.a[0]:
            x = lin(a, env)
            return x - div(x, b.a[0]).scale(b.a[0])
    return Lin(0, {t: 1})


def div(x, k):
    if x.const is not None: return Lin(int(x.const / k) if abs(x.const) < 2 ** 52 else x.const // k)
    if all(v % k == 0 for v in x.m.values()) and x.c % k == 0: return Lin(x.c // k, {a: v // k for a, v in x.m.items()})
    return Lin(0, {("div", x, k): 1})


def atoms(l, out=None):
    """terms a linear form depends on"""
    out = set() if out is None else out
    for k in l.m:
        if type(k) is T: out.add(k)
        elif k[0] == "div": atoms(k[1], out)
        else:
            for z in k[1:]:
                if type(z) is T: out.add(z)
                elif z[0] == "div": atoms(z[1], out)
    return out
