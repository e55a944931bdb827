"""Conjunctions of linear inequalities over terms (the affine domain): entailment by Fourier-Motzkin elimination with integer tightening."""
from math import gcd
from affine import Lin

LIMIT = 1500


def norm(c, m):
    """c + m >= 0 tightened over the integers; None if trivially true, False if contradictory"""
    if not m: return None if c >= 0 else False
    g = 0
    for v in m.values(): g = gcd(g, abs(v))
    if g > 1:
        m = {k: v // g for k, v in m.items()}
        c = c // g
    return c, m


def infeasible(cons):
    """True: no integer point; False: a rational point exists; None: given up.  cons: list of Lin, each >= 0"""
    cur = {}

    def add(c, m):
        r = norm(c, m)
        if r is None: return True
        if r is False: return False
        c, m = r
        k = frozenset(m.items())
        if k not in cur or cur[k] > c: cur[k] = c
        o = frozenset((a, -v) for a, v in m.items())
        if o in cur and cur[o] + c < 0: return False
        return True
    for l in cons:
        if not add(l.c, l.m): return True
    while cur:
        pos, neg = {}, {}
        for k in cur:
            for a, v in k: (pos if v > 0 else neg).setdefault(a, []).append(k)
        vs = set(pos) | set(neg)
        best = min(vs, key=lambda a: (len(pos.get(a, ())) * len(neg.get(a, ())), str(a)))
        P, N = pos.get(best, []), neg.get(best, [])
        old = cur
        cur = {k: c for k, c in old.items() if k not in set(P) and k not in set(N)}
        if len(cur) + len(P) * len(N) > LIMIT: return None
        for p in P:
            dp = dict(p)
            a = dp.pop(best)
            for n in N:
                dn = dict(n)
                b = -dn.pop(best)
                m = {k: v * b for k, v in dp.items()}
                for k, v in dn.items(): m[k] = m.get(k, 0) + v * a
                m = {k: v for k, v in m.items() if v}
                if not add(old[p] * b + old[n] * a, m): return True
    return False


def relevant(cons, goal):
    """the constraints connected to the goal"""
    at = set(goal.m)
    rest = list(cons)
    out = []
    while True:
        more = [c for c in rest if at & set(c.m)]
        if not more: break
        rest = [c for c in rest if not (at & set(c.m))]
        out += more
        for c in more: at |= set(c.m)
    return out + [c for c in rest if not c.m]


def entails(cons, goal):
    """cons |= goal >= 0"""
    if not goal.m: 
        if goal.c >= 0: return True
    return infeasible(relevant(cons, goal) + [Lin(-1) - goal]) is True


class Poly:
    """cons (each >= 0), and disequalities used to sharpen them"""
    def __init__(self, cons, nes=()):
        self.cons = list(cons)
        self.cache = {}
        for _ in range(2):
            left = []
            for d in nes:
                if self.ge(d): self.cons.append(d - Lin(1)); self.cache = {}
                elif self.ge(d.scale(-1)): self.cons.append(d.scale(-1) - Lin(1)); self.cache = {}
                else: left.append(d)
            if len(left) == len(nes): break
            nes = left

    def ge(self, g):
        """g >= 0 holds"""
        k = g.key()
        r = self.cache.get(k)
        if r is None: r = self.cache[k] = entails(self.cons, g)
        return r

    def eq(self, a, b=None):
        d = a - b if b is not None else a
        return d.zero or (self.ge(d) and self.ge(d.scale(-1)))

    def empty(self):
        return infeasible(self.cons) is True
