"""Integer ranges: sizes, counts and times keep their value when they are computed, converted and passed on."""
from terms import *
from engine import Rule

UNS = {"unsigned int": 32, "unsigned long": 64, "unsigned short": 16, "unsigned char": 8, "unsigned long long": 64}
SGN = {"int": 32, "long": 64, "short": 16, "signed char": 8, "long long": 64}


def full(w, nsw=None):
    if nsw is True: return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if nsw is False: return (0, (1 << w) - 1)
    return (-(1 << (w - 1)), (1 << w) - 1)


def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return (lo, hi)


def join(a, b):
    return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))


class Widths(Rule):
    name = "widths"

    def __init__(self):
        super().__init__()
        self.leaf = {}              # term -> range given by its type
        self.unsigned = set()       # values of unsigned 32-bit type
        self.clock = set()          # labels of clock readings
        self.n = {}

    def handlers(self):
        return {"arith": self.arith, "ext": self.ext, "trunc": self.trunc, "enter": self.enter, "leave": self.leave, "gettime": self.gettime, "primcall": self.passed, "anycall": self.passed}

    def typed(self, x, ty):
        if type(x) is not T or isc(x) or x.k == "op": return
        w = UNS.get(ty)
        if w == 32: self.unsigned.add(x)
        w = w or SGN.get(ty)
        if w and w < 64 and x.k != "op": self.setleaf(x, full(w, ty in SGN))

    def setleaf(self, x, r): self.leaf[x] = join(self.leaf[x], r) if x in self.leaf else r

    def params(self, f, args):
        off = len(f.args) - len(f.nm.params or [])
        for n, ty in enumerate(f.nm.params or []):
            if 0 <= n + off < len(args): self.typed(args[n + off], ty.replace("const", "").strip())

    def enter(self, ev):
        if ev.fn.nm: self.params(ev.fn, ev.args)

    def leave(self, ev):
        if ev.how == "ret" and ev.val is not None and self.E.P.own(ev.fn): self.typed(ev.val, ev.fn.d.get("rty", ""))

    def passed(self, ev):
        """values of unsigned type given to a signed parameter of a function whose body is not looked at"""
        f, args = ev.call.fn, ev.call.args
        off = len(f.args) - len(f.nm.params or [])
        for n, ty in enumerate(f.nm.params or []):
            ty = ty.replace("const", "").replace("&", "").strip()
            if SGN.get(ty) != 32 or not 0 <= n + off < len(args): continue
            x = args[n + off]
            if type(x) is T and x.k == "al": x = ev.st.mem.get(x, x)
            if x not in self.unsigned: continue
            self.cnt(ev, "values of unsigned type read as signed")
            hi, seen = self.rng(ev.st, x)[1], ev.st.range(x)
            if (hi is None or hi > full(32, True)[1]) and (seen[0] is None or seen[0] < 0):
                self.report(ev, "sign-lost", "%s has an unsigned type and may exceed %d here, %s takes it as signed" % (show(x), full(32, True)[1], f.nm.base))

    def gettime(self, ev): self.clock |= {ev.sec.a[0], ev.nsec.a[0]}

    def cnt(self, ev, k):
        self.n[k] = self.n.get(k, 0) + 1
        self.ok(k, ev.where())

    def source(self, t):
        """depends on a parameter, a member, data of the segment, a message length or the clock"""
        if isc(t): return False
        if t.k in ("param", "ld", "seg") or (t.k == "mp" and t.a[0] == "size"): return True
        if t.k == "sym":
            l = t.a[0]
            if l in self.clock or (l[0] == "L" and l[1:2].isdigit()): return True
            d = self.E.symsite.get(l, "")
            return d == "written" or "sbuffer::size" in d
        return any(self.source(x) for x in t.a if type(x) is T)

    # interval of a term as a mathematical integer
    def rng(self, st, t, d=0):
        if isc(t): return (t.a[0], t.a[0])
        r = st.range(t)
        if t in self.leaf:
            if t in self.unsigned and r[0] is not None and r[0] >= 0: r = meet(r, full(32, True))
            r = meet(r, self.leaf[t])
        if d > 12: return r
        if t.k == "op":
            r = meet(r, self.opr(t.a[0], self.rng(st, t.a[1], d + 1), self.rng(st, t.a[2], d + 1)))
            if t.a[0] == "sub" and (r[0] is None or r[0] < 0):
                if st.truth(cmp_("slt", t.a[2], t.a[1])): r = meet(r, (1, None))
                elif st.truth(cmp_("slt", t.a[1], t.a[2])) is False: r = meet(r, (0, None))
        elif t.k == "tr":
            x = self.rng(st, t.a[1], d + 1)
            f = full(t.a[0], True)
            r = meet(r, x if x[0] is not None and x[1] is not None and x[0] >= f[0] and x[1] <= f[1] else full(t.a[0]))
        return r

    def opr(self, n, a, b):
        la, ha = a; lb, hb = b
        if n == "add": return (None if la is None or lb is None else la + lb, None if ha is None or hb is None else ha + hb)
        if n == "sub": return (None if la is None or hb is None else la - hb, None if ha is None or lb is None else ha - lb)
        if n == "shl":
            if lb is None or hb is None or lb < 0 or hb > 64: return (None, None)
            n, lb, hb = "mul", 1 << lb, 1 << hb
        if n == "mul":
            if None in (la, ha, lb, hb):
                if la is not None and la >= 0 and lb is not None and lb >= 0: return (la * lb, None)
                return (None, None)
            c = [la * lb, la * hb, ha * lb, ha * hb]
            return (min(c), max(c))
        if n in ("sdiv", "udiv") and lb is not None and lb == hb and lb > 0:
            return (None if la is None else int(abs(la) // lb) * (1 if la >= 0 else -1), None if ha is None else (abs(ha) // lb) * (1 if ha >= 0 else -1))
        if n in ("srem", "urem") and hb is not None and lb is not None and lb > 0:
            if la is not None and la >= 0: return (0, hb - 1 if ha is None else min(ha, hb - 1))
            return (-(hb - 1), hb - 1)
        if n == "and":
            c = [x[1] for x in (a, b) if x[0] is not None and x[0] >= 0 and x[1] is not None]
            if c: return (0, min(c))
            return (None, None)
        if n in ("or", "xor") and la is not None and la >= 0 and lb is not None and lb >= 0 and ha is not None and hb is not None:
            return (0, (1 << max(ha.bit_length(), hb.bit_length())) - 1)
        if n in ("lshr", "ashr") and la is not None and la >= 0 and lb == hb and lb is not None and lb >= 0: return (la >> lb, None if ha is None else ha >> lb)
        return (None, None)

    def own(self, ev): return self.E.P.own(ev.frame.fn)

    def ext(self, ev):
        w = int(ev.ins["st"][1:])
        x = ev.x
        if w < 8 or isc(x): return
        r = full(w, ev.opname == "sext")
        cur = self.rng(ev.st, x)
        if w == 32 and x in self.unsigned and ev.opname == "sext":
            self.cnt(ev, "values of unsigned type read as signed")
            seen = ev.st.range(x)       # a comparison that excluded negative values excluded the upper half of the unsigned ones
            if (cur[1] is None or cur[1] > r[1]) and (seen[0] is None or seen[0] < 0):
                self.report(ev, "sign-lost", "%s has an unsigned type and may exceed %d here, the conversion turns it negative" % (show(x), r[1]))
                return
        if w == 32: self.cnt(ev, "extensions")
        if x.k != "op": self.setleaf(x, r)

    def arith(self, ev):
        if not self.own(ev) or ev.opname not in ("add", "sub", "mul", "shl"): return
        w = int(ev.ins["t"][1:]) if ev.ins["t"].startswith("i") else 0
        if not w: return
        nsw = ev.ins.get("nsw")
        a, b = self.rng(ev.st, ev.x), self.rng(ev.st, ev.y)
        if w <= 32: a, b = meet(a, full(w)), meet(b, full(w))
        r = self.opr(ev.opname, a, b)
        f = full(w)
        self.cnt(ev, "additions and multiplications")
        if r[0] is not None and r[1] is not None and r[0] >= f[0] and r[1] <= (f[1] if w <= 32 else (1 << 63) - 1): return
        if w > 32 and (ev.opname not in ("mul", "shl") or r[0] is None or r[1] is None): return
        if not (self.source(ev.x) or self.source(ev.y)): return
        if w > 32 and self.clocky(ev.x): return
        if ev.opname == "sub" and self.opr("sub", a, b)[0] is not None and self.rel(ev.st, ev.x, ev.y): return
        self.report(ev, "overflow", "%s of %s and %s is computed with %d bits, its value may be %s..%s" % ({"add": "the sum", "sub": "the difference", "mul": "the product", "shl": "the shift"}[ev.opname], show(ev.x), show(ev.y), w, r[0], r[1]))

    def clocky(self, t):
        if t.k == "sym": return t.a[0] in self.clock
        return any(self.clocky(x) for x in t.a if type(x) is T)

    def rel(self, st, a, b):
        return st.truth(cmp_("slt", a, b)) is False

    def trunc(self, ev):
        if not self.own(ev): return
        w = int(ev.ins["t"][1:])
        if w < 8: return
        r = self.rng(ev.st, ev.x)
        f = full(w)
        self.cnt(ev, "truncations")
        if r[0] is not None and r[1] is not None and r[0] >= f[0] and r[1] <= f[1]: return
        if not self.source(ev.x): return
        self.report(ev, "truncated", "%s is cut to %d bits, its value may be %s..%s" % (show(ev.x), w, r[0], r[1]))
