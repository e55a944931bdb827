"""The shared segment of a queue: a memory model in the affine domain.

Layout:  | size S | number n | front free F | sizes[N] | data ... |      (8 bytes per header word)
A queue state is given by n, F and the message sizes s_0 .. s_(n-1), of which only the prefix sums PS(i) = s_0 + .. + s_(i-1) are used.
What holds between operations (and is re-established by each of them):  0 <= n <= N,  F >= 0,  F + PS(n) <= capacity,  s_i >= 1."""
from terms import *
from affine import Lin
from engine import Rule
from poly import Poly
import affine

n_, F_ = T("seg", "n"), T("seg", "F")


def PS(i): return NULL if isc(i) and i.a[0] == 0 else T("seg", "PS", i)


def term(l):
    """a term for a linear form"""
    r = None
    for k, v in sorted(l.m.items(), key=lambda x: (x[0].id if type(x[0]) is T else -1, str(x[0]))):
        t = k if type(k) is T else None
        if t is None:
            if k[0] != "mul": return T("linform", repr(l))
            t = k[1]
            for z in k[2:]: t = op("mul", t, z)
        if v != 1: t = op("mul", t, C(v))
        r = t if r is None else op("add", r, t)
    if r is None: return C(l.c)
    return op("add", r, C(l.c)) if l.c else r


FIELDS = ("n", "F", "shift", "valid", "upds", "loc", "first", "outs", "ins", "lost")


class Segment(Rule):
    name = "segment"

    def __init__(self, cap):
        """cap: N and E (loads of the fields), S (term of the size recorded in the header)"""
        super().__init__()
        self.cap = cap
        self.mute = 0
        self.accesses = 0
        self.notes = set()
        self.polys = {}
        self.bases = set()

    def handlers(self):
        return {"memcpy": self.memcpy, "memset": self.memset, "exit": self.exit, "extcall": self.extcall}

    # ---------------------------------------------------------------- state
    def start(self, st, root):
        st.rs["seg"] = self.pack({"n": n_, "F": F_, "shift": 0, "valid": NULL, "upds": (), "loc": F_, "first": 0, "outs": (), "ins": (), "lost": 0})

    def pack(self, d): return tuple(d[k] for k in FIELDS)

    def get(self, st): return dict(zip(FIELDS, st.rs["seg"]))

    def put(self, st, **kw):
        d = self.get(st)
        d.update(kw)
        st.rs["seg"] = self.pack(d)

    def own(self, st): return st.rs["seg"]

    def lose(self, st, why, where=""):
        if not self.mute: self.notes.add("%s %s" % (why, where))
        self.put(st, lost=1)

    def lost(self, st): return self.get(st)["lost"]

    def report(self, ev, kind, msg, where=None):
        if self.mute or self.lost(ev.st): return
        super().report(ev, kind, msg, where)

    # ---------------------------------------------------------------- linear view
    def lin(self, t):
        if type(t) is not T: return Lin(0, {t: 1})
        if isc(t): return Lin(t.a[0])
        if t.k == "at": return self.lin(t.a[0]) + Lin(t.a[1])
        if t.k == "ix": return self.lin(t.a[0]) + self.lin(t.a[1]).scale(t.a[2])
        if t.k == "op":
            n, a, b = t.a
            if n in ("add", "sub", "mul"):
                x, y = self.lin(a), self.lin(b)
                if n == "add": return x + y
                if n == "sub": return x - y
                if x.const is not None or y.const is not None: return x.scale(y.const) if y.const is not None else y.scale(x.const)
                return affine.lin(op("mul", term(x), term(y)))
            if n == "shl" and isc(b): return self.lin(a).scale(1 << b.a[0])
            if n in ("sdiv", "udiv", "ashr", "lshr") and isc(b):
                k = b.a[0] if n.endswith("div") else 1 << b.a[0]
                x = self.lin(a)
                if k > 0 and x.c % k == 0 and all(v % k == 0 for v in x.m.values()): return Lin(x.c // k, {z: v // k for z, v in x.m.items()})
            if n == "and" and isc(b): pass
            return Lin(0, {op(n, term(self.lin(a)), term(self.lin(b))): 1})
        if t.k == "tr" and t.a[0] >= 32:
            x = self.lin(t.a[1])
            # numbers of messages and loop counters fit
            if all(self.small(z) for z in x.m): return x
            return Lin(0, {T("tr", t.a[0], term(x)): 1})
        if t.k == "seg" and t.a[0] == "PS":
            i = term(self.lin(t.a[1]))
            return Lin(0) if isc(i) and i.a[0] == 0 else Lin(0, {T("seg", "PS", i): 1})
        return Lin(0, {t: 1})

    def small(self, z): return z is n_ or z is self.cap["N"] or (type(z) is T and z.k == "sym" and z.a[0].startswith("LK"))

    def term(self, l): return term(l)

    def known(self, l):
        """does the form only speak of what the model knows"""
        def ok(z):
            if type(z) is not T: return z[0] == "mul" and all(ok(y) for y in z[1:])
            if z.k == "tr": return ok(z.a[1]) or self.known(self.lin(z.a[1]))
            if z in (n_, self.cap["N"], self.cap["E"]) or z.k == "param": return True
            if z.k == "seg" and z.a[0] == "PS": return all(ok(y) for y in self.lin(z.a[1]).m)
            return z.k == "sym" and z.a[0].startswith("LK") or z is F_
        return all(ok(z) for z in l.m)

    def poly(self, st, extra=()):
        key = (frozenset(st.facts.items()), frozenset(st.rng.items()), tuple(x.key() for x in extra))
        p = self.polys.get(key)
        if p is not None: return p
        L = self.lin
        N, S = L(self.cap["N"]), L(self.cap["S"])
        n, F, D = L(n_), L(F_), L(PS(n_))
        one = Lin(1)
        cons = [n, N - n, F, S - N.scale(8) - Lin(24) - F - D, D - n, N - one] + list(extra)
        nes, ults = [], []
        seen = [l for l in cons]
        for t, v in st.facts.items():
            if t.k != "cmp": continue
            p_, a, b = t.a
            if "fn" in (a.k, b.k): continue
            a, b = L(a), L(b)
            if p_ == "slt": cons.append(b - a - one if v else a - b)
            elif p_ == "eq":
                if v: cons += [a - b, b - a]
                else: nes.append(a - b)
            elif p_ == "ult": ults.append((a, b, v))
        for t, (lo, hi) in st.rng.items():
            x = L(t)
            if lo is not None: cons.append(x - Lin(lo))
            if hi is not None: cons.append(Lin(hi) - x)
        # prefix sums that are spoken of
        idx = {}
        def note(l):
            for z in l.m:
                if type(z) is T and z.k == "seg" and z.a[0] == "PS": idx[z] = L(z.a[1])
        for l in cons + nes + [x for a, b, _ in ults for x in (a, b)]: note(l)
        for a, b in self.extra_ps: idx[a] = b
        base = Poly(cons, nes)
        add = []
        for a, b, v in ults:
            if v and base.ge(b): add += [a, b - a - one]
            elif not v and base.ge(a) and base.ge(b): add += [a - b]
            elif not v and base.ge(b): pass
        pts = [(Lin(0), Lin(0)), (n, D)] + [(i, Lin(0, {z: 1})) for z, i in idx.items() if z is not PS(n_)]
        base = Poly(base.cons + add, nes)
        for i in range(len(pts)):
            for j in range(i + 1, len(pts)):
                (x, px), (y, py) = pts[i], pts[j]
                if base.eq(x, y): add += [px - py, py - px]; continue
                for (u, pu), (w, pw) in (((x, px), (y, py)), ((y, py), (x, px))):
                    if base.ge(w - u) and base.ge(u) and base.ge(n - w): add.append(pw - pu - (w - u))
        p = Poly(base.cons + add, nes)
        self.polys[key] = p
        return p

    extra_ps = ()

    def q(self, st, *goals):
        """all goals >= 0 hold"""
        ps_ = {}
        def walk(l):
            for z in l.m:
                if type(z) is T and z.k == "seg" and z.a[0] == "PS": ps_[z] = self.lin(z.a[1])
        for g in goals: walk(g)
        e = tuple(sorted(ps_.items(), key=lambda x: x[0].id))
        if e != self.extra_ps:
            self.polys = {}
            self.extra_ps = e
        p = self.poly(st)
        return all(p.ge(g) for g in goals)

    def qeq(self, st, a, b): return self.q(st, a - b, b - a)

    def feasible(self, st):
        for t, v in st.facts.items():
            if v and t.k == "cmp" and t.a[0] == "eq" and isc(t.a[2]) and t.a[1].k == "ld" and (self.is_base(t.a[1]) or self.is_part(t.a[1])): return False
        if "seg" not in st.rs: return True
        if self.extra_ps:
            self.polys = {}
            self.extra_ps = ()
        return not self.poly(st).empty()

    # ---------------------------------------------------------------- addresses
    def is_base(self, t):
        if t in self.bases: return True
        if t.k != "ld": return False
        for cls, f, ty in self.E.tags.get(t.a[0], ()):
            if cls.endswith("SharedMemory") and (ty == "ptr" or ty.rstrip().endswith("*")):
                self.bases.add(t)
                return True
        return False

    def is_part(self, t):
        """a pointer kept in the queue object (to its segment or its semaphores)"""
        a = t.a[0]
        while a.k in ("ps", "tup"): a = a.a[0]
        return base_of(a).k == "param" and base_of(a).a[0] == "this"

    def offset(self, addr):
        """(base, offset) if the address lies in the segment"""
        if base_of(addr).k in ("al", "g", "fn"): return None
        l = self.lin(addr)
        for z, v in l.m.items():
            if type(z) is T and v == 1 and z.k == "ld" and self.is_base(z):
                return z, l - Lin(0, {z: 1})
        return None

    SIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "i1": 1}

    def where(self, ins, frame): return frame.fn.where(ins)

    def rep(self, st, frame, ins, kind, msg):
        from engine import Ev
        self.report(Ev("seg", self.E, st, frame=frame, ins=ins), kind, msg)

    def inside(self, st, off, length, frame, ins, what):
        """is [off, off+length) inside the segment; reported if it is not"""
        S = self.lin(self.cap["S"])
        if self.mute: return True          # looking for what changes in a loop
        self.ok("%s inside the segment" % what, self.where(ins, frame))
        self.accesses += 1
        for g, side in ((off, "before the start"), (S - off - length, "beyond the end")):
            if self.q(st, g): continue
            if not (self.known(off) and self.known(length)):
                self.lose(st, "address not understood", self.where(ins, frame))
                return False
            if side == "beyond the end" and self.q(st, length.scale(-1)): continue     # nothing is accessed
            self.rep(st, frame, ins, "out-of-bounds", "%s of %r bytes at offset %r can reach %s of the segment (of %r bytes)" % (what, length, off, side, S))
            return False
        return True

    def element(self, st, off):
        """index into the table of sizes, or None"""
        d = off - Lin(24)
        if d.c % 8 or any(v % 8 for v in d.m.values()): return None
        i = Lin(d.c // 8, {z: v // 8 for z, v in d.m.items()})
        if self.mute and any(z.k == "sym" and z.a[0][:2] in ("LC", "LK") for x in d.m if type(x) is T for z in x.syms): return i
        if self.q(st, i) and self.q(st, self.lin(self.cap["N"]) - i - Lin(1)): return i
        return None

    def mload(self, st, addr, ty, ins, frame):
        o = self.offset(addr)
        if o is None:
            b = base_of(addr)
            if b.k == "param" and b.a[0] == "this" and ty not in ("ptr", None) and addr not in st.mem: return T("ld", addr)
            return None
        if "seg" not in st.rs: return None
        off = o[1]
        size = self.SIZE.get(ty, 8)
        d = self.get(st)
        junk = T("seg", "junk", "%d:%d" % (frame.fid, ins["i"] if ins else 0))
        if not self.inside(st, off, Lin(size), frame, ins, "read"): return junk
        if size == 8 and off.const in (0, 8, 16): return {0: self.cap["S"], 8: d["n"], 16: d["F"]}[off.const]
        i = self.element(st, off) if size == 8 else None
        if i is None:
            self.lose(st, "direct read of the data area", self.where(ins, frame))
            return junk
        for j, v in reversed(d["upds"]):
            j = self.lin(j)
            if self.qeq(st, i, j): return v
            if not (self.q(st, i - j - Lin(1)) or self.q(st, j - i - Lin(1))): return junk
        sh = 0
        if d["shift"]:
            if self.q(st, self.lin(d["valid"]) - i - Lin(1)): sh = 1
            elif not self.q(st, i - self.lin(d["valid"])): return junk
        one = Lin(1)
        i = i + Lin(sh)
        return op("sub", PS(term(i + one)), PS(term(i))) if not (i.const == 0) else PS(C(1))

    def mstore(self, st, addr, v, ins, frame):
        o = self.offset(addr)
        if o is None: return False
        if "seg" not in st.rs: return False
        off = o[1]
        size = self.SIZE.get(ins.get("vt") or "", None)
        if size is None: size = 8 if self.multiple(off) else 1
        d = self.get(st)
        if not self.inside(st, off, Lin(size), frame, ins, "write"): return True
        if off.const == 8: self.put(st, n=v)
        elif off.const == 16: self.put(st, F=v)
        elif off.const == 0:
            if not self.qeq(st, self.lin(v), self.lin(self.cap["S"])): self.rep(st, frame, ins, "header", "the recorded size of the segment is changed")
        elif size == 8 and self.element(st, off) is not None:
            self.put(st, upds=d["upds"] + ((term(self.element(st, off)), v),))
        else: self.lose(st, "direct write to the data area", self.where(ins, frame))
        return True

    def multiple(self, off):
        return off.c % 8 == 0 and all(x % 8 == 0 for x in off.m.values())

    # ---------------------------------------------------------------- block operations
    def memcpy(self, ev):
        st = ev.st
        if "seg" not in st.rs: return
        do, so = self.offset(ev.dst), self.offset(ev.src)
        if do is None and so is None: return
        n = self.lin(ev.n)
        w = (ev.frame, ev.ins)
        d = self.get(st)
        L = self.lin
        hdr = Lin(24) + L(self.cap["N"]).scale(8)
        if do: self.inside(st, do[1], n, *w, what="block write")
        if so: self.inside(st, so[1], n, *w, what="block read")
        if self.lost(st): return
        if do and so:
            a, b = do[1], so[1]
            if "memmove" not in ev.fname:
                if not (self.q(st, b - a - n) or self.q(st, a - b - n) or self.q(st, Lin(0) - n)):
                    self.report(ev, "overlapping-copy", "memcpy between overlapping parts of the segment")
                    return
            x, y = self.element0(st, a), self.element0(st, b)
            if x is not None and y is not None:
                if x.const == 0 and y.const == 1 and not d["shift"] and not d["upds"] and self.multiple(n):
                    self.put(st, shift=1, valid=term(Lin(n.c // 8, {z: v // 8 for z, v in n.m.items()})))
                elif x.const == 0 and y.const == 1 and self.known(n) and not self.multiple(n): self.report(ev, "sizes-not-moved", "%r bytes of the size table are moved, which is not a whole number of entries" % n)
                else: self.lose(st, "sizes moved in a way not understood", ev.where())
                return
            if self.q(st, a - hdr) and self.q(st, b - hdr):
                self.moved(ev, a - hdr, b - hdr, n)
                return
            self.report(ev, "wrong-area", "data is moved to offset %r, which is not in the data area" % a) if self.known(a) else self.lose(st, "move not understood", ev.where())
            return
        if do:
            a = do[1]
            if not self.q(st, a - hdr):
                if self.known(a): self.report(ev, "wrong-area", "data is written to offset %r, which can lie in the header or the size table" % a)
                else: self.lose(st, "write not understood", ev.where())
                return
            self.put(st, ins=d["ins"] + ((term(a - hdr), term(n), ev.src),))
            return
        a = so[1]
        self.put(st, outs=d["outs"] + ((term(a - hdr), term(n), ev.dst),))

    def element0(self, st, off):
        """index of an address in the table of sizes (its end included)"""
        if not self.multiple(off - Lin(24)): return None
        d = off - Lin(24)
        i = Lin(d.c // 8, {z: v // 8 for z, v in d.m.items()})
        if self.q(st, i) and self.q(st, self.lin(self.cap["N"]) - i) and not self.q(st, i - self.lin(self.cap["N"])): return i
        return None

    def moved(self, ev, dst, src, n):
        st = ev.st
        d = self.get(st)
        loc = self.lin(d["loc"])
        D = self.lin(PS(n_))
        if d["ins"]:
            self.lose(st, "data moved after a message was added", ev.where())
            return
        live = loc + D
        f = 0
        if self.q(st, loc - src) and self.q(st, src + n - live): pass
        else:
            p1 = self.lin(PS(C(1)))
            if self.q(st, loc + p1 - src) and self.q(st, src + n - live): f = 1
            elif self.known(src) and self.known(n) and not self.mute:
                self.report(ev, "partial-move", "the data that is moved (%r bytes from offset %r) is not all the data of the queue (%r bytes from offset %r)" % (n, src, D, loc))
                return
            else: return self.lose(st, "move not understood", ev.where())
        self.put(st, loc=term(loc - src + dst), first=max(f, d["first"]))

    def memset(self, ev):
        st = ev.st
        if "seg" not in st.rs: return
        o = self.offset(ev.dst)
        if o is None: return
        n = self.lin(ev.n)
        if not self.inside(st, o[1], n, ev.frame, ev.ins, "block write"): return self.put(st, lost=1)
        self.lose(st, "segment filled", ev.where())

    def extcall(self, ev):
        if "seg" not in ev.st.rs or not ev.call: return
        for a in ev.call.args:
            if type(a) is T and self.offset(a) is not None: self.lose(ev.st, "segment passed to " + (ev.call.nm.base if ev.call.nm else "?"), ev.where())

    # ---------------------------------------------------------------- loops
    def total(self, st, d, sub, k):
        """sum of the increments d over the first k iterations; sub: counter symbol -> its value at iteration k"""
        r = Lin(0, {k: 1}).scale(d.c)
        pos, neg = [], []
        for z, v in d.m.items():
            if type(z) is T and z.k == "seg" and z.a[0] == "PS": (pos if v > 0 else neg).append((z, v))
            elif type(z) is T and z in sub: return None
            elif type(z) is T and not any(x in z.syms for x in sub): r = r + (Lin(0, {("mul",) + tuple(sorted((z, k), key=str)): v}))
            else: return None
        if not pos and not neg: return r
        if len(pos) != 1 or len(neg) > 1: return None
        (p, c) = pos[0]
        hi = self.at_k(self.lin(p.a[1]), sub)
        if neg:
            if neg[0][1] != -c: return None
            lo = self.at_k(self.lin(neg[0][0].a[1]), sub)
        else: lo = Lin(0)
        if (hi - lo).const != 1 or hi.m.get(k) not in (1, -1): return None
        i = lo           # index read at iteration k
        i0 = Lin(i.c, {z: v for z, v in i.m.items() if z is not k})
        if i.m[k] == 1: a, b = i, i0
        else: a, b = i0 + Lin(1), i + Lin(1)
        return r + (self.lin(PS(term(a))) - self.lin(PS(term(b)))).scale(c)

    def at_k(self, l, sub):
        r = Lin(l.c)
        for z, v in l.m.items():
            r = r + (sub[z].scale(v) if z in sub else Lin(0, {z: v}))
        return r

    def loop(self, pre, back, sub, k):
        """own state at iteration k"""
        a, b = self.get(pre), self.get(back)
        if a == b: return {"seg": pre.rs["seg"]}
        diff = [f for f in FIELDS if a[f] != b[f]]
        d = dict(a)
        if diff == ["upds"] and len(b["upds"]) == len(a["upds"]) + 1 and not a["upds"] and not a["shift"]:
            i, v = b["upds"][-1]
            i, v = self.lin(i), self.lin(v)
            one = Lin(1)
            if v == self.lin(PS(term(i + one + one))) - self.lin(PS(term(i + one))):
                ik = self.at_k(i, sub)
                if ik == Lin(0, {k: 1}):
                    d.update(shift=1, valid=k)
                    return {"seg": self.pack(d)}
        d["lost"] = 1
        if not self.mute: self.notes.add("loop changes the segment in a way not understood")
        return {"seg": self.pack(d)}

    def unsummarised(self, st):
        if "seg" in st.rs: self.lose(st, "loop not summarised")

    # ---------------------------------------------------------------- results
    def exit(self, ev):
        st = ev.st
        if "seg" not in st.rs or ev.how != "ret": return
        op_ = self.E.root
        d = self.get(st)
        v = st.truth(ev.val) if ev.val is not None and (is_bool(ev.val) or isc(ev.val)) else None
        P = lambda i: self.E.params[i]
        L = self.lin
        N, S = L(self.cap["N"]), L(self.cap["S"])
        cap = S - Lin(24) - N.scale(8)
        n, D, one = L(n_), L(PS(n_)), Lin(1)
        if d["lost"]: return
        if op_ == "msgNumber":
            self.ok("number of messages", ev.where() if ev.ins else op_)
            if ev.val is not None and not self.qeq(st, L(ev.val), n): self.report(ev, "wrong-number", "the number of messages returned is %s" % show(ev.val), where=op_)
            self.unchanged(ev, d, op_)
            return
        if op_ == "checkSpaceSufficient":
            need = L(P(1))
            w = st.mem.get(P(2))
            self.unchanged(ev, d, op_)
            if v is True:
                self.ok("space is sufficient when it is said to be", op_)
                if not (self.q(st, N - n - one) and self.q(st, cap - D - need)): self.report(ev, "space-overestimated", "space is said to be sufficient when the queue can be full", where=op_)
            elif v is False:
                self.ok("space is insufficient when it is said to be", op_)
                if not self.contradicts(st, N - n - one, cap - D - need, need - one): self.report(ev, "space-underestimated", "space is said to be insufficient although the queue has room", where=op_)
                if w is not None and st.truth(not_(cmp_("eq", w, C(0)))) is False:
                    self.ok("a message is only said to be too large if it never fits", op_)
                    if not self.q(st, need - cap - one): self.report(ev, "never-fits", "a message that fits into an empty queue is said to be too large", where=op_)
            return
        if op_ == "pushBack":
            size, data = L(P(2)), P(1)
            if v is False:
                self.ok("refused push leaves the queue as it is", op_)
                self.consistent(ev, d, op_, n, 0, None)
                if not self.contradicts(st, N - n - one, cap - D - size, size - one): self.report(ev, "refused", "a message is refused although the queue has room for it", where=op_)
            elif v is True:
                self.ok("pushed message is the last one", op_)
                self.consistent(ev, d, op_, n + one, 0, size)
                if not self.q(st, size - one): self.report(ev, "empty-message", "a message without data is added", where=op_)
                ins = d["ins"]
                if len(ins) != 1:
                    self.report(ev, "not-stored" if not ins else "stored-twice", "the data of the message is copied into the queue %d times" % len(ins), where=op_)
                else:
                    a, l, src = ins[0]
                    if src is not data: self.report(ev, "wrong-source", "the data copied is not that of the message", where=op_)
                    if not self.qeq(st, L(l), size): self.report(ev, "wrong-length", "%r bytes are copied for a message of %r bytes" % (L(l), size), where=op_)
                    if not self.qeq(st, L(a), L(d["F"]) if self.q(st, n.scale(-1)) else L(d["loc"]) + D): self.report(ev, "wrong-place", "the message is stored at offset %r of the data area, the messages before it end at %r" % (L(a), L(d["loc"]) + D), where=op_)
            return
        if op_ == "popFront":
            buf, bsize, out = P(1), L(P(2)), P(3)
            w = st.mem.get(out)
            s0 = L(PS(C(1)))
            if v is False:
                self.ok("refused removal leaves the queue as it is", op_)
                self.consistent(ev, d, op_, n, 0, None)
                if not self.contradicts(st, n - one, bsize - s0): self.report(ev, "refused", "no message is returned although there is one and it fits into the buffer", where=op_)
                if d["outs"]: self.report(ev, "copied-on-failure", "data is copied although the removal is refused", where=op_)
                if self.q(st, n - one):
                    self.ok("size needed is reported", op_)
                    if w is None or not self.qeq(st, L(w), s0): self.report(ev, "size-not-reported", "the size needed for the message is not reported (%s)" % (show(w) if w is not None else "nothing"), where=op_)
                elif w is not None and self.q(st, n.scale(-1)) and not self.q(st, L(w).scale(-1)):
                    self.report(ev, "size-of-nothing", "a size is reported although the queue is empty", where=op_)
            elif v is True:
                self.ok("removed message is the oldest one", op_)
                if not self.q(st, n - one):
                    self.report(ev, "empty-queue", "a message is returned from a queue that can be empty", where=op_)
                    return
                outs = d["outs"]
                if len(outs) != 1: self.report(ev, "not-copied", "the data of the message is copied %d times" % len(outs), where=op_)
                else:
                    a, l, dst = outs[0]
                    if dst is not buf: self.report(ev, "wrong-target", "the data is not copied to the buffer of the caller", where=op_)
                    if not self.qeq(st, L(l), s0): self.report(ev, "wrong-length", "%r bytes are copied of a message of %r bytes" % (L(l), s0), where=op_)
                    if not self.qeq(st, L(a), L(F_)): self.report(ev, "wrong-place", "the message is read at offset %r of the data area, the oldest one is at %r" % (L(a), L(F_)), where=op_)
                    if not self.q(st, bsize - L(l)): self.report(ev, "buffer-overrun", "%r bytes are copied to a buffer of %r bytes" % (L(l), bsize), where=op_)
                if w is None or not self.qeq(st, L(w), s0): self.report(ev, "wrong-size", "the size returned is not that of the message", where=op_)
                self.consistent(ev, d, op_, n - one, 1, None)

    def contradicts(self, st, *extra):
        return self.poly(st, extra).empty()

    def unchanged(self, ev, d, op_):
        self.consistent(ev, d, op_, self.lin(n_), 0, None)

    def consistent(self, ev, d, op_, num, drop, add):
        """after the operation the queue holds num messages: those of before without the first drop, and one of size add"""
        st, L = ev.st, self.lin
        n, one = L(n_), Lin(1)
        left = n - Lin(drop)
        if not self.qeq(st, L(d["n"]), num):
            self.report(ev, "wrong-number", "afterwards the number of messages is %r instead of %r" % (L(d["n"]), num), where=op_)
            return
        empty = self.q(st, left.scale(-1))
        # sizes
        ups = list(d["upds"])
        if add is not None:
            hit = [u for u in ups if self.qeq(st, L(u[0]), n)]
            if not hit or not self.qeq(st, L(hit[-1][1]), add):
                self.report(ev, "size-not-recorded", "the size of the message is not recorded behind those of the others", where=op_)
            ups = [u for u in ups if u not in hit]
        for i, v in ups:
            i = L(i)
            if self.q(st, i - num): continue                                   # behind the last one
            if not d["shift"] and self.qeq(st, L(v), L(PS(term(i + Lin(1 + drop)))) - L(PS(term(i + Lin(drop))))): continue
            if not (self.known(i) and self.known(L(v))): return self.lose(st, "size table not understood")
            self.report(ev, "size-changed", "the recorded size of message %r is changed to %r" % (i, L(v)), where=op_)
        if not empty:
            if drop == 1 and not (d["shift"] and self.q(st, L(d["valid"]) - left)):
                if not self.covered(st, ups, left): self.report(ev, "sizes-not-moved", "the sizes of the remaining messages are not moved to the front", where=op_)
            if drop == 0 and d["shift"] and not self.q(st, L(d["valid"]).scale(-1)):
                self.report(ev, "sizes-moved", "the sizes of the messages are moved although none is removed", where=op_)
            if d["first"] > drop: self.report(ev, "data-dropped", "the data of the oldest message is overwritten", where=op_)
            at_ = L(d["loc"]) + (L(PS(C(1))) if drop else Lin(0))
            if not self.qeq(st, L(d["F"]), at_):
                self.report(ev, "front-wrong", "afterwards the front is recorded at offset %r, the oldest message is at %r" % (L(d["F"]), at_), where=op_)
        else:
            total = add if add is not None else Lin(0)
            cap = L(self.cap["S"]) - Lin(24) - L(self.cap["N"]).scale(8)
            if not self.q(st, L(d["F"]), cap - L(d["F"]) - total):
                self.report(ev, "front-wrong", "afterwards the front is recorded at offset %r, outside the data area" % L(d["F"]), where=op_)
            if add is not None and not self.qeq(st, L(d["F"]), L(d["loc"])) and d["ins"] and not self.qeq(st, L(d["F"]), L(d["ins"][0][0])):
                self.report(ev, "front-wrong", "afterwards the front is recorded at offset %r, the message is at %r" % (L(d["F"]), L(d["ins"][0][0])), where=op_)

    def covered(self, st, ups, left):
        """single updates that move every remaining size (queues of one or two messages)"""
        return False


class Creation(Rule):
    """what creating and opening a queue do with the memory they map"""
    name = "segment-creation"

    def __init__(self):
        super().__init__()
        self.maps = {}         # step -> set of lengths
        self.header = set()    # values recorded as size
        self.zero = set()
        self.fields = {}

    def handlers(self):
        return {"mmap": self.mmap, "ftruncate": self.trunc, "memset": self.memset, "store": self.store, "memcpy": self.memcpy, "exit": self.exit, "sem_post": self.post}

    def L(self, t): return affine.lin(t)

    def trunc(self, ev):
        if getattr(ev, "ok", True): ev.st.rs["trunc"] = ev.call.args[1]

    def mmap(self, ev):
        if not ev.ok: return
        n = ev.args[1]
        self.maps.setdefault(self.step, set()).add(n)
        ev.st.rs["map"] = (ev.ptr, n)
        self.ok("segment mapped", ev.where())
        if self.step == "create":
            t = ev.st.rs.get("trunc")
            if t is None or self.L(t) != self.L(n):
                d = (self.L(t) - self.L(n)) if t is not None else None
                if d is None or (d.const is not None and d.const < 0): self.report(ev, "smaller-than-mapped", "the segment is made %s bytes long and %s bytes of it are mapped" % (show(t) if t is not None else "an unknown number of", show(n)))
        if not (isc(ev.args[5]) and ev.args[5].a[0] == 0): self.report(ev, "mapping-offset", "the segment is not mapped from its beginning")
        fl, pr = ev.args[3], ev.args[2]
        if isc(fl) and not fl.a[0] & 1: self.report(ev, "not-shared", "the segment is not mapped as shared memory")
        if isc(pr) and pr.a[0] & 3 != 3: self.report(ev, "not-writable", "the segment is not mapped for reading and writing")

    def inmap(self, st, addr):
        m = st.rs.get("map")
        if m is None or base_of(addr) is not m[0]: return None
        l = self.L(addr) - self.L(m[0])
        return l, self.L(m[1])

    def memset(self, ev):
        m = self.inmap(ev.st, ev.dst)
        if m is None: return
        self.ok("initialised inside the segment", ev.where())
        end = m[0] + self.L(ev.n)
        d = m[1] - end
        if d.const is not None and d.const < 0: self.report(ev, "out-of-bounds", "%s bytes are set, the segment has %r" % (show(ev.n), m[1]))
        z = isc(ev.val) and ev.val.a[0] == 0
        zs = ev.st.rs.get("zeroed", ())
        if z and m[0].zero: ev.st.rs["zeroed"] = zs + (ev.n,)
        elif not z: ev.st.rs["zeroed"] = ()

    def memcpy(self, ev):
        for a in (ev.dst, ev.src):
            m = self.inmap(ev.st, a)
            if m is None: continue
            d = m[1] - m[0] - self.L(ev.n)
            if d.const is not None and d.const < 0: self.report(ev, "out-of-bounds", "%s bytes are copied, the segment has %r" % (show(ev.n), m[1]))

    def store(self, ev):
        m = self.inmap(ev.st, ev.addr)
        if m is None: return
        self.ok("initialised inside the segment", ev.where())
        h = dict(ev.st.rs.get("hdr", ()))
        if m[0].const is not None:
            h[m[0].const] = ev.val
            ev.st.rs["hdr"] = tuple(sorted(h.items()))

    def post(self, ev): pass

    def exit(self, ev):
        st = ev.st
        t = st.truth(ev.val) if ev.val is not None and (is_bool(ev.val) or isc(ev.val)) else None
        if self.step == "MessageQueue":
            for k, v in st.mem.items():
                if v.k == "param" and k.k in ("at", "param") and base_of(k).k == "param" and base_of(k).a[0] == "this": self.fields[v] = k
        if self.step != "create" or t is not True: return
        h = dict(st.rs.get("hdr", ()))
        m = st.rs.get("map")
        if m is None: return
        self.ok("header of a new queue", self.E.root)
        if 0 in h:
            self.header.add(h[0])
            d = self.L(m[1]) - self.L(h[0])
            if d.const is not None and d.const < 0: self.report(ev, "size-too-large", "the size recorded in the segment (%s) exceeds the mapping (%s)" % (show(h[0]), show(m[1])), where="create")
        else: self.report(ev, "size-not-recorded", "the size of the segment is not recorded in its header", where="create")
        zs = st.rs.get("zeroed", ())
        for off, what in ((8, "number of messages"), (16, "front")):
            if off in h:
                if not (isc(h[off]) and h[off].a[0] == 0): self.report(ev, "header", "a new queue has %s %s" % (what, show(h[off])), where="create")
            elif not any((self.L(z) - Lin(off + 8)).const is None or (self.L(z) - Lin(off + 8)).const >= 0 for z in zs):
                self.report(ev, "not-emptied", "the %s in the segment is not set to 0 when the queue is created, what an earlier process left there is kept" % what, where="create")
