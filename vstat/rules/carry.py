"""Messages between issue and delivery: their bytes, and how long they wait for space."""
from terms import *
from engine import Rule
from rules.wake import flag_of
from affine import lin, Lin, atoms


def load_of(t):
    """(object, offset) of a value read from an object taken from a container"""
    if t.k != "ld": return None
    a = t.a[0]
    b, o = (a.a[0], a.a[1]) if a.k == "at" else (a, 0)
    return (b, o) if b.k == "sym" and b.a[2] == "elem" else None


class SpaceWait(Rule):
    """a sending thread waits for space in a queue until the limit of the message has passed, no longer and no shorter"""
    name = "space-wait"

    def __init__(self, limits=None):
        super().__init__()
        self.limits = {}            # type of queued message -> set of offsets that make up its limit
        self.types = {}
        self.full = 0

    def handlers(self):
        return {"q_space": self.space, "q_lock": self.lock, "gettime": self.time, "assume": self.assume, "cvwait": self.wait, "blocking": self.block, "free": self.free,
                "elem": self.elem}

    def elem(self, ev):
        if ev.how == "front" and ev.elem.k == "sym" and ev.targs:
            self.types[ev.elem.a[0]] = ev.targs[0]
            self.given_up(ev)

    def s(self, st, v=None):
        if v is None: return st.rs["W"].a[0] if "W" in st.rs else ""
        for k in ("W", "Wexp", "Wff", "Wtf", "Wt"): st.rs.pop(k, None)
        if v: st.rs["W"] = T("lit", v)

    def space(self, ev):
        st = ev.st
        self.again(ev)
        self.s(st, "full" if not ev.ok and ev.waitable else "never" if not ev.ok else "")
        if not ev.ok and ev.waitable: self.full += 1

    def again(self, ev):
        st = ev.st
        if self.s(st) in ("full", "waited"):
            self.ok("another attempt to find space", ev.where())
            x = st.rs.get("Wexp")
            if x is None: self.report(ev, "no-limit", "the space in the queue is looked at again without checking whether the time limit of the message has passed")
            elif x.a[0] == "yes": self.report(ev, "waits-too-long", "the space in the queue is looked at again although the time limit of the message has passed")
            if "Wff" not in st.rs and self.s(st) == "waited": self.report(ev, "stop-ignored", "the wait for space goes on without checking whether the instance is uninitialised")

    def time(self, ev):
        if self.s(ev.st): ev.st.rs["Wt"] = T("now", ev.sec, ev.nsec, ev.unit)

    def assume(self, ev):
        st = ev.st
        if self.s(st) not in ("full", "waited"): return
        for n, t in flag_of(self.E, st, ev.cond):
            st.rs["Wtf" if t else "Wff"] = TRUE
        c, v = ev.cond, ev.val
        while c.k == "not": c, v = c.a[0], not v
        if c.k != "cmp" or c.a[0] not in ("slt", "ult"): return
        if "Wexp" in st.rs and st.rs["Wexp"].a[0] in ("yes", "no"): return
        D = lin(c.a[1]) - lin(c.a[2])
        at_ = atoms(D)
        t = st.rs.get("Wt")
        if t is None: return
        sec, nsec = t.a[0], t.a[1]
        if sec not in at_ and nsec not in at_: return
        self.ok("time limit of the wait for space", ev.where())
        lds = {x: load_of(x) for x in at_}
        if any(x.k == "op" or (x not in (sec, nsec) and lds[x] is None and not (x.k == "sym" and x.a[2] == "int")) for x in at_):
            st.rs["Wexp"] = T("lit", "?")
            return
        K = 10 ** 9 // t.a[2]
        sign = 1 if D.m.get(sec, 0) > 0 else -1
        R = D.scale(sign)
        want = Lin(R.c, {sec: K, nsec: 1})
        offs, bad = set(), False
        objs = set()
        for x in at_:
            if x in (sec, nsec): continue
            if lds[x] is None or R.m.get(x) != -1: bad = True
            else:
                offs.add(lds[x][1])
                objs.add(lds[x][0])
                want = want - Lin(0, {x: 1})
        if not bad and len(objs) == 1 and abs(R.c) * 1000 > K: return        # something else than the limit
        if bad or len(objs) != 1 or not (R - want).zero:
            self.report(ev, "wrong-limit", "the time that a message waits for space is not the time since it was issued, or its limit is not its own: %s is compared with %s" % (show(c.a[1]), show(c.a[2])))
            st.rs["Wexp"] = T("lit", "?")
            return
        o = next(iter(objs))
        ty = self.types.get(o.a[0])
        if ty: self.limits.setdefault(ty, {}).setdefault(frozenset(offs), ev.where())
        # D < 0  <=>  sign * R < 0
        expired = (not v) if sign > 0 else v
        st.rs["Wexp"] = T("lit", "yes" if expired else "no")

    def wait(self, ev):
        st = ev.st
        if self.s(st) != "full": return
        self.ok("wait for space", ev.where())
        x = st.rs.get("Wexp")
        if x is not None and x.a[0] == "yes": return        # another attempt after this is reported
        if not ev.timed: self.report(ev, "no-limit", "the thread waits for space without a time limit: nobody tells it when there is some")
        st.rs["W"] = T("lit", "waited")
        st.rs.pop("Wff", None)

    def block(self, ev):
        if ev.what.startswith("MessageQueue"): return
        if self.s(ev.st) == "full": ev.st.rs["W"] = T("lit", "waited")

    def lock(self, ev):
        st = ev.st
        if self.s(st) in ("full", "waited") and not ev.ok: self.s(st, "nolock")
        elif self.s(st) == "waited" and "Wff" not in st.rs:
            self.report(ev, "stop-ignored", "the wait for space goes on without checking whether the instance is uninitialised")
            st.rs["Wff"] = TRUE

    def free(self, ev):
        if load_of(ev.ptr) is not None: self.given_up(ev)

    def given_up(self, ev):
        st = ev.st
        if self.s(st) in ("full", "waited"):
            self.ok("message given up", ev.where())
            x = st.rs.get("Wexp")
            if (x is None or x.a[0] == "no") and "Wtf" not in st.rs:
                self.report(ev, "gives-up-early", "the message is given up although the queue will have space again and %s" % ("its time limit is not looked at" if x is None else "its time limit has not passed"))
        self.s(st, "")


class Released(Rule):
    """which fields of queued messages are buffers: those that are released after the message was taken from its queue"""
    name = "released"

    def __init__(self):
        super().__init__()
        self.types, self.offs = {}, {}

    def handlers(self): return {"elem": self.elem, "free": self.free}

    def elem(self, ev):
        if ev.elem is not None and ev.elem.k == "sym" and ev.targs: self.types[ev.elem.a[0]] = ev.targs[0]

    def free(self, ev):
        x = load_of(ev.ptr)
        if x is not None and x[0].a[0] in self.types: self.offs.setdefault(self.types[x[0].a[0]], set()).add(x[1])


class Carry(Rule):
    """the buffer of a queued message holds the whole message, and its limit counts from its issue"""
    name = "carry"

    def __init__(self, limits, fixed=None, buffers=()):
        super().__init__()
        self.limits = limits
        self.fixed = fixed
        self.buffers = dict(buffers)      # type -> offsets of pointers that whoever takes the message releases
        self.n = 0

    def handlers(self): return {"malloc": self.malloc, "memcpy": self.memcpy, "insert": self.insert, "anycall": self.anycall, "store": self.store, "free": self.free}

    FILLED = T("lit", "filled")

    def filled(self, st, p):
        """written in another way than by a copy that can be compared"""
        b = base_of(p)
        for x in st.rs.get("K", frozenset()):
            if x[0] is b and x[2] is NULL: self.keep(st, x, (x[0], x[1], self.FILLED, NULL))

    def keep(self, st, x, y):
        K = st.rs["K"] - {x} | ({y} if y else frozenset())
        if K: st.rs["K"] = K
        else: st.rs.pop("K", None)

    def anycall(self, ev):
        if "K" not in ev.st.rs or ev.call.nm.base in ("memcpy", "malloc", "calloc", "realloc", "free", "memset"): return
        for a in ev.call.args:
            if type(a) is T: self.filled(ev.st, a)

    def store(self, ev):
        if "K" in ev.st.rs: self.filled(ev.st, ev.addr)

    def free(self, ev):
        for x in ev.st.rs.get("K", frozenset()):
            if x[0] is ev.ptr: self.keep(ev.st, x, None)

    def malloc(self, ev):
        if ev.ptr is None or ev.ptr.k != "sym": return
        ev.st.rs["K"] = frozenset(x for x in ev.st.rs.get("K", frozenset()) if x[0] is not ev.ptr) | {(ev.ptr, ev.size, NULL, NULL)}

    def memcpy(self, ev):
        st = ev.st
        b = base_of(ev.dst)
        for x in st.rs.get("K", frozenset()):
            if x[0] is not b: continue
            self.ok("message copied into its buffer", ev.where())
            d = lin(ev.dst) - lin(b) + lin(ev.n) - lin(x[1])
            if not isc(x[1]) and x[1].k in ("sym", "ld", "mp", "param") and self.unrelated(st, x[1], ev.n) or d.const is not None and d.const > 0 or (isc(x[1]) and not isc(ev.n) and not (st.range(ev.n)[1] is not None and st.range(ev.n)[1] <= x[1].a[0])):
                self.report(ev, "buffer-too-small", "%s bytes are copied into a buffer of %s" % (show(ev.n), show(x[1])))
            st.rs["K"] = st.rs["K"] - {x} | {(x[0], x[1], ev.n, ev.src)}

    def unrelated(self, st, size, n):
        """nothing is known about how the size of the buffer and the number of bytes compare"""
        if n is size or isc(n) or size in atoms(lin(n)) or n.k not in ("sym", "ld", "mp", "param"): return False
        return all(st.truth(T("cmp", p, a, b)) is None for p in ("slt", "ult") for a, b in ((size, n), (n, size)))

    def fields_of(self, st, e, src):
        out = {}
        for y in (src, e):
            if y is None: continue
            for k, v in st.mem.items():
                if k is y: out[0] = v
                elif k.k == "at" and k.a[0] is y: out[k.a[1]] = v
        return out

    def insert(self, ev):
        st = ev.st
        if not ev.targs or ev.elem is None or ev.elem.k != "sym" or base_of(ev.cont).k == "al": return
        ty = ev.targs[0]
        sd = self.E.P.struct_of(ty)
        if not sd: return
        f = self.fields_of(st, ev.elem, ev.src)
        K = {x[0]: x for x in st.rs.get("K", frozenset())}
        ptrs = {o: v for o, v in f.items() if v in K}
        for o in self.buffers.get(ty, ()):
            v = f.get(o)
            if v is None or isc(v) or v in K or v.k == "ld" or (v.k == "sym" and not (len(v.a) > 2 and v.a[2] == "ptr")): continue
            self.report(ev, "not-own", "the buffer of the queued message is not its own but %s, and whoever takes the message releases it" % show(v))
        for o, v in sorted(ptrs.items()):
            self.n += 1
            p, size, n, src = K[v]
            self.keep(st, K[v], None)
            if n is self.FILLED: continue
            self.ok("queued message with its bytes", ev.where())
            sizes = [x for o2, x in f.items() if o2 != o and x.k in ("mp", "op") or (x is n)]
            if n is NULL:
                empty = size.k == "mp" and st.truth(cmp_("eq", T("mp", "data", *size.a[1:]), NULL))     # a packed buffer without storage
                if not (isc(size) and size.a[0] == 0) and not empty: self.report(ev, "not-copied", "the buffer of the queued message was not filled with the message")
                continue
            if src.k == "mp" and src.a[0] == "data":
                whole = T("mp", "size", *src.a[1:])
                if n is not whole:
                    d = lin(n) - lin(whole)
                    self.report(ev, "cut", "%s bytes of a message of %s are put into the buffer" % (show(n), show(whole))) if d.const is not None or n.k != "sym" else None
            elif src.k in ("at", "ix"): self.report(ev, "cut", "the message is not copied from its beginning")
            if not any((lin(x) - lin(n)).zero for o2, x in f.items() if o2 != o):
                self.report(ev, "size-differs", "the size recorded with the queued message is not the number of bytes in its buffer (%s)" % show(n))
        self.timing(ev, ty, f)

    def timing(self, ev, ty, f):
        for offs, where in self.limits.get(ty, {}).items():
            vals = [f.get(o) for o in offs]
            if any(v is None for v in vals):
                self.report(ev, "limit-unset", "the time limit of the queued message is not set completely")
                continue
            self.ok("limit of a queued message", ev.where())
            s = Lin(0)
            for v in vals: s = s + lin(v)
            secs = [x for x in atoms(s) if x.k == "sym" and len(x.a) > 1 and str(x.a[0]).endswith("s")]
            par = [x for x in atoms(s) if x.k == "param"]
            rest = [x for x in atoms(s) if x not in secs and x not in par]
            if len(secs) != 1 or len(par) > 1:
                if not secs: self.report(ev, "limit-start", "the time limit of the queued message does not begin when it is issued (%r)" % s)
                continue
            K = s.m[secs[0]]
            if par:
                if s.m[par[0]] * 1000 != K: self.report(ev, "limit-unit", "the time limit of the queued message is %g s for each millisecond that was asked for" % (s.m[par[0]] / K))
                elif s.c: self.report(ev, "limit-unit", "the time limit of the queued message differs by %g s from the one that was asked for" % (s.c / K))
            elif self.fixed is not None and s.c * 1000 != self.fixed * K:
                self.report(ev, "limit-unit", "the time limit of the queued message is %g ms instead of %d ms" % (s.c * 1000 / K, self.fixed))
