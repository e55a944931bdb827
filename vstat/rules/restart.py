"""Queues of targets that were restarted or crashed: cached queues, opening, creating over leftovers."""
from terms import *
from engine import Rule
from rules.ipc import flat

ST_NLINK, ST_INO, ST_SIZE = 16, 8, 48          # struct stat, x86-64


def mentions(t, s):
    """does t, or the place that one of its symbols was loaded from, mention symbol s"""
    if type(t) is not T: return False
    if t is s: return True
    return any(mentions(x, s) for x in t.a)


def parts(c, val):
    """elementary conditions with their truth"""
    if c.k == "not": return parts(c.a[0], not val)
    if (c.k == "and" and val) or (c.k == "or" and not val): return parts(c.a[0], val) + parts(c.a[1], val)
    return [(c, val)]


class Stat(Rule):
    """what is learnt from fstat: st.rs['Rst'] = set of (descriptor, what, term)"""

    def handlers(self):
        return {"fstat": self.fstat, "assume": self.assume}

    def fstat(self, ev):
        st = ev.st
        st.rs["Rp"] = T("pend", ev.fd, ev.buf) if ev.ok else T("none")
        st.rs["Rst"] = frozenset(x for x in st.rs.get("Rst", frozenset()) if x[0] is not ev.fd) | {(ev.fd, "stat" if ev.ok else "gone", NULL)}

    def field(self, x, buf):
        """the field of struct stat that x is"""
        if x.k in ("zext", "sext", "cast", "trunc") and type(x.a[0]) is T: return self.field(x.a[0], buf)
        a = x.a[0] if x.k == "ld" else x.a[3] if x.k == "sym" and len(x.a) > 3 and type(x.a[3]) is T else None
        if a is None: return None
        for off in (ST_NLINK, ST_INO, ST_SIZE):
            if a is at(buf, off): return off
        return None

    def assume(self, ev):
        st = ev.st
        p = st.rs.get("Rp")
        if p is None or p.k != "pend": return
        fd, buf = p.a
        for c, v in parts(ev.cond, ev.val):
            if c.k != "cmp": continue
            pr, a, b = c.a
            fa, fb = self.field(a, buf), self.field(b, buf)
            f = fa if fa is not None else fb
            if f is None: continue
            o = b if fa is not None else a
            new = None
            if f == ST_NLINK:
                r = st.truth(cmp_("eq", a if fa is not None else b, C(0)))
                if r is False: new = "linked"
                elif r is True: new = "gone"
            elif f == ST_INO and pr == "eq": new = "linked" if v else "gone"
            elif f == ST_SIZE:
                if pr == "eq": new = "size" if v else "other"
                elif not v and fa is not None and pr in ("slt", "ult"): new = "atleast"
                elif v and fa is not None and pr in ("slt", "ult"): new = "other"
                elif not v and fb is not None and pr in ("slt", "ult"): new = "atmost"
                elif v and fb is not None: new = "atleast"
            if new: st.rs["Rst"] = st.rs.get("Rst", frozenset()) | {(fd, new, o)}

    def known(self, st, what, pred):
        return [x for x in st.rs.get("Rst", frozenset()) if x[1] in what and pred(x)]


class Cache(Stat):
    """queues taken out of a container that outlives the message"""
    name = "cached-queue"

    def __init__(self):
        super().__init__()
        self.suffix = {}          # container -> end of the names of its queues
        self.taken = 0

    def handlers(self):
        h = super().handlers()
        h.update({"elem": self.elem, "q_open": self.qopen, "q_lock": self.use, "q_push": self.use, "insert": self.insert, "remove": self.remove, "cvwait": self.over, "exit": self.over})
        return h

    def holds(self, ev):
        return any("MessageQueue" in str(t) for t in ev.targs or ())

    def elem(self, ev):
        if self.holds(ev) and ev.how in ("find", "index", "at"):
            st = ev.st
            self.ok("cached queue looked up", ev.where())
            rel = st.rs.get("Rel", frozenset())
            if not any(x[0] is ev.cont and x[1] is ev.key for x in rel):
                st.rs["Rst"] = frozenset()
                st.rs.pop("Rop", None)
            st.rs["Rel"] = rel | {(ev.cont, ev.key, ev.elem)}
            self.where_found = ev.where()

    def group(self, st, e):
        """all looked-up elements that are the same entry"""
        return [x[2] for x in st.rs.get("Rel", ()) if x[0] is e[0] and x[1] is e[1]]

    def dead(self, st, e):
        g = self.group(st, e)
        return self.known(st, ("gone", "other"), lambda x: any(mentions(x[0], y) for y in g))

    def qopen(self, ev):
        ev.st.rs["Rop"] = T("opened", ev.mq, ev.path)
        ev.st.rs.pop("Rgu", None)

    def use(self, ev):
        st = ev.st
        e = next((e for e in st.rs.get("Rel", ()) if mentions(ev.mq, e[2])), None)
        if e is None: return
        self.taken += 1
        self.ok("use of a cached queue", ev.where())
        g = self.group(st, e)
        fd = lambda x: any(mentions(x[0], y) for y in g)
        if not self.known(st, ("stat",), fd):
            if self.known(st, ("gone",), fd): self.report(ev, "dead-queue-used", "a cached queue is used although its descriptor can not be examined")
            else: self.report(ev, "cache-unchecked", "a cached queue of a target is used without examining whether it is still the one of the target")
            return
        if self.dead(st, e): self.report(ev, "dead-queue-used", "a cached queue is used although its target was restarted")
        elif not self.known(st, ("linked",), fd): self.report(ev, "cache-unchecked", "a cached queue of a target is used without examining whether its segment still has a name, the target may have been restarted")
        elif not self.known(st, ("size",), fd): self.report(ev, "size-unchecked", "a cached queue of a target is used without examining that its segment still has the size of the mapping, a restarted target may have resized it")

    def insert(self, ev):
        st = ev.st
        if not self.holds(ev): return
        op = st.rs.get("Rop")
        if op is None or ev.key is None: return
        fl = flat(op.a[1])
        if len(fl) != 2 or not isinstance(fl[1], str): return
        self.ok("queue put into the cache", ev.where())
        if fl[0] is not ev.key:
            self.report(ev, "wrong-key", "the queue named %s is cached under %s" % (show(op.a[1]), show(ev.key)))
        s = self.suffix.setdefault(ev.cont, {})
        s.setdefault(fl[1], ev.where())
        if len(s) > 1: self.report(ev, "mixed-cache", "queues with the different endings %s are kept in one container" % sorted(s))

    def remove(self, ev):
        if not self.holds(ev) and getattr(ev, "how", "") == "pop": self.over(ev)

    def over(self, ev):
        """the message that is being sent is done with"""
        st = ev.st
        for e in st.rs.get("Rel", ()):
            if self.dead(st, e):
                self.ok("restarted target", ev.where())
                if "Rop" not in st.rs:
                    self.report(ev, "not-reopened", "a message for a restarted target is given up without opening the new queue of the target", where=self.where_found)
        for k in ("Rel", "Rst", "Rop", "Rp"): st.rs.pop(k, None)


class Open(Stat):
    """MessageQueue::open: size of the object before mapping it, recorded size after it"""
    name = "open-checks"

    def __init__(self):
        super().__init__()
        self.n = 0

    def handlers(self):
        h = super().handlers()
        h.update({"mmap": self.mmap, "exit": self.exit})
        return h

    def same(self, a, b):
        from affine import lin
        if a is b: return True
        try: return (lin(a) - lin(b)).zero
        except Exception: return False

    def mmap(self, ev):
        st = ev.st
        if not ev.ok: return
        self.n += 1
        ln, fd = ev.args[1], ev.args[4]
        self.ok("mapping of an opened segment", ev.where())
        st.rs["Rm"] = T("map", ev.ptr, ln)
        if not self.known(st, ("size", "atleast"), lambda x: x[0] is fd and self.same(x[2], ln)):
            self.report(ev, "size-unchecked", "an existing segment is mapped without examining that it is as large as the mapping, accessing it may raise SIGBUS")

    def assume(self, ev):
        super().assume(ev)
        st = ev.st
        m = st.rs.get("Rm")
        if m is None: return
        for c, v in parts(ev.cond, ev.val):
            if c.k != "cmp": continue
            for a, b, left in ((c.a[1], c.a[2], True), (c.a[2], c.a[1], False)):
                ad = a.a[0] if a.k == "ld" else a.a[3] if a.k == "sym" and len(a.a) > 3 and type(a.a[3]) is T else None
                if ad is not m.a[0] or not self.same(b, m.a[1]): continue
                if c.a[0] == "eq" and v: new = {"le", "ge"}
                elif c.a[0] in ("slt", "ult") and not v: new = {"ge" if left else "le"}
                else: continue
                st.rs["Rh"] = st.rs.get("Rh", frozenset()) | new

    def exit(self, ev):
        st = ev.st
        if self.step != "open" or ev.val is None or st.truth(ev.val) is False: return
        self.ok("queue opened", self.E.root)
        m = st.rs.get("Rm")
        if m is None: return
        if len(st.rs.get("Rh", ())) == 2: return
        if self.known(st, ("size",), lambda x: self.same(x[2], m.a[1])): return
        self.report(ev, "layout-unchecked", "a queue is opened without examining that its creator made it with the same size, both sides may use different layouts", where=self.E.root)


class Create(Rule):
    """MessageQueue::create over the leftovers of a crashed process"""
    name = "create-recovers"

    def __init__(self, lock):
        super().__init__()
        self.lock = lock          # names of the lock
        self.n = 0

    def handlers(self):
        return {"sem_open": self.sem_open, "sem_unlink": self.unlink, "shm_unlink": self.unlink, "sem_wait": self.wait, "sem_post": self.post, "mmap": self.mmap, "memset": self.write, "store": self.store, "memcpy": self.write, "exit": self.exit}

    def unlink(self, ev): ev.st.rs["Ru"] = ev.st.rs.get("Ru", frozenset()) | {ev.name}

    def sem_open(self, ev):
        st = ev.st
        if ev.ok and ev.name in self.lock and self.step == "create":
            st.rs["Rl"] = T("lock", ev.ptr)
            st.rs["Rv"] = T("v", "free" if ev.name in st.rs.get("Ru", ()) or (isc(ev.args[1]) and ev.args[1].a[0] & 128) else "any")
            self.n += 1

    def mine(self, ev):
        l = ev.st.rs.get("Rl")
        return l is not None and l.a[0] is ev.sem and self.step == "create"

    def wait(self, ev):
        if not self.mine(ev): return
        st = ev.st
        self.ok("lock of a created queue taken", ev.where())
        if ev.fname == "sem_wait" and st.rs["Rv"].a[0] == "any":
            self.report(ev, "blocks", "the lock of a new queue is waited for without a time limit, a crashed process may have left it taken")
        v = st.rs["Rv"].a[0]
        if ev.ok or v == "any": st.rs["Rv"] = T("v", "taken")

    def post(self, ev):
        if not self.mine(ev): return
        st = ev.st
        self.ok("lock of a created queue released", ev.where())
        v = st.rs["Rv"].a[0]
        if v in ("any", "free", "over"): 
            self.report(ev, "lock-twice", "the lock of a new queue is released although it may be free, two processes can hold it at the same time")
            st.rs["Rv"] = T("v", "over")
        else: st.rs["Rv"] = T("v", "free")

    def mmap(self, ev):
        if ev.ok: ev.st.rs["Rm"] = T("map", ev.ptr)

    def write(self, ev): self.touch(ev, ev.dst)

    def store(self, ev): self.touch(ev, ev.addr)

    def touch(self, ev, a):
        st = ev.st
        m = st.rs.get("Rm")
        if m is None or base_of(a) is not m.a[0] or self.step != "create": return
        self.ok("segment cleared", ev.where())
        v = st.rs.get("Rv")
        if v is None or v.a[0] != "taken":
            self.report(ev, "cleared-unlocked", "the segment is written without the lock, peers of a crashed process may still be using it")

    def exit(self, ev):
        st = ev.st
        if self.step != "create" or ev.val is None or st.truth(ev.val) is False: return
        self.ok("queue created", self.E.root)
        v = st.rs.get("Rv")
        if v is None: return
        if v.a[0] == "taken": self.report(ev, "lock-kept", "the lock of a new queue is not released", where=self.E.root)
        elif v.a[0] == "any": self.report(ev, "lock-may-be-held", "the lock of a new queue may have been left taken by a crashed process, nobody will ever release it", where=self.E.root)
