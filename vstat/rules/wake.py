"""Wake-ups, shutdown and restart of the worker threads."""
from terms import *
from engine import Rule
from models import is_map
import re


def flag_of(E, st, cond):
    """shared flags that are known to be TRUE / FALSE once cond has been decided: (name, truth)"""
    out = []
    for s in cond.syms:
        if s.k == "sym" and len(s.a) > 3 and type(s.a[3]) is T and s.a[2] in ("int", "bool"):
            t = st.truth(not_(cmp_("eq", s, C(0)))) if s.a[2] == "int" else st.truth(s)
            if t is None and s.a[2] == "bool": t = st.truth(not_(cmp_("eq", s, C(0))))
            if t is not None: out.append((E.fullname(s.a[3]), t))
    return out


class Flags(Rule):
    """keeps rs['tf']: shared flags observed TRUE since the last wait"""
    def handlers(self):
        return {"assume": self.on_assume, "cvwait": self.clear_flags, "q_wait": self.clear_flags}

    def on_assume(self, ev):
        for n, t in flag_of(self.E, ev.st, ev.cond):
            if t: ev.st.rs["tf"] = ev.st.rs.get("tf", frozenset()) | {n}
            elif ev.st.locks: ev.st.rs["ff"] = ev.st.rs.get("ff", frozenset()) | {n}

    def clear_flags(self, ev):
        if "tf" in ev.st.rs: ev.st.rs["tf"] = frozenset()
        if ev.kind == "cvwait": ev.st.rs.pop("ff", None)

    def unlooked(self, ev):
        """a wait begins although nothing was found unset since the mutex was locked: what was set before is not seen"""
        own = self.E.fullname(ev.cv).split("/")[0]
        return not ev.pred and not any(n.split("/")[0] == own for n in ev.st.rs.get("ff", ()))

    def relocked(self, ev): ev.st.rs.pop("ff", None)


class WorkerInfo(Flags):
    """first pass over a thread procedure: what it waits for, what it drains, which flags end it"""
    name = "worker"

    def __init__(self):
        super().__init__()
        self.cvs, self.queues, self.drained, self.unset, self.loaded = set(), set(), set(), set(), set()
        self.timed = True
        self.exits = []
        self.allexits = 0

    def handlers(self):
        h = super().handlers()
        h.update({"cvwait": self.cv, "q_wait": self.qw, "elem": self.elem, "swap": self.swap, "store": self.store, "exit": self.exit, "blocking": self.block, "load": self.load})
        return h

    def cv(self, ev):
        self.cvs.add(self.E.fullname(ev.cv))
        if not ev.timed: self.timed = False
        self.clear_flags(ev)

    def qw(self, ev):
        self.queues.add(qname(self.E, ev.mq))
        self.clear_flags(ev)

    def block(self, ev):
        if not ev.timed and ev.what != "thread::join": self.timed = False

    def elem(self, ev):
        if self.E.shared(ev.st, ev.cont) and ev.how == "front" and not (ev.cls and is_map(ev.cls)): self.drained.add(self.E.fullname(ev.cont))

    def swap(self, ev):
        for c in (ev.cont, ev.other):
            if self.E.shared(ev.st, c): self.drained.add(self.E.fullname(c))

    def load(self, ev):
        self.loaded.add(self.E.fullname(ev.addr))

    def store(self, ev):
        if ev.val is FALSE and self.E.shared(ev.st, ev.addr): self.unset.add(self.E.fullname(ev.addr))

    def exit(self, ev):
        self.allexits += 1
        if ev.how == "ret":
            tf = ev.st.rs.get("tf", frozenset())
            if tf: self.exits.append(tf)

    def exit_flags(self):
        return frozenset.intersection(*self.exits) if self.exits else frozenset()

    def signal_flags(self):
        return frozenset(f for f in self.unset if f in self.loaded and not f.endswith("[]")) - self.exit_flags() if self.cvs else frozenset()


def qname(E, mq):
    """the field that holds the pointer to a queue"""
    if mq.k == "ld": return E.fullname(mq.a[0])
    return show(mq)


class Wake(Flags):
    name = "wake"

    def __init__(self, infos):
        super().__init__()
        self.infos = infos           # root name -> WorkerInfo
        self.by_cont = {}
        for n, i in infos.items():
            if not i.cvs: continue
            fl = i.signal_flags()
            own = {f.split("/")[0] for f in fl}
            cvs = frozenset(c for c in i.cvs if c.split("/")[0] in own) or frozenset(i.cvs)
            for c in i.drained: self.by_cont.setdefault(c, []).append((fl, cvs, n))

    def handlers(self):
        h = super().handlers()
        h.update({"insert": self.insert, "store": self.store, "cvnotify": self.notify, "unlock": self.unlock, "exit": self.exit, "cvwait": self.cvwait,
                  "empty": self.empty, "swap": self.swap, "q_push": self.push, "q_notify": self.qnotify, "q_unlock": self.qunlock, "q_wait": self.qwait,
                  "q_num": self.qnum, "q_pop": self.qpop, "msgpack": self.msgpack, "caught": self.caught, "iter_end": self.iter_end})
        return h

    def g(self, st, k): return st.rs.get("w" + k, frozenset())

    def s(self, st, k, v):
        if v: st.rs["w" + k] = frozenset(v)
        else: st.rs.pop("w" + k, None)

    # ---- producers: an element put into a queue is announced
    def insert(self, ev):
        c = self.E.fullname(ev.cont)
        for fl, cvs, w in self.by_cont.get(c, ()):
            self.ok("message queued for " + w.split("::")[-1], ev.where())
            if any(cv in cvs and lk for cv, lk in self.g(ev.st, "sig")): continue
            # the queue was not empty in this critical section: the worker has yet to see it empty
            if any(n2 == c and lk for n2, lk in self.g(ev.st, "sig")): continue
            self.s(ev.st, "pend", self.g(ev.st, "pend") | {(c, fl, cvs, ev.where())})

    def store(self, ev):
        st = ev.st
        n = self.E.fullname(ev.addr)
        if isc(ev.val) and ev.val.a[0] == 1:
            self.s(st, "set", self.g(st, "set") | {n})
            p = self.g(st, "pend")
            if p: self.s(st, "pend", {(c, frozenset() if n in fl else fl, cvs, w) for c, fl, cvs, w in p})
        elif ev.val is FALSE:
            self.s(st, "set", self.g(st, "set") - {n})
            i = self.infos.get(ev.E.root)
            if i and n in i.signal_flags():
                self.ok("wake-up consumed", ev.where())
                self.s(st, "need", {(c, n, ev.where()) for c in i.drained})
                st.rs.pop("tf", None)

    def notify(self, ev):
        st = ev.st
        n = self.E.fullname(ev.cv)
        p = self.g(st, "pend")
        if p: self.s(st, "pend", {x for x in p if not (n in x[2] and not x[1])})
        setf = self.g(st, "set")
        fl = [f for i in self.infos.values() if n in i.cvs for f in i.signal_flags()]
        if not fl or any(f in setf for f in fl):
            self.s(st, "sig", self.g(st, "sig") | {(n, frozenset(l for l in st.locks))})

    def unlock(self, ev):
        self.relocked(ev)
        s = self.g(ev.st, "sig")
        if s:
            k = (ev.lk, ev.mutex)
            s = {(n, l - {k}) for n, l in s}
            self.s(ev.st, "sig", {x for x in s if x[1]})

    # ---- consumers: after consuming the wake-up, the queue is drained before the next wait
    def seen(self, st, cont):
        n = self.g(st, "need")
        if n:
            c = self.E.fullname(cont)
            self.s(st, "need", {x for x in n if x[0] != c})

    def empty(self, ev):
        if ev.result: self.seen(ev.st, ev.cont)
        elif ev.st.locks and self.E.fullname(ev.cont) in self.by_cont:
            self.s(ev.st, "sig", self.g(ev.st, "sig") | {(self.E.fullname(ev.cont), frozenset(ev.st.locks))})

    def iter_end(self, ev):
        pass

    def swap(self, ev):
        self.seen(ev.st, ev.cont)
        self.seen(ev.st, ev.other)

    def cvwait(self, ev):
        i = self.infos.get(ev.E.root)
        own = self.E.fullname(ev.cv).split("/")[0]
        if i and any(f.split("/")[0] == own for f in i.signal_flags()):
            self.ok("waits with an empty queue", ev.where())
            tf = ev.st.rs.get("tf", frozenset())
            for c, f, w in sorted(self.g(ev.st, "need")):
                if not (tf - {f}):
                    self.report(ev, "lost-wakeup", "the worker consumes its wake-up (%s at %s) and waits again without having seen %s empty afterwards, a message queued in between stays there" % (f, w, c))
            self.s(ev.st, "need", ())
            if self.unlooked(ev): self.report(ev, "lost-wakeup", "the worker begins to wait without looking whether it was signalled already")
        self.pushed(ev)
        self.clear_flags(ev)

    # ---- messages in the shared queue
    def push(self, ev):
        if not ev.ok: return
        self.ok("message pushed", ev.where())
        if ev.mq in self.g(ev.st, "qsig"): return
        self.s(ev.st, "qpend", self.g(ev.st, "qpend") | {(ev.mq, ev.where())})

    def qnotify(self, ev):
        st = ev.st
        self.s(st, "qpend", {x for x in self.g(st, "qpend") if x[0] is not ev.mq})
        if ("rw", ev.mq) in st.locks: self.s(st, "qsig", self.g(st, "qsig") | {ev.mq})
        self.s(st, "got", {x for x in self.g(st, "got") if x[0] is not ev.mq})

    def qunlock(self, ev):
        self.s(ev.st, "qsig", {x for x in self.g(ev.st, "qsig") if x is not ev.mq})

    def pushed(self, ev):
        for mq, w in sorted(self.g(ev.st, "qpend"), key=lambda x: x[1]):
            self.report(ev, "push-not-announced", "a message is pushed into the shared queue at %s but its reader is not notified" % w, where=w)
        self.s(ev.st, "qpend", ())

    def qwait(self, ev):
        self.settle(ev)
        self.pushed(ev)
        if ev.ok:
            self.ok("read signal consumed", ev.where())
            self.s(ev.st, "got", {(ev.mq, "signal", NULL)})
        self.clear_flags(ev)

    def qnum(self, ev):
        self.s(ev.st, "got", {(m, s, ev.num) if m is ev.mq and s == "signal" else (m, s, n) for m, s, n in self.g(ev.st, "got")})

    def qpop(self, ev):
        out = set()
        for m, s, n in self.g(ev.st, "got"):
            if m is not ev.mq: out.add((m, s, n)); continue
            if ev.ok or ev.written is FALSE or (isc(ev.written) and ev.written.a[0] <= 0): continue
            if s == "grown": continue       # the second attempt has room for the message
            out.add((m, "toosmall", n))
        self.s(ev.st, "got", out)

    def msgpack(self, ev):
        if ev.meth == "reserve_buffer":
            self.s(ev.st, "got", {(m, "grown" if s == "toosmall" else s, n) for m, s, n in self.g(ev.st, "got")})

    def caught(self, ev):
        if ev.exc == ("bad_alloc",): self.s(ev.st, "got", ())

    def settle(self, ev):
        st = ev.st
        tf = st.rs.get("tf", frozenset())
        i = self.infos.get(ev.E.root)
        stop = i.exit_flags() if i else frozenset()
        for m, s, n in sorted(self.g(st, "got"), key=lambda x: x[1]):
            if tf & stop: continue
            if n is not NULL:
                lo, hi = st.range(n)
                if hi is not None and hi <= 0: continue
                if st.truth(cmp_("slt", C(0), n)) is False: continue
            if s == "toosmall" or s == "grown":
                self.report(ev, "message-stuck", "a message larger than the buffer is left in the queue without a read signal, nobody will take it out")
            else:
                self.report(ev, "signal-lost", "the worker consumes a read signal and goes on without taking a message out, the message stays queued and nobody is told", )
        self.s(st, "got", ())

    def exit(self, ev):
        if ev.how != "ret": self.s(ev.st, "got", ())
        self.settle(ev)
        self.pushed(ev)
        for c, fl, cvs, w in sorted(self.g(ev.st, "pend"), key=lambda x: x[3]):
            self.report(ev, "insert-not-announced", "a message is put into %s at %s but the worker that waits for it is not woken (%s)" % (c, w, "its flag is not set" if fl else "no notification after the flag is set"), where=w)
        for k in ("pend", "set", "sig", "need", "qpend", "qsig"): self.s(ev.st, k, ())


def workers(ctx):
    """WorkerInfo of every thread procedure"""
    out = {}
    for n, f, _ in ctx.W.thread_roots():
        i = WorkerInfo()
        ctx.root([i], n, f)
        out[n] = i
    return out
