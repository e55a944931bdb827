"""Timed waits: deadline computed for the operating system, retry after interruption, result."""
from terms import *
from engine import Rule
from rules.wake import Flags
from affine import lin, Lin, atoms
import re

EINTR = 4


class SemTiming(Rule):
    """one function that waits on a semaphore for a given number of milliseconds"""
    name = "timing"

    def __init__(self, req, unsigned, limited=True):
        super().__init__()
        self.req = req                # term of the requested time in ms, None = no limit
        self.unsigned = unsigned
        self.nwaits = 0
        self.labels = set()

    def handlers(self):
        return {"gettime": self.gettime, "sem_wait": self.wait, "exit": self.exit}

    def start(self, st, root):
        if self.unsigned: st.rng[self.req] = (0, None)

    def gettime(self, ev):
        st = ev.st
        self.labels |= {ev.sec.a[0], ev.nsec.a[0]}
        if "C0" not in st.rs:
            st.rs["C0"] = T("now", ev.sec, ev.nsec, ev.unit)
            st.rs["Cclk"] = ev.clk

    def wait(self, ev):
        st = ev.st
        self.nwaits += 1
        f = ev.fname
        if ev.ok: st.rs["Clast"] = T("w", f, "ok")
        else: st.rs["Clast"] = T("w", f, {EINTR: "eintr", 110: "timeout"}.get(ev.err, "other"))
        if not ev.ok: return
        if self.req is None:
            if f != "sem_wait": self.report(ev, "limited", "a wait without time limit uses %s" % f)
            return
        neg = st.truth(cmp_("slt", self.req, C(0)))
        if f == "sem_wait":
            self.ok("wait without limit only for negative times", ev.where())
            if neg is not True: self.report(ev, "no-limit", "the wait has no time limit although the requested time may be zero or more")
            return
        if f == "sem_trywait": return
        if f not in ("sem_timedwait", "sem_clockwait"): return
        self.ok("deadline of a timed wait", ev.where())
        if neg is not False:
            lo, hi = st.range(self.req)
            if lo is None or lo < 0: self.report(ev, "limited", "the wait has a time limit although the requested time may be negative, which means none")
        clk = C(0) if f == "sem_timedwait" else ev.args[1]
        c0 = st.rs.get("Cclk")
        if c0 is not None and isc(c0) and isc(clk) and c0 is not clk:
            self.report(ev, "wrong-clock", "the deadline is taken from clock %s, the wait compares it with clock %s" % (show(c0), show(clk)))
        ts = ev.args[1 if f == "sem_timedwait" else 2]
        sec, nsec = st.mem.get(ts), st.mem.get(at(ts, 8))
        t0 = st.rs.get("C0")
        if sec is None or nsec is None or t0 is None: return
        total = lin(sec).scale(10 ** 9) + lin(nsec)
        diff = total - Lin(0, {t0.a[0]: 10 ** 9, t0.a[1]: t0.a[2], self.req: 10 ** 6})
        if any(x is not self.req and not (x.k == "sym" and x.a[0] in self.labels) for x in atoms(total)): return    # not understood
        if not diff.zero:
            if atoms(total) - {t0.a[0], t0.a[1], self.req}: self.report(ev, "deadline-moved", "after an interruption the deadline is computed again from the current time, the wait takes longer than asked")
            else: self.report(ev, "wrong-deadline", "the deadline is not the current time plus the requested time: off by %s ns" % diff)
            return
        else:
            lo, hi = st.range(nsec)
            if (lo is not None and hi is not None and (lo < 0 or hi > 999999999)) or (hi is None and not has_mod(nsec)):
                self.report(ev, "nanoseconds-range", "the nanoseconds of the deadline may be outside of 0..999999999 (%s..%s), the wait fails at once" % (lo, hi))

    def exit(self, ev):
        st = ev.st
        w = st.rs.get("Clast")
        if w is None or ev.how != "ret": return
        f, r = w.a
        self.ok("result of the wait", ev.where() if ev.ins else self.E.root)
        if r == "eintr": self.report(ev, "cut-short", "the wait ends when a signal interrupts it", where=self.E.root)
        if ev.val is None: return
        t = st.truth(ev.val)
        if r == "ok" and t is False: self.report(ev, "signal-lost", "the semaphore was decremented, but failure is returned", where=self.E.root)
        if r != "ok" and t is True: self.report(ev, "false-success", "success is returned although the wait failed", where=self.E.root)
        if r in ("timeout", "other") and f == "sem_trywait" and t is False and self.req is not None:
            if st.truth(cmp_("eq", self.req, C(0))) is not True: self.report(ev, "gives-up", "failure is returned without waiting for the requested time", where=self.E.root)


def has_mod(t):
    if type(t) is not T: return False
    if t.k == "op" and t.a[0] in ("srem", "urem", "and", "sub"): return True
    return any(has_mod(x) for x in t.a)


class EventTiming(Flags):
    """Event::wait: predicate or loop around the wait, time passed on in the right unit, result"""
    name = "event-timing"
    SCALE = {"std::ratio<1l,1000000000l>": 1, "std::ratio<1l,1000000l>": 1000, "std::ratio<1l,1000l>": 10 ** 6, "std::ratio<1l,1l>": 10 ** 9, "std::ratio<60l,1l>": 60 * 10 ** 9}

    def __init__(self, req):
        super().__init__()
        self.req = req

    def handlers(self):
        h = super().handlers()
        h.update({"cvwait": self.cv, "exit": self.exit, "unlock": self.relocked})
        return h

    def cv(self, ev):
        st = ev.st
        if self.unlooked(ev): self.report(ev, "begins-blind", "the wait begins without looking whether the event is set already")
        self.clear_flags(ev)
        st.rs["Vw"] = T("cvw", ev.timed, bool(ev.pred), bool(ev.timed and self.E.used(ev.frame.fn, ev.ins)))
        neg = st.truth(cmp_("slt", self.req, C(0)))
        self.ok("wait of an event", ev.where())
        if not ev.timed:
            if neg is not True: self.report(ev, "no-limit", "the wait has no time limit although the requested time may be zero or more")
            return
        if neg is not False: self.report(ev, "limited", "the wait has a time limit although the requested time may be negative, which means none")
        d = getattr(ev, "dur", None)
        if d is None: return
        t = lin(d[0]).scale(d[1])
        if atoms(t) <= {self.req} and not (t - Lin(0, {self.req: 10 ** 6})).zero:
            self.report(ev, "wrong-time", "the wait lasts %s ns instead of %s ms" % (t, show(self.req)))

    def exit(self, ev):
        st = ev.st
        w = st.rs.get("Vw")
        if ev.how != "ret" or ev.val is None: return
        t = st.truth(ev.val)
        if ev.val is TRUE and not st.rs.get("tf"): self.report(ev, "false-success", "success is returned although no flag of the event is known to be set", where=self.E.root)
        self.ok("result of the wait of an event", self.E.root)
        if w is None: return
        timed, pred, used = w.a
        if t is not True and not pred and not used: self.report(ev, "cut-short", "a spurious wake-up ends the wait", where=self.E.root)


class SyncBound(Rule):
    """the calling thread of a synchronous call only waits with a time limit, in total not longer than asked"""
    name = "sync-bound"

    def __init__(self, req):
        super().__init__()
        self.req = req
        self.waits = 0

    def handlers(self):
        return {"blocking": self.block, "cvwait": self.cv, "q_wait": self.qw, "sem_wait": self.sem, "promise_set": self.pset, "exit": self.exit}

    def start(self, st, root): st.rng[self.req] = (0, None)

    def pset(self, ev): ev.st.rs["Sset"] = TRUE

    def block(self, ev):
        st = ev.st
        self.ok("blocking operation of a synchronous call", ev.where())
        if ev.what.startswith("future::wait_"):
            self.waits += 1
            dur = getattr(ev, "dur", None)
            if "Sready" in st.rs and st.truth(cmp_("eq", st.rs["Sready"], C(0))) is True: return
            st.rs["Sready"] = ev.result
            if dur is None: return
            t = lin(dur[0]).scale(dur[1])
            if not atoms(t) <= {self.req}: return
            d = t - Lin(0, {self.req: 10 ** 6})
            if not d.zero: self.report(ev, "wrong-time", "the call waits %s ns for its result instead of %s ms" % (t, show(self.req)))
            if t.m:
                if "Sfull" in st.rs: self.report(ev, "waits-again", "the call waits again after it has waited for its whole time limit")
                st.rs["Sfull"] = TRUE
            return
        if ev.what.startswith("future::"):
            r = st.rs.get("Sready")
            if r is not None and st.truth(cmp_("eq", r, C(0))) is True: return
            if "Sset" in st.rs: return
            self.report(ev, "no-limit", "%s without a time limit: the result may never arrive" % ev.what)
            return
        if not ev.timed: self.report(ev, "no-limit", "%s without a time limit" % ev.what)

    def cv(self, ev):
        self.ok("blocking operation of a synchronous call", ev.where())
        if not ev.timed: self.report(ev, "no-limit", "a condition is waited for without a time limit")

    def qw(self, ev): self.report(ev, "no-limit", "a synchronous call waits for messages of a queue")

    def sem(self, ev):
        if ev.fname == "sem_wait": self.report(ev, "no-limit", "a semaphore is waited for without a time limit")

    def exit(self, ev): self.ok("end of a synchronous call", "%s:%s" % (self.E.root, ev.how))


class SyncMutexes(Rule):
    """mutexes that a synchronous call locks"""
    name = "sync-mutexes"

    def __init__(self):
        super().__init__()
        self.names = set()

    def handlers(self): return {"lock": self.lock}

    def lock(self, ev):
        if ev.lk != "mutex": return
        self.ok("mutex of a synchronous call", ev.where())
        self.names.add(self.E.nm(ev.mutex))


class HeldWhileWaiting(Rule):
    """no thread keeps a synchronous call waiting for a mutex while it waits for something else itself"""
    name = "sync-mutex"

    def __init__(self, names):
        super().__init__()
        self.names = names

    def handlers(self): return {"blocking": self.block, "cvwait": self.block, "q_lock": self.block, "q_wait": self.block, "sem_wait": self.block, "usercall": self.block, "sleep": self.block, "thread_join": self.block}

    def block(self, ev):
        self.ok("wait while no mutex of a synchronous call is held", ev.where())
        own = ev.mutex if ev.kind == "cvwait" else None
        if ev.kind == "sem_wait" and ev.fname == "sem_trywait": return
        for k, m in ev.st.locks:
            if k != "mutex" or m is own: continue
            n = self.E.nm(m)
            if n not in self.names: continue
            w = {"q_lock": "the wait for the lock of a queue", "q_wait": "the wait for messages", "sem_wait": "the wait for a semaphore", "cvwait": "the wait for a condition", "usercall": "the user's code", "thread_join": "the end of a thread"}.get(ev.kind) or getattr(ev, "what", ev.kind)
            self.report(ev, "held-while-waiting", "%s is locked during %s: a synchronous call that needs it waits as long, in addition to its time limit" % (n, w))
