"""Operating-system resources of the queues: ownership, names and roles."""
from terms import *
from engine import Rule
from ir import BrokenAnalysis
import re

O_CREAT = 64


class Resources(Rule):
    """descriptors, mappings, semaphore handles and their heap objects are released exactly once, names by their creator only"""
    name = "resources"
    NOUN = {"fd": "descriptor", "map": "mapping", "sem": "semaphore", "mem": "heap object", "name": "name"}

    def __init__(self, probe=()):
        super().__init__()
        self.probe = probe        # steps that may not create anything

    def handlers(self):
        return {"shm_open": self.shm_open, "fd_close": self.fd_close, "mmap": self.mmap, "munmap": self.munmap, "sem_open": self.sem_open, "sem_close": self.sem_close,
                "sem_wait": self.sem_use, "sem_post": self.sem_use, "opnew": self.opnew, "opdelete": self.opdelete, "shm_unlink": self.unlink, "sem_unlink": self.semunlink,
                "ftruncate": self.fd_use, "fstat": self.fd_use, "memset": self.mem_use, "memcpy": self.mem_use, "load": self.mem_access, "store": self.mem_access, "exit": self.exit}

    def live(self, st): return st.rs.get("res", frozenset())

    def dead(self, st): return st.rs.get("dead", frozenset())

    def add(self, ev, kind, v, x=NULL):
        st = ev.st
        self.ok("%s acquired" % self.NOUN[kind], ev.where())
        st.rs["dead"] = frozenset(d for d in self.dead(st) if not (d[0] == kind and d[1] is v))
        st.rs["res"] = self.live(st) | {(kind, v, x)}

    def release(self, ev, kind, v, what):
        """returns the record"""
        st = ev.st
        self.ok("%s released" % self.NOUN[kind], ev.where())
        for r in self.live(st):
            if r[0] == kind and r[1] is v:
                st.rs["res"] = self.live(st) - {r}
                st.rs["dead"] = self.dead(st) | {(kind, v)}
                return r
        if (kind, v) in self.dead(st):
            self.report(ev, "released-twice", "%s of a %s that has been released already" % (what, self.NOUN[kind]))
        elif isc(v) and kind == "fd":
            self.report(ev, "invalid-handle", "%s of an invalid descriptor" % what)
        return None

    def used(self, ev, kind, v, what):
        if (kind, v) in self.dead(ev.st):
            self.report(ev, "use-after-release", "%s uses a %s that has been released" % (what, self.NOUN[kind]))

    def flags(self, ev):
        f = ev.args[1]
        return f.a[0] if isc(f) else 0

    def shm_open(self, ev):
        if not ev.ok: return
        if self.flags(ev) & O_CREAT: self.add(ev, "name", ev.name)
        self.add(ev, "fd", ev.fd)
        if self.step in self.probe and self.flags(ev) & O_CREAT: self.report(ev, "probe-creates", "probing creates the shared memory object")

    def fd_close(self, ev): self.release(ev, "fd", ev.fd, "close")

    def fd_use(self, ev): self.used(ev, "fd", ev.fd, ev.kind)

    def mmap(self, ev):
        self.used(ev, "fd", ev.args[4], "mmap")
        if ev.ok: self.add(ev, "map", ev.ptr, ev.args[1])

    def munmap(self, ev):
        if ev.st.range(ev.ptr) == (-1, -1) or isc(ev.ptr):
            self.report(ev, "invalid-handle", "munmap of an address that was not mapped")
            return
        r = self.release(ev, "map", ev.ptr, "munmap")
        if r and r[2] is not ev.size and not (r[2].k == "ld" or ev.size.k == "ld") and not (r[2].k == "sym" or ev.size.k == "sym"):
            self.report(ev, "wrong-size", "munmap with a size that differs from the one of the mapping")

    def sem_open(self, ev):
        if ev.ok: self.add(ev, "sem", ev.ptr)
        if self.step in self.probe and self.flags(ev) & O_CREAT: self.report(ev, "probe-creates", "probing for a semaphore creates it")

    def sem_close(self, ev): 
        if isc(ev.sem): self.report(ev, "invalid-handle", "sem_close of an invalid handle")
        else: self.release(ev, "sem", ev.sem, "sem_close")

    def sem_use(self, ev): self.used(ev, "sem", ev.sem, ev.kind)

    def opnew(self, ev): self.add(ev, "mem", ev.ptr)

    def opdelete(self, ev):
        if ev.ptr.k == "sym": self.release(ev, "mem", ev.ptr, "delete")

    def mem_use(self, ev):
        for a in (ev.dst, getattr(ev, "src", None)):
            if a is not None: self.used(ev, "map", base_of(a), ev.kind)

    def mem_access(self, ev):
        b = base_of(ev.addr)
        if b.k != "sym": return
        self.used(ev, "map", b, "memory access")
        self.used(ev, "mem", b, "memory access")

    def unlink(self, ev):
        st = ev.st
        self.ok("segment name removed", ev.where())
        for r in self.live(st):
            if r[0] == "name" and r[1] is ev.name:
                st.rs["res"] = self.live(st) - {r}
                st.rs["dead"] = self.dead(st) | {("name", ev.name)}
                return
        if ("name", ev.name) in self.dead(st):
            self.report(ev, "unlinked-twice", "the name of the segment is removed although its creator has removed it already, it may belong to another process by now")
        else:
            self.report(ev, "unlinked-by-other", "the name of a segment is removed by an object that did not create it")

    def semunlink(self, ev): pass

    def exit(self, ev):
        st, step = ev.st, self.step
        if step in ("MessageQueue", "SharedMemory", "Semaphore"):
            self.forget(st)
            return
        t = None
        if ev.val is not None and (is_bool(ev.val) or isc(ev.val)): t = st.truth(ev.val)
        over = step == "close" or step.startswith("~") or step in self.probe
        if over or (step in ("create", "open") and t is False):
            self.ok("everything released after %s" % ("a failed " + step if not over else step), self.E.root)
            for r in sorted(self.live(st), key=lambda r: (r[0], r[1].id)):
                if r[0] == "mem" and step in ("create", "open") and not over: pass
                self.report(ev, "leak", "a %s is not released %s" % (self.NOUN[r[0]], "when %s fails half-way" % step if not over else "by %s" % step), where="%s (%s)" % (self.E.root.split("+")[0], self.NOUN[r[0]]) + ("" if over else " failed " + step))
            self.forget(st)

    def forget(self, st):
        st.rs.pop("res", None)
        if "dead" in st.rs: st.rs["dead"] = frozenset(d for d in st.rs["dead"] if d[0] == "name" and False)


def truth_pick(want):
    return lambda st, v: v is not None and st.truth(v) is want


def flat(t):
    """a concatenation as a list of strings and terms"""
    if t.k == "cat": 
        out = []
        for x in t.a:
            for y in flat(x):
                if out and isinstance(out[-1], str) and isinstance(y, str): out[-1] += y
                else: out.append(y)
        return out
    if t.k == "lit": return [t.a[0]]
    return [t]


class Roles(Rule):
    """what the primitives of an opened queue do with which named object"""
    name = "queue-names"

    def __init__(self):
        super().__init__()
        self.names = {}          # (create/open) -> {role: set of names}
        self.values = {}         # role -> set of initial values
        self.seen = set()

    def handlers(self):
        return {"sem_open": self.sem_open, "sem_wait": self.use, "sem_post": self.use, "shm_open": self.shm}

    def start(self, st, root): pass

    def sem_open(self, ev):
        if not ev.ok: return
        fl = ev.args[1].a[0] if isc(ev.args[1]) else 0
        val = ev.args[3] if len(ev.args) > 3 else NULL
        ev.st.rs["opens"] = frozenset(x for x in ev.st.rs.get("opens", frozenset()) if x[0] is not ev.ptr) | {(ev.ptr, ev.name, val if fl & O_CREAT else T("none"))}
        self.ok("semaphore opened", ev.where())

    def shm(self, ev):
        self.ok("segment opened", ev.where())
        self.names.setdefault(self.how, {}).setdefault("segment", set()).add(ev.name)

    def use(self, ev):
        if self.step not in ("processRWLock", "processRWUnlock", "waitForRead", "notifyRead"): return
        role = "lock" if "RW" in self.step else "signal"
        for p, n, v in ev.st.rs.get("opens", frozenset()):
            if p is ev.sem:
                self.names.setdefault(self.how, {}).setdefault(role, set()).add(n)
                self.seen.add((self.how, self.step))
                if self.how == "create": self.values.setdefault(role, set()).add(v)

    def bad(self, kind, msg, where="src/message_queue.cpp"):
        self.violations[(kind, where, msg)] = {"rule": self.name, "kind": kind, "where": where, "function": "veigar::MessageQueue", "message": msg, "root": "create/open", "callstack": [], "path": []}


def queue_roles(ctx):
    """runs create/open followed by each primitive and collects the names they use"""
    W = ctx.W
    r = Roles()
    for how in ("create", "open"):
        r.how = how
        E = W.engine([r], queue_prims=False)
        outs = W.sequence(E, [W.mqstep("MessageQueue"), W.mqstep(how, truth_pick(True))])
        if not outs: raise BrokenAnalysis("MessageQueue::%s never succeeds" % how)
        for prim in ("processRWLock", "processRWUnlock", "waitForRead", "notifyRead"):
            W.sequence(E, [W.mqstep(prim)], [s.clone() for s in outs])
            ctx.roots.append("ctor+%s+%s" % (how, prim))
        ctx.done(E, [r])
    return r
