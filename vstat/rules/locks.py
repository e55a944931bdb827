"""Rules about the inter-process queue lock, mutexes and data shared between threads."""
from terms import *
from engine import Rule
import re


class QueueLock(Rule):
    """operations on the shared segment happen between acquisition and release of its inter-process lock;
    the lock is released on every path, by its holder only, and nothing waits while it is held"""
    name = "queue-lock"

    def handlers(self):
        return {"q_push": self.op, "q_pop": self.op, "q_num": self.op, "q_space": self.op, "q_lock": self.lock, "q_unlock": self.unlock,
                "exit": self.exit, "blocking": self.block, "cvwait": self.block, "usercall": self.user, "thread_join": self.block, "loop": self.loop}

    def held(self, st, mq=None):
        return [m for k, m in st.locks if k == "rw" and (mq is None or m is mq)]

    def op(self, ev):
        self.ok("segment access under the lock", ev.where())
        if not self.held(ev.st, ev.mq):
            self.report(ev, "unlocked-access", "%s on the queue without its inter-process lock" % ev.call.nm.meth)

    def lock(self, ev):
        if ev.ok: self.ok("lock acquisition", ev.where())
        if ev.ok and len(self.held(ev.st, ev.mq)) >= 1:
            self.report(ev, "relock", "the queue lock is acquired while this thread holds it already (a path did not release it)")
        elif ev.ok and self.held(ev.st):
            self.report(ev, "nested", "the lock of a second queue is acquired while one is held")

    def unlock(self, ev):
        self.ok("lock release", ev.where())
        if not ev.held: self.report(ev, "unlock-not-held", "the queue lock is released on a path that does not hold it, its semaphore would admit two holders")

    def exit(self, ev):
        self.ok("exit without the lock", ev.E.root + ":" + ev.how)
        if self.held(ev.st): self.report(ev, "held-at-exit", "the queue lock is still held at the exit of %s (%s)" % (ev.E.root, ev.how), where=ev.E.root)

    def block(self, ev):
        w = getattr(ev, "what", None) or ev.kind
        self.ok("wait without the lock", ev.where())
        if self.held(ev.st): self.report(ev, "wait-with-lock", "%s waits while the inter-process queue lock is held, no other process can make progress" % w)

    def user(self, ev):
        self.ok("user code without the lock", ev.where())
        if self.held(ev.st): self.report(ev, "user-code-with-lock", "user code is called while the inter-process queue lock is held")

    def loop(self, ev): pass


class RwPrimitive(Rule):
    """the lock primitives themselves: acquisition succeeds exactly if the semaphore was decremented, release posts it once"""
    name = "queue-lock-primitive"

    def __init__(self):
        super().__init__()
        self.sems = {}     # method -> semaphore terms
        self.waits = {}

    def handlers(self):
        return {"sem_wait": self.wait, "sem_post": self.post, "exit": self.exit, "sem_open": self.opened}

    def wait(self, ev):
        if ev.ok: ev.st.rs["got"] = ev.st.rs.get("got", ()) + ((ev.sem),)
        self.ok("semaphore wait", ev.where())

    def post(self, ev):
        # the outcome of sem_post on a valid semaphore is always success; the failing branch is not a release
        if ev.ok: ev.st.rs["post"] = ev.st.rs.get("post", ()) + ((ev.sem),)
        else: ev.st.rs["postfail"] = (TRUE,)
        self.ok("semaphore post", ev.where())

    def opened(self, ev):
        if ev.ok: ev.st.rs["opened"] = ev.st.rs.get("opened", ()) + ((ev.name),)

    def exit(self, ev):
        st, m = ev.st, ev.E.root
        got, post = st.rs.get("got", ()), st.rs.get("post", ())
        fail = "postfail" in st.rs
        if ev.how != "ret": return
        if m == "lock":
            v = ev.val
            t = st.truth(v) if is_bool(v) or isc(v) else None
            net = len(got) - len(post)
            self.ok("lock: result agrees with the semaphore", "true" if t else "false")
            if t is True and net != 1: self.report(ev, "lock-without-wait", "the lock operation reports success on a path where the semaphore was not decremented once (%d)" % net, where="processRWLock")
            if t is False and net != 0 and not fail: self.report(ev, "lost-lock", "the lock operation reports failure although the semaphore was decremented", where="processRWLock")
            if t is True: self.sems.setdefault("lock", set()).update(got)
            if t is None: self.report(ev, "lock-result-unknown", "the result of the lock operation is unrelated to the outcome of the semaphore wait", where="processRWLock")
        elif m == "unlock":
            self.ok("unlock: semaphore posted once", str(len(post)))
            if fail: return
            if len(post) == 0 and self.valid(st): self.report(ev, "unlock-without-post", "the unlock operation does not post the semaphore on this path", where="processRWUnlock")
            if len(post) > 1: self.report(ev, "double-post", "the unlock operation posts the semaphore more than once", where="processRWUnlock")
            if got: self.report(ev, "unlock-waits", "the unlock operation waits for the semaphore", where="processRWUnlock")
            self.sems.setdefault("unlock", set()).update(post)

    def valid(self, st):
        """the queue is open: its pointers are not null on this path"""
        return not any(v and t.k == "cmp" and t.a[0] == "eq" and isc(t.a[2]) and t.a[2].a[0] == 0 and t.a[1].k == "ld" for t, v in st.facts.items())

    def finish(self):
        a, b = self.sems.get("lock", set()), self.sems.get("unlock", set())
        if a and b and a != b:
            self.violations[("different", "", "")] = {"rule": self.name, "kind": "different-semaphores", "where": "processRWLock / processRWUnlock", "function": "veigar::MessageQueue",
                "message": "the lock operation waits for %s, the unlock operation posts %s" % (sorted(map(show, a)), sorted(map(show, b))), "root": "", "callstack": [], "path": []}


class Deadlock(Rule):
    """mutex discipline: balanced on every exit, never locked twice, no user code / unbounded wait while held, acyclic order"""
    name = "deadlock"

    def __init__(self):
        super().__init__()
        self.edges = {}

    def handlers(self):
        return {"lock": self.lock, "unlock": self.unlock, "exit": self.exit, "usercall": self.user, "blocking": self.block, "cvwait": self.cv, "thread_join": self.join}

    def mx(self, st): return [m for k, m in st.locks if k == "mutex"]

    def name_of(self, k, m): return ("queue lock" if k == "rw" else self.E.nm(m))

    def lock(self, ev):
        k, m, st = ev.lk, ev.mutex, ev.st
        if k == "rw" : return   # bounded by its timeout
        self.ok("mutex acquisition", ev.where())
        for k2, m2 in st.locks:
            if k2 == "rw": continue
            if m2 is m:
                self.report(ev, "relock", "mutex %s is locked by a thread that holds it" % self.E.nm(m))
            else:
                e = (self.name_of(k2, m2), self.name_of(k, m))
                if e not in self.edges:
                    self.edges[e] = (ev.where(), ev.ownfunc(), ev.E.root, ev.st.trace_list())

    def unlock(self, ev):
        if ev.lk != "mutex": return
        self.ok("mutex release", ev.where())
        if not ev.held: self.report(ev, "unlock-not-held", "mutex %s is unlocked on a path that does not hold it" % self.E.nm(ev.mutex))

    def exit(self, ev):
        self.ok("exit without mutexes", ev.E.root + ":" + ev.how)
        for m in self.mx(ev.st):
            self.report(ev, "held-at-exit", "mutex %s is still locked at the exit of %s by %s" % (self.E.nm(m), ev.E.root, "an exception" if ev.how == "exc" else "return"), where="%s %s" % (ev.E.root, self.E.nm(m)))

    def user(self, ev):
        self.ok("user code without mutexes", ev.where())
        for m in self.mx(ev.st):
            self.report(ev, "user-code-with-mutex", "user code is called while %s is locked, it deadlocks if it uses the library" % self.E.nm(m))

    def block(self, ev):
        self.ok("blocking operation without mutexes", ev.where())
        for m in self.mx(ev.st):
            if not ev.timed or "join" in ev.what:
                self.report(ev, "blocks-with-mutex", "%s without a time limit while %s is locked" % (ev.what, self.E.nm(m)))

    def join(self, ev): pass

    def cv(self, ev):
        self.ok("condition wait with its own mutex only", ev.where())
        own = ev.mutex
        if ("mutex", own) not in ev.st.locks:
            self.report(ev, "wait-unlocked", "condition variable waits on a mutex that is not locked")
        for m in self.mx(ev.st):
            if m is not own and not ev.timed: self.report(ev, "blocks-with-mutex", "condition wait while %s is locked" % self.E.nm(m))
            elif m is not own: self.report(ev, "waits-with-mutex", "condition wait while %s is locked" % self.E.nm(m))

    def finish(self):
        g = {}
        for a, b in self.edges: g.setdefault(a, set()).add(b)

        def reach(a, b, seen):
            if a == b: return [a]
            seen.add(a)
            for c in sorted(g.get(a, ())):
                if c not in seen:
                    r = reach(c, b, seen)
                    if r: return [a] + r
            return None
        done = set()
        for (a, b), (w, f, root, tr) in sorted(self.edges.items()):
            cyc = reach(b, a, set())
            if cyc and a != b:
                k = frozenset(cyc)
                if k in done: continue
                done.add(k)
                self.violations[("cycle", w, f)] = {"rule": self.name, "kind": "lock-order-cycle", "where": w, "function": f, "root": root, "callstack": [], "path": tr,
                    "message": "%s is locked while %s is held, elsewhere the order is %s" % (b, a, " -> ".join(cyc))}
            elif a == b:
                self.violations[("self", w, f)] = {"rule": self.name, "kind": "lock-order-cycle", "where": w, "function": f, "root": root, "callstack": [], "path": tr,
                    "message": "two mutexes %s of different objects are nested" % a}


class Lockset(Rule):
    """every field that two threads can reach at the same time, one of them writing, has a lock that is held at all accesses"""
    name = "lockset"

    def __init__(self, roles):
        super().__init__()
        self.roles = roles          # root name -> role
        self.acc = {}               # field -> set of (W, role, phase, lockset, where, func)
        self.members = {}           # container -> threads started into it

    def handlers(self):
        return {"load": self.load, "store": self.store, "access": self.access, "atomic": self.atomic, "elem": self.elem,
                "thread_start": self.tstart, "thread_join": self.tjoin, "new": self.new, "opnew": self.new, "insert": self.insert, "iter_end": self.iter_end, "empty": self.emptied,
                "remove": self.remove, "rename": self.rename, "anycall": self.anycall}

    WRITERS = {"snprintf", "vsnprintf", "sprintf", "vsprintf", "memset", "memcpy", "memmove", "strcpy", "strncpy", "strcat", "strncat", "gettimeofday", "swprintf", "vswprintf", "time"}

    def anycall(self, ev):
        """variables with static storage that are handed to functions outside of the repository"""
        st, c = ev.st, ev.call
        if c.nm.base == "__cxa_guard_acquire": st.rs["guard"] = TRUE
        elif c.nm.base in ("__cxa_guard_release", "__cxa_guard_abort"): st.rs.pop("guard", None)
        elif c.nm.base in self.WRITERS and c.args and base_of(c.args[0]).k == "g": self.rec(ev, c.args[0], True, "write")

    def role(self):
        return self.roles.get(self.E.root, self.E.root)

    def field(self, addr):
        """class-level name of a cell, None if it is not part of a library object"""
        n = self.E.nm(addr)
        if "::" not in n or n.startswith(("*", "arg", "$", "%")): return None
        # elements of containers are owned by who took them out; the container itself is what is guarded
        return n

    def rec(self, ev, addr, w, what):
        b = base_of(addr)
        if b.k in ("al", "fn", "undef"): return
        if b.k == "g":
            g = self.E.P.globals.get(b.a[0], {})
            n = "global " + g.get("demangled", b.a[0])
            if b.a[0] == "errno" or b.a[0].startswith(("_ZTV", "_ZTI", "_ZTS", ".str", "__")): return
            if g.get("const") or g.get("tls") or g.get("decl", True): return
            if ev.st.rs.get("guard"): return              # initialised once, under the guard of the compiler
        elif b.k == "sym" and b.a[2] in ("heap", "fd", "map"):
            if not self.E.heap_shared or b in ev.st.rs.get("priv", frozenset()): return   # not visible to other threads
            n = self.field(addr)
            if n is None: return
        elif b.k == "sym" and b.a[2] == "elem":
            # elements looked at in place belong to their container
            c = b.a[3] if len(b.a) > 3 and type(b.a[3]) is T else None
            if c is None or base_of(c).k in ("al",): return
            if b in ev.st.rs.get("taken", frozenset()): return   # removed from its container before
            n = self.field(c)
            if n is None: return
            addr = c
        elif b.k == "param" and b.a[0] not in ("this", "v"): return   # objects of the caller
        else:
            n = self.field(addr)
            if n is None: return
        st = ev.st
        ls = frozenset(self.E.nm(m) if k == "mutex" else "queue lock" for k, m in st.locks)
        if self.role() == "life":
            ph = self.phase(st)
            if ph == "none": return
        else: ph = "-"
        self.acc.setdefault(n, {}).setdefault((w, self.role(), ph, ls), (ev.where(), ev.ownfunc(), what))
        self.ok("access to " + n, ev.where())

    def phase(self, st):
        """threads that may be running in this state of the lifecycle"""
        return st.rs.get("run", "none")

    def load(self, ev): self.rec(ev, ev.addr, False, "read")
    def store(self, ev): self.rec(ev, ev.addr, True, "write")
    def access(self, ev): self.rec(ev, ev.addr, ev.write, ev.what)

    def elem(self, ev): pass

    def atomic(self, ev): pass

    def new(self, ev):
        if self.E.heap_shared: ev.st.rs["priv"] = ev.st.rs.get("priv", frozenset()) | {ev.ptr}

    def tstart(self, ev):
        st = ev.st
        t = self.tname(ev)
        self.run_add(st, t)
        st.rs["priv"] = frozenset()
        st.rs["tmp"] = frozenset({(ev.thread, T("lit", t))})

    def run_add(self, st, t):
        run = st.rs.get("run", "none")
        s = set() if run == "none" else set(run.split("+"))
        s.add(t)
        st.rs["run"] = "+".join(sorted(s))

    def remove(self, ev):
        if ev.elem is not None: ev.st.rs["taken"] = ev.st.rs.get("taken", frozenset()) | {ev.elem}

    def rename(self, ev):
        t = ev.st.rs.get("taken", frozenset())
        if ev.sym in t or ev.old in t: ev.st.rs["taken"] = t - {ev.sym, ev.old}

    def gc(self, st):
        t = st.rs.get("taken")
        if t:
            live = st.reach(False)
            st.rs["taken"] = frozenset(x for x in t if x.syms <= live)

    def insert(self, ev):
        for a, t in ev.st.rs.get("tmp", frozenset()):
            if ev.src is a: self.members.setdefault(self.E.nm(ev.cont), set()).add(t.a[0])

    def tname(self, ev):
        t = ev.target
        if t is not None and t.k == "fn": return self.E.P.funcs[t.a[0]].nm.base
        return ev.ftype

    def gone(self, st, cont):
        j = self.members.get(self.E.nm(cont), set())
        run = st.rs.get("run", "none")
        if run == "none" or not j: return
        s = set(run.split("+")) - j
        st.rs["run"] = "+".join(sorted(s)) if s else "none"

    def tjoin(self, ev):
        b = base_of(ev.thread)
        if b.k == "sym" and b.a[2] == "elem" and len(b.a) > 3 and type(b.a[3]) is T: self.gone(ev.st, b.a[3])
        else: self.gone(ev.st, ev.thread)

    def iter_end(self, ev):
        if ev.empty: self.gone(ev.st, ev.cont)

    def emptied(self, ev):
        if ev.result: self.gone(ev.st, ev.cont)

    def finish(self):
        for n in sorted(self.acc):
            l = sorted(self.acc[n].items(), key=lambda x: str(x))
            for i, ((w1, r1, p1, s1), i1) in enumerate(l):
                for (w2, r2, p2, s2), i2 in l[i:]:
                    if not (w1 or w2): continue
                    if s1 & s2: continue
                    if not self.concurrent(r1, p1, r2, p2): continue
                    a, b = (i1, i2) if w1 else (i2, i1)
                    k = ("race", n, "")
                    if k in self.violations: continue
                    self.violations[k] = {"rule": self.name, "kind": "race", "where": a[0], "function": a[1], "root": r1, "callstack": [], "path": [], "field": n,
                        "message": "%s: %s in %s (%s, role %s, locks {%s}) and %s in %s (%s, role %s, locks {%s}) can run at the same time and share no lock" % (
                            n, a[2], a[1], a[0], r1 if a is i1 else r2, ", ".join(sorted(s1 if a is i1 else s2)), b[2], b[1], b[0], r2 if a is i1 else r1, ", ".join(sorted(s2 if a is i1 else s1)))}

    def concurrent(self, r1, p1, r2, p2):
        if r1 == "life" and r2 == "life": return False
        if "life" in (r1, r2):
            o, p = (r2, p1) if r1 == "life" else (r1, p2)
            if o == "api": return False      # the instance is initialised and uninitialised by one thread while no other uses it
            return o in p.split("+")
        return True
