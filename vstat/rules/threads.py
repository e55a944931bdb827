"""Life of the internal threads: started, asked to stop, woken, joined; state left behind by shutdown and failed start."""
from terms import *
from engine import Rule
from rules.wake import qname, WorkerInfo, Flags
from models import is_map
import re

CAP = 32


def obj(n):
    """the object a flag or condition variable belongs to"""
    return n.rsplit("/", 1)[0] if "/" in n else n.rsplit("::", 1)[0]


class WorkerUse(WorkerInfo):
    """what a thread procedure waits for, which flags end it and which queues it uses"""
    def __init__(self):
        super().__init__()
        self.used = set()
        self.ucvs = set()
        self.postexits = []      # flags seen TRUE at the exits that follow a wait

    def handlers(self):
        h = super().handlers()
        for k in ("q_lock", "q_unlock", "q_push", "q_pop", "q_num", "q_space", "q_notify"): h[k] = self.use
        return h

    def use(self, ev): self.used.add(qname(self.E, ev.mq))

    def qw(self, ev):
        super().qw(ev)
        self.use(ev)
        ev.st.rs["waited"] = TRUE

    def cv(self, ev):
        super().cv(ev)
        if not ev.timed: self.ucvs.add(self.E.fullname(ev.cv))
        ev.st.rs["waited"] = TRUE

    def exit(self, ev):
        super().exit(ev)
        if "waited" in ev.st.rs and ev.how == "ret": self.postexits.append(ev.st.rs.get("tf", frozenset()))

    def stop_flags(self):
        """flags that are TRUE at every exit after a wait; None if there is an exit that depends on something else; () if it never ends"""
        if not self.postexits: return ()
        if any(not t for t in self.postexits): return None
        return frozenset.intersection(*self.postexits) or None


class Threads(Rule):
    name = "threads"

    def __init__(self, infos):
        super().__init__()
        self.infos = infos            # target function name (mangled) -> WorkerUse
        self.started = {}             # lifecycle string -> set of multisets of targets
        self.inits = {}               # nstep -> set of (started targets, created queue suffixes) of successful inits
        self.conts = {}
        self.flagsets = {}

    def handlers(self):
        return {"thread_start": self.tstart, "thread_join": self.tjoin, "thread_detach": self.tdetach, "thread_move": self.tmove, "thread_dtor": self.tdtor, "thread_joinable": self.joinable,
                "insert": self.insert, "elem": self.elem, "iter_next": self.iter_next, "iter_end": self.iter_end, "clear": self.clear, "contdtor": self.contdtor, "swap": self.swap,
                "empty": self.empty, "store": self.store, "atomic": self.atomic, "q_notify": self.notify, "cvnotify": self.cvnotify, "q_create": self.create, "q_close": self.close,
                "exit": self.exit, "deref": self.deref, "remove": self.remove, "rename": self.rename}

    # ---- state: tc = {cont: (state, count, targets)}, run = {target: count}
    def g(self, st, k): return dict(st.rs.get("T" + k, frozenset()))

    def s(self, st, k, d):
        if d: st.rs["T" + k] = frozenset(d.items())
        else: st.rs.pop("T" + k, None)

    def iscont(self, ev):
        c = ev.cont
        r = self.conts.get((self.E, c))
        if r is None and getattr(ev, "targs", None):
            r = self.conts[(self.E, c)] = any(t.startswith("std::thread") and not t.startswith("std::thread::id") for t in ev.targs)
        return r

    def cs(self, st, c): return self.g(st, "c").get(c, ("empty", 0, frozenset()))

    def setcs(self, st, c, v):
        d = self.g(st, "c")
        if v is None: d.pop(c, None)
        else: d[c] = v
        self.s(st, "c", d)

    def thread(self, st, t): return st.mem.get(ps(t, "th"))

    # ---- threads
    def tstart(self, ev):
        st = ev.st
        t = ev.target.a[0] if ev.target is not None and ev.target.k == "fn" else self.lambda_target(ev)
        self.ok("thread started", ev.where())
        st.rs["Tlast"] = T("tgt", t or "?")
        run = self.g(st, "run")
        run[T("tgt", t or "?")] = min(run.get(T("tgt", t or "?"), 0) + 1, CAP)
        self.s(st, "run", run)
        st.rs["Tnew"] = frozenset(st.rs.get("Tnew", frozenset()) | {(t or "?", run[T("tgt", t or "?")])})
        i = self.infos.get(t)
        if not i: return
        fl = i.stop_flags()
        if fl:
            for a, v in self.g(st, "f").items():
                if v is TRUE and self.E.fullname(a) in fl:
                    self.report(ev, "stop-flag-set", "the thread is started while the flag that ends it (%s) is still set" % self.E.fullname(a))
        # requests to stop made before the thread runs do not count
        self.s(st, "f", {a: v for a, v in self.g(st, "f").items() if not (fl and self.E.fullname(a) in fl and v is TRUE)})

    def lambda_target(self, ev):
        n = ev.ftype.rstrip("&").strip()
        for f in self.E.P.funcs.values():
            if not f.decl and f.nm.clsfull == n and f.nm.meth == "operator()": return f.name
        return None

    def tjoin(self, ev):
        st = ev.st
        self.ok("thread joined", ev.where())
        th = ev.thread
        if th.k == "sym" and th.a[2] == "elem":
            c = th.a[3] if len(th.a) > 3 and type(th.a[3]) is T else None
            s = self.cs(st, c) if c is not None else None
            if s and s[0] != "empty":
                tgts = s[2]
                jd = self.g(st, "j")
                idx = th.a[4] if len(th.a) > 4 else None
                if idx == "iter": jd[th] = TRUE
                else:
                    n = jd.get(c, C(0)).a[0] + 1
                    jd[c] = C(min(n, CAP))
                    if n >= s[1] or (type(idx) is T and not isc(idx)): self.setcs(st, c, ("joined", s[1], s[2]))
                self.s(st, "j", jd)
            else: tgts = frozenset()
        else:
            tgts = self.g(st, "o").get(th)
            tgts = frozenset((tgts,)) if tgts is not None else frozenset()
            o = self.g(st, "o")
            o.pop(th, None)
            self.s(st, "o", o)
        for t in tgts: self.asked(ev, t.a[0])

    def asked(self, ev, t):
        """the thread that is joined has been asked to stop and woken"""
        i = self.infos.get(t)
        if not i: return
        st = ev.st
        nm = self.E.P.funcs[t].nm.base
        fl = i.stop_flags()
        if fl:
            set_ = {self.E.fullname(a) for a, v in self.g(st, "f").items() if v is TRUE}
            miss = fl - set_
            if miss: self.report(ev, "not-asked-to-stop", "a thread (%s) is joined although %s, which ends it, has not been set" % (nm, ", ".join(sorted(miss))))
            elif not i.timed:
                self.ok("waiting thread woken before it is joined", ev.where())
                woken = st.rs.get("Tw", frozenset())
                for q in i.queues:
                    n = max([v.a[0] for k, v in self.g(st, "n").items() if self.names(st, k) & {q}] or [0])
                    need = self.g(st, "run").get(T("tgt", t), 1)
                    if n < need:
                        self.report(ev, "not-woken", "threads (%s) that wait for %s without a time limit are joined, but the queue was signalled %s" % (nm, q, "%d times for %d threads" % (n, need) if n else "not once after the stop flag was set"))
                for cv in i.ucvs:
                    if cv not in {x.a[0] for x in woken if x.k == "cvn"} and not i.queues:
                        self.report(ev, "not-woken", "a thread (%s) that waits without a time limit is joined, but %s is not notified after the stop flag was set" % (nm, cv))

    def names(self, st, mq):
        """fields that refer to a queue"""
        if mq.k == "ld": return {self.E.fullname(mq.a[0])}
        return {self.E.fullname(k) for k, v in st.mem.items() if v is mq}

    def tdetach(self, ev): self.report(ev, "detached", "a thread is detached, it may outlive the instance")

    def joinable(self, ev):
        st, th = ev.st, ev.thread
        if th.k == "sym" and th.a[2] == "elem" and len(th.a) > 3 and type(th.a[3]) is T:
            s = self.cs(st, th.a[3])
            if s[0] == "joined": st.mem[ps(th, "th")] = FALSE

    def tmove(self, ev):
        st = ev.st
        o = self.g(st, "o")
        t = o.pop(ev.src, None) or st.rs.get("Tlast")
        if ev.assign and o.get(ev.thread) is not None: self.report(ev, "overwritten", "a thread object is overwritten while its thread runs")
        if self.thread(st, ev.thread) is TRUE and t is not None: o[ev.thread] = t
        self.s(st, "o", o)

    def tdtor(self, ev):
        st = ev.st
        if self.thread(st, ev.thread) is TRUE:
            self.report(ev, "destroyed", "a thread object is destroyed while its thread runs, the process is terminated")
        o = self.g(st, "o")
        if o.pop(ev.thread, None) is not None: self.s(st, "o", o)

    # ---- containers of threads
    def insert(self, ev):
        if not self.iscont(ev): return
        st = ev.st
        s = self.cs(st, ev.cont)
        t = st.rs.get("Tlast")
        if ev.src is not None: st.mem[ps(ev.src, "th")] = FALSE
        if s[0] == "joined":
            if s[1] and self.name == "restart": self.report(ev, "thread-left", "the thread objects of the previous run are still in %s when new threads are started" % self.E.nm(ev.cont))
            s = ("empty", 0, frozenset())
        self.setcs(st, ev.cont, ("running", min(s[1] + 1, CAP), s[2] | ({t} if t is not None else set())))

    def elem(self, ev):
        if not self.iscont(ev): return
        st = ev.st
        s = self.cs(st, ev.cont)
        if s[0] == "running" and ev.how == "iter": self.setcs(st, ev.cont, ("walk", s[1], s[2]))

    def iter_next(self, ev):
        if not self.iscont(ev): return
        st = ev.st
        d = self.g(st, "j")
        if type(ev.elem) is T and d.pop(ev.elem, None) is None:
            s = self.cs(st, ev.cont)
            if s[0] == "walk": self.setcs(st, ev.cont, ("kept", s[1], s[2]))
        self.s(st, "j", d)
        # signals given once per thread
        n = {k: (C(CAP) if v.k == "per" else v) for k, v in self.g(st, "n").items()}
        self.s(st, "n", n)

    def iter_end(self, ev):
        if not self.iscont(ev): return
        st = ev.st
        s = self.cs(st, ev.cont)
        if ev.empty:
            if s[0] in ("running", "walk", "kept"): st.rs["Tbad"] = TRUE    # the container holds threads: this branch does not exist
            return
        if s[0] == "walk": self.setcs(st, ev.cont, ("joined", s[1], s[2]))
        elif s[0] == "kept": self.setcs(st, ev.cont, ("running", s[1], s[2]))

    def feasible(self, st): return True

    def gone(self, ev, c, what):
        s = self.cs(ev.st, c)
        if "Tbad" in ev.st.rs: return
        if s[0] in ("running", "walk", "kept"):
            self.report(ev, "destroyed", "%s of %s while its threads run, the process is terminated" % (what, self.E.nm(c)))

    def clear(self, ev):
        if not self.iscont(ev): return
        self.gone(ev, ev.cont, "clear")
        self.setcs(ev.st, ev.cont, None)

    def contdtor(self, ev):
        if not self.iscont(ev): return
        self.gone(ev, ev.cont, "destruction")
        self.setcs(ev.st, ev.cont, None)

    def remove(self, ev):
        if not self.iscont(ev): return
        st = ev.st
        s = self.cs(st, ev.cont)
        if s[0] in ("running", "walk", "kept"):
            if ev.elem is None or st.mem.get(ps(ev.elem, "th")) is not FALSE:
                if "Tbad" not in st.rs: self.report(ev, "destroyed", "a thread is removed from %s while it runs, the process is terminated" % self.E.nm(ev.cont))
                return
            # one joined thread less
            jd = self.g(st, "j")
            n = s[1] - 1
            if ev.cont in jd: jd[ev.cont] = C(max(jd[ev.cont].a[0] - 1, 0))
            self.s(st, "j", jd)
            self.setcs(st, ev.cont, (s[0], n, s[2]) if n > 0 else ("joined", 0, s[2]))

    def swap(self, ev):
        if not (self.iscont(ev) or self.conts.get((self.E, ev.other))): return
        st = ev.st
        self.conts[(self.E, ev.cont)] = self.conts[(self.E, ev.other)] = True
        a, b = self.cs(st, ev.cont), self.cs(st, ev.other)
        if ev.move:
            self.gone(ev, ev.cont, "assignment")
            a = ("empty", 0, frozenset())
        self.setcs(st, ev.cont, b)
        self.setcs(st, ev.other, a)

    def empty(self, ev):
        pass

    def rename(self, ev):
        pass

    # ---- flags and wake-ups
    def flag(self, ev, addr, val):
        st = ev.st
        if val not in (TRUE, FALSE): return
        b = base_of(addr)
        if b.k == "al": return
        f = self.g(st, "f")
        f[addr] = val
        self.s(st, "f", f)
        if val is TRUE:
            # wake-ups given before do not make a thread look at this flag
            n = self.E.fullname(addr)
            w = frozenset(x for x in st.rs.get("Tw", frozenset()) if obj(x.a[0]) != obj(n))
            if w: st.rs["Tw"] = w
            else: st.rs.pop("Tw", None)
            qs = set().union(*[i.queues for i in self.infos.values() if n in (i.stop_flags() or ())])
            if qs: self.s(st, "n", {k: v for k, v in self.g(st, "n").items() if not self.names(st, k) & qs})

    def store(self, ev):
        if isc(ev.val) and ev.val in (TRUE, FALSE): self.flag(ev, ev.addr, ev.val)

    def atomic(self, ev):
        if ev.opname in ("store", "operator=", "exchange") and getattr(ev, "val", None) is not None: self.flag(ev, ev.addr, ev.val)
        elif ev.opname == "test_and_set": self.flag(ev, ev.addr, TRUE)
        elif ev.opname == "clear": self.flag(ev, ev.addr, FALSE)

    def notify(self, ev):
        st = ev.st
        n = self.g(st, "n")
        walking = any(v[0] in ("walk", "kept") for v in self.g(st, "c").values())
        old = n.get(ev.mq, C(0))
        if walking: n[ev.mq] = T("per")
        elif old.k != "per": n[ev.mq] = C(min(old.a[0] + 1, CAP))
        self.s(st, "n", n)

    def cvnotify(self, ev):
        ev.st.rs["Tw"] = ev.st.rs.get("Tw", frozenset()) | {T("cvn", self.E.fullname(ev.cv))}

    # ---- queues
    def create(self, ev):
        st = ev.st
        q = self.g(st, "q")
        if ev.ok:
            q[ev.mq] = TRUE
            st.rs["Tsuf"] = st.rs.get("Tsuf", frozenset()) | {T("suf", show(ev.path))}
        else: st.rs["Tfail"] = TRUE
        self.s(st, "q", q)

    def close(self, ev):
        st = ev.st
        q = self.g(st, "q")
        q.pop(ev.mq, None)
        self.s(st, "q", q)
        ns = self.names(st, ev.mq)
        if not ns or "Tbad" in st.rs: return
        for t, i in self.infos.items():
            if i.used & ns and self.running(st, t):
                self.report(ev, "closed-in-use", "%s is closed while a thread that uses it (%s) may run" % (sorted(i.used & ns)[0], self.E.P.funcs[t].nm.base))
        self.ok("queue closed after the threads that use it were joined", ev.where())

    def running(self, st, t):
        t = T("tgt", t)
        for c, s in self.g(st, "c").items():
            if s[0] in ("running", "walk", "kept") and t in s[2]: return True
        return t in self.g(st, "o").values()

    def deref(self, ev):
        if self.mode == "fail" and ev.ptr is NULL:
            self.report(ev, "null", "something that was not created is dereferenced after initialisation failed")

    # ---- ends of the lifecycle steps
    mode = "normal"

    def left(self, ev, what):
        st = ev.st
        if "Tbad" in st.rs: return
        for c, s in sorted(self.g(st, "c").items(), key=lambda x: x[0].id):
            if s[0] in ("running", "walk", "kept"):
                self.report(ev, "not-joined", "threads in %s are still running when %s" % (self.E.nm(c), what), where=self.E.nm(c))
        for o, t in sorted(self.g(st, "o").items(), key=lambda x: x[0].id):
            if self.thread(st, o) is TRUE: self.report(ev, "not-joined", "the thread of %s is still running when %s" % (self.E.nm(o), what), where=self.E.nm(o))

    def exit(self, ev):
        st = ev.st
        if "Tbad" in st.rs: return
        step = self.step
        if ev.how != "ret": return
        self.ok("end of " + step, self.E.root)
        if step == "uninit":
            self.left(ev, "uninit returns")
            self.ended(st)
        elif step == "init":
            t = st.truth(ev.val) if ev.val is not None else None
            if t is True:
                key = (st.rs.get("Tnew", frozenset()), st.rs.get("Tsuf", frozenset()), self.setflags(st))
                self.inits.setdefault(self.nstep, set()).add(key)
                if "Tfail" in st.rs: self.report(ev, "success-after-failure", "init reports success although a step failed")
            elif t is False:
                self.left(ev, "a failed init returns")
                if self.mode == "fail": self.failed(ev)
                self.ended(st)
        if step in ("init", "uninit"):
            for k in ("Tnew", "Tsuf", "Tfail"): st.rs.pop(k, None)

    def ended(self, st):
        for k in ("run", "j", "n"): self.s(st, k, {})
        st.rs.pop("Tw", None)

    def setflags(self, st):
        this = T("param", "this")
        return frozenset((self.E.fullname(a), v is TRUE) for a, v in self.g(st, "f").items() if self.reach(st, base_of(a)))

    def reach(self, st, b):
        if b.k == "param": return True
        return b in self.reachable(st)

    def reachable(self, st):
        """objects reachable from the instance"""
        live = set()
        pend = list(st.mem.items())
        while True:
            n = len(live)
            rest = []
            for k, v in pend:
                kb = base_of(k)
                if kb.k == "al": continue
                if kb.k == "param" or kb in live: live |= v.syms
                else: rest.append((k, v))
            pend = rest
            if len(live) == n: return live

    nfail = 0

    def failed(self, ev):
        st = ev.st
        self.nfail += 1
        live = self.reachable(st)
        for m in sorted(self.g(st, "q"), key=lambda m: m.id):
            if m in live:
                self.report(ev, "queue-left", "a queue created by the failed initialisation is neither closed nor dropped", where="queue of " + "/".join(sorted(self.names(st, m))))
        self.s(st, "q", {})


class Restart(Threads):
    """what the second initialisation does and leaves, compared with the first"""
    name = "restart"

    def __init__(self, infos):
        super().__init__(infos)
        self.second = 0

    def create(self, ev):
        super().create(ev)
        if not ev.ok: return
        st = ev.st
        cells = sorted("%s=%s" % (self.E.nm(k), show(v)) for k, v in st.mem.items() if base_of(k) is ev.mq and "param" in show(v) or base_of(k) is ev.mq and "arg:" in show(v))
        st.rs["Tcap"] = st.rs.get("Tcap", frozenset()) | {T("cap", show(ev.path), "; ".join(cells))}

    def exit(self, ev):
        st = ev.st
        if ev.how == "ret" and "Tbad" not in st.rs:
            if self.step == "uninit":
                live = self.reachable(st)
                for m in sorted(self.g(st, "q"), key=lambda m: m.id):
                    if m in live: self.report(ev, "queue-left", "a queue of the previous run is still open and referred to after uninit", where="queue of " + "/".join(sorted(self.names(st, m))))
                self.s(st, "q", {})
            if self.step == "init" and (st.truth(ev.val) if ev.val is not None else None) is True:
                self.sigs = getattr(self, "sigs", {})
                tg = {}
                for t, n in st.rs.get("Tnew", frozenset()): tg[t] = max(tg.get(t, 0), n)
                un = lambda s: re.sub(r"@\d+", "", s) if True else s
                raw = [x.a for x in st.rs.get("Tcap", frozenset())]
                sig = (frozenset(tg.items()), frozenset((un(a), un(b)) for a, b in raw), frozenset(n for n, v in self.setflags(st) if v))
                # parameters of another initialisation
                bad = frozenset(re.findall(r"arg:(\w+)(?!\w|@)", " ".join(a + " " + b for a, b in raw))) if self.nstep > 1 else frozenset()
                self.sigs.setdefault(self.nstep, {}).setdefault(sig, (ev, bad))
                if bad - {"this"}:
                    self.report(ev, "old-parameters", "the second initialisation uses parameters of the first one (%s)" % ", ".join(sorted(bad - {"this"})))
            if self.step in ("init", "uninit"): st.rs.pop("Tcap", None)
        super().exit(ev)

    def finish(self):
        sigs = getattr(self, "sigs", {})
        ks = sorted(sigs)
        if not ks: return False
        first = sigs[ks[0]]
        for k in ks[1:]:
            for sig, (ev, _) in sigs[k].items():
                if sig in first: continue
                best = min(first, key=lambda f: sum(a != b for a, b in zip(f, sig)))
                nm = lambda t: self.E.P.funcs[t].nm.base if t in self.E.P.funcs else t
                if sig[0] != best[0]:
                    self.report(ev, "threads-differ", "the second initialisation starts other threads than the first: %s instead of %s" % (sorted((nm(t), n) for t, n in sig[0]), sorted((nm(t), n) for t, n in best[0])))
                if sig[1] != best[1]:
                    self.report(ev, "queues-differ", "the second initialisation creates other queues than the first: %s instead of %s" % (sorted(sig[1]), sorted(best[1])))
                if sig[2] - best[2]:
                    self.report(ev, "flag-left", "after the second initialisation %s is still set, which is not after the first" % ", ".join(sorted(sig[2] - best[2])))
        return True
