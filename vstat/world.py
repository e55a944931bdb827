"""The roots of the analysis (public API, thread procedures, bound functors), and the meaning of the operations of the
message queue as seen by its clients.  The queue's own implementation is analysed separately."""
from terms import *
from ir import Program, BrokenAnalysis, strip_tmpl, REPO
from engine import Engine, State, Rule
import models
import re, time

Q = "veigar::MessageQueue::"
OPAQUE = ["veigar::log", "veigar::StringHelper::StringPrintf"]


# ------------------------------------------------------------------ queue operations seen from outside
def q_lock(E, st, c):
    mq = c.args[0]
    s2 = st.clone()
    E.emit("q_lock", s2, c, mq=mq, ok=False, timeout=c.args[1])
    s2.note("%s: queue lock of %s times out" % (c.where(), E.nm(mq)))
    E.emit("lock", st, c, mutex=mq, lk="rw")
    E.emit("q_lock", st, c, mq=mq, ok=True, timeout=c.args[1])
    E.sync(st)
    if ("rw", mq) in st.locks: return [(s2, "ret", FALSE)]   # its own holder cannot acquire it again
    st.locks = st.locks + (("rw", mq),)
    st.note("%s: queue lock of %s acquired" % (c.where(), E.nm(mq)))
    return [(st, "ret", TRUE), (s2, "ret", FALSE)]


def q_unlock(E, st, c):
    mq = c.args[0]
    held = ("rw", mq) in st.locks
    E.emit("q_unlock", st, c, mq=mq, held=held)
    models.unlock_event(E, st, c, mq, "rw")
    st.note("%s: queue lock of %s released" % (c.where(), E.nm(mq)))


def two(E, st, c, kind, **kw):
    s2 = st.clone()
    E.emit(kind, st, c, ok=True, **kw)
    E.emit(kind, s2, c, ok=False, **kw)
    st.note("%s: %s -> true" % (c.where(), c.nm.meth))
    s2.note("%s: %s -> false" % (c.where(), c.nm.meth))
    return [(st, "ret", TRUE), (s2, "ret", FALSE)]


def q_push(E, st, c):
    return two(E, st, c, "q_push", mq=c.args[0], data=c.args[1], size=c.args[2])


def q_pop(E, st, c):
    w = E.fresh(st, c.label("w"), "int", desc="written")
    s2, s3 = st.clone(), st.clone()
    out = c.args[3]
    st.mem[out] = w
    st.rng[w] = (1, None)
    E.emit("q_pop", st, c, mq=c.args[0], buf=c.args[1], cap=c.args[2], ok=True, written=w)
    st.note("%s: popFront -> true" % c.where())
    s2.mem[out] = C(0)
    E.emit("q_pop", s2, c, mq=c.args[0], buf=c.args[1], cap=c.args[2], ok=False, written=C(0))
    s2.note("%s: popFront -> false, nothing read" % c.where())
    s3.mem[out] = w
    s3.rng[w] = (1, None)
    E.emit("q_pop", s3, c, mq=c.args[0], buf=c.args[1], cap=c.args[2], ok=False, written=w)
    s3.note("%s: popFront -> false, buffer too small" % c.where())
    return [(st, "ret", TRUE), (s2, "ret", FALSE), (s3, "ret", FALSE)]


def q_num(E, st, c):
    r = models.fresh(E, st, c, "int")
    E.emit("q_num", st, c, mq=c.args[0], num=r)
    return r


def q_space(E, st, c):
    s2, s3 = st.clone(), st.clone()
    out = c.args[2]
    for s, ok, w in ((st, True, TRUE), (s2, False, TRUE), (s3, False, FALSE)):
        s.mem[out] = w
        E.emit("q_space", s, c, mq=c.args[0], size=c.args[1], ok=ok, waitable=w is TRUE)
        s.note("%s: checkSpaceSufficient -> %s%s" % (c.where(), ok, "" if ok else ", waitable" if w is TRUE else ", never"))
    return [(st, "ret", TRUE), (s2, "ret", FALSE), (s3, "ret", FALSE)]


def q_wait(E, st, c):
    E.emit("blocking", st, c, what="MessageQueue::waitForRead", timed=isc(c.args[1]) and c.args[1].a[0] >= 0)
    E.sync(st)
    return two(E, st, c, "q_wait", mq=c.args[0], ms=c.args[1])


def q_notify(E, st, c):
    E.emit("q_notify", st, c, mq=c.args[0])
    st.note("%s: notifyRead" % c.where())


def q_create(E, st, c):
    return two(E, st, c, "q_create", mq=c.args[0], path=models.content(E, st, c.args[1]))


def q_open(E, st, c):
    return two(E, st, c, "q_open", mq=c.args[0], path=models.content(E, st, c.args[1]))


def q_close(E, st, c):
    E.emit("q_close", st, c, mq=c.args[0])


QPRIMS = {Q + "processRWLock": q_lock, Q + "processRWUnlock": q_unlock, Q + "pushBack": q_push, Q + "popFront": q_pop,
          Q + "msgNumber": q_num, Q + "checkSpaceSufficient": q_space, Q + "waitForRead": q_wait, Q + "notifyRead": q_notify,
          Q + "create": q_create, Q + "open": q_open, Q + "close": q_close}
for _n in ("isAlive",):
    pass


def m_log(E, st, c):
    E.emit("log", st, c)
    return None


def m_printf(E, st, c):
    """formats its arguments into the returned string"""
    a = list(c.args)
    dest = a.pop(0)
    fmt = models.cstr_content(E, st, a[0])
    st.mem[ps(dest, "s")] = T("fmt", fmt, *a[1:]) if getattr(E, "keep_fmt", False) else \
        models.TEXT if fmt.k == "lit" and re.sub(r"%[-+ #0]*[\d*]*(\.[\d*]+)?[hlLqjzt]*[a-zA-Z%]", "", fmt.a[0]) else T("fmt", fmt)
    return None


def std_prims(P):
    """variadic helpers of the library: loggers and formatters"""
    out = {}
    for f in P.funcs.values():
        if f.decl or not P.own(f): continue
        if f.nm.params and f.nm.params[-1] == "...":
            out[f.nm.base] = m_printf if f.args and f.args[0][2] == "sret" else m_log
    return out


class FillCollector(Rule):
    name = "filled"

    def __init__(self):
        super().__init__()
        self.names = set()

    def handlers(self): return {"insert": self.on, "swap": self.swap}

    def on(self, ev):
        if base_of(ev.cont).k != "al": self.names.add(self.E.nm(ev.cont))

    def swap(self, ev):
        for x in (ev.cont, ev.other):
            if base_of(x).k != "al": self.names.add(self.E.nm(x))


class World:
    def __init__(self, P=None, max_states=600000, join_limit=20000):
        self.P = P or Program()
        self.max_states, self.join_limit = max_states, join_limit
        self.printf = std_prims(self.P)
        self._threads = None
        self.stats = {}

    # ---------------------------------------------------------------- engines
    def engine(self, rules, queue_prims=True, prims=None, opaque=()):
        pr = dict(self.printf)
        if queue_prims: pr.update(QPRIMS)
        pr.update(prims or {})
        return Engine(self.P, rules, pr, list(opaque), self.max_states, self.join_limit)

    def note_stats(self, E, root):
        self.stats[root] = {"functions": len(E.funcs_done), "blocks": len(E.blocks_done), "states": E.nstates, "steps": E.steps}

    # ---------------------------------------------------------------- anchors
    def method(self, cls, name, n=None):
        fs = [f for f in self.P.find("%s::%s" % (cls, name)) if n is None or len(f.nm.params) == n]
        # base-object and complete-object constructors are the same function twice
        if len(fs) > 1:
            c1 = [f for f in fs if "C1E" in f.name or "D1E" in f.name]
            c2 = [f for f in fs if "C2E" in f.name or "D2E" in f.name]
            fs = (c2 or c1 or fs)[:1] if (c1 or c2) else fs
        return fs

    def api(self):
        """public entry points that a user thread may call at any time on an initialised instance: (name, function)"""
        out = []
        for f in self.P.funcs.values():
            if f.decl: continue
            if f.nm.base.startswith("vinst::root_") and f.nm.base != "vinst::root_convert": out.append((f.nm.base[7:], f))
        for m in ("unbind", "releaseCall", "bindNames", "channelName", "msgQueueCapacity", "expectedMsgMaxSize", "setTimeoutOfRWLock", "timeoutOfRWLock", "isInit"):
            for f in self.method("veigar::Veigar", m): out.append((m, f))
        if len(out) < 12: raise BrokenAnalysis("public API not found: only %s" % [n for n, _ in out])
        return sorted(out, key=lambda x: x[0])

    def lifecycle_functions(self):
        r = {}
        for k, m, n in (("ctor", "Veigar", 0), ("init", "init", None), ("uninit", "uninit", None), ("dtor", "~Veigar", None)):
            fs = self.method("veigar::Veigar", m, n)
            if len(fs) != 1: raise BrokenAnalysis("veigar::Veigar::%s not found" % m)
            r[k] = fs[0]
        return r

    def args_of(self, f, this=None, tag=""):
        out = []
        for i, a in enumerate(f.args):
            if this is not None and i == 0: out.append(this)
            else: out.append(T("param", (a[0] or "a%d" % i) + tag))
        return out

    def thread_roots(self):
        """procedures started as threads by init"""
        if self._threads is None:
            col = ThreadCollector()
            E = self.engine([col])
            self.lifecycle(E, ("ctor", "init"))
            self._threads = sorted(col.targets.items())
            if not self._threads: raise BrokenAnalysis("no thread procedure found")
        return [(self.P.funcs[n].nm.base, self.P.funcs[n], k) for n, k in self._threads]

    def functors(self):
        """the functors that bind stores: bodies of the lambdas created by bind"""
        out = []
        for f in self.P.funcs.values():
            if not f.decl and f.nm.meth == "operator()" and f.nm.params and len(f.nm.params) == 1 and "veigar_msgpack" in f.nm.params[0] and self.P.own(f):
                out.append((f.nm.dem[:100], f))
        return out

    _filled = None

    def filled(self):
        """names of the containers that calls from outside or the started threads add elements to"""
        if self._filled is None:
            self._filled = set()
            col = FillCollector()
            for n, f in self.api():
                if n in ("uninit", "init"): continue
                self.run(self.engine([col]), f, n)
            for n, f, _ in self.thread_roots(): self.run(self.engine([col]), f, n)
            self._filled = col.names
        return self._filled

    def in_use(self, E, st):
        """time passes between two steps: the containers that are filled meanwhile are no longer known to be empty"""
        for k in [k for k in st.mem if k.k == "ps" and k.a[1] in ("ne", "front", "back")]:
            if E.nm(k.a[0]) in self.filled(): del st.mem[k]

    # ---------------------------------------------------------------- runs
    def run(self, E, f, name, st=None, this=None):
        outs = E.run_root(f, self.args_of(f, this), st, name)
        self.note_stats(E, name)
        return outs

    def lifecycle(self, E, steps=("ctor", "init", "uninit", "dtor"), pick=None, st=None):
        """runs the steps one after another on one instance; pick(step, state, ret) selects the states that go on"""
        fs = self.lifecycle_functions()
        this = T("param", "this")
        cur = [st] if st is not None else [State()]
        for n, step in enumerate(steps):
            nxt, seen = [], set()
            for s in cur:
                f = fs[step]
                if step == "init":
                    s.envs[0]["#self"] = this
                for r in E.rules:
                    r.step = step
                    r.nstep = n
                E.root = "+".join(steps[:n + 1])
                rep = steps[:n].count(step)
                fr_args = self.args_of(f, this, "@%d" % (rep + 1) if rep else "")
                if n == 0:
                    outs = E.run_root(f, fr_args, s, E.root)
                else:
                    outs = E.exec_function(f, fr_args, s, E.frame(f, None, None))
                    for s2, k, v in outs:
                        E.emit("exit", s2, frame=E.frame(f, None, None), ins=None, how=k, val=v)
                        if k == "exc": E.emit("uncaught", s2, frame=E.frame(f, None, None), ins=None, exc=v)
                for s2, k, v in outs:
                    if k != "ret": continue
                    if pick and not pick(step, s2, v): continue
                    if step == "init" and n + 1 < len(steps): self.in_use(E, s2)
                    s2.trace = (s2.trace, "---- %s returns %s" % (step, show(v) if v is not None else ""))
                    key = s2.key()
                    if key in seen: continue
                    seen.add(key)
                    nxt.append(s2)
            cur = nxt
        self.note_stats(E, "+".join(steps))
        return cur


    def sequence(self, E, steps, starts=None):
        """runs functions one after another; step = (name, function, args, pick(state, ret) or None).  Returns the states after the last one"""
        cur = starts if starts is not None else [State()]
        names = []
        for n, (name, f, args, pick) in enumerate(steps):
            nxt, seen = [], set()
            names.append(name)
            for s in cur:
                for r in E.rules:
                    r.step, r.nstep = name, n
                E.root = "+".join(names)
                if n == 0 and starts is None:
                    outs = E.run_root(f, args, s, E.root)
                else:
                    outs = E.exec_function(f, args, s, E.frame(f, None, None))
                    for s2, k, v in outs:
                        E.emit("exit", s2, frame=E.frame(f, None, None), ins=None, how=k, val=v)
                for s2, k, v in outs:
                    if k != "ret": continue
                    if pick and not pick(s2, v): continue
                    s2.trace = (s2.trace, "---- %s returns %s" % (name, show(v) if v is not None else ""))
                    key = s2.key()
                    if key in seen: continue
                    seen.add(key)
                    nxt.append(s2)
            cur = nxt
        self.note_stats(E, "+".join(names))
        return cur

    def mq(self, name):
        """the function of a queue method"""
        n = 2 if name == "MessageQueue" else None
        fs = self.method("veigar::MessageQueue", name, n)
        if len(fs) != 1: raise BrokenAnalysis("MessageQueue::%s not found" % name)
        return fs[0]

    def mqstep(self, name, pick=None, args=None):
        f = self.mq(name)
        this = T("param", "this")
        if args is None:
            args = [this]
            for i, a in enumerate(f.args[1:]): args.append(T("param", "%s.%s" % (name, a[0] or "a%d" % i) if name not in ("create", "open") else "path" if i == 0 else a[0]))
        return (name, f, args, pick)


class ThreadCollector(Rule):
    name = "threads"

    def __init__(self):
        super().__init__()
        self.targets = {}

    def handlers(self):
        return {"thread_start": self.on}

    def on(self, ev):
        t = ev.target
        if t is not None and t.k == "fn":
            self.targets[t.a[0]] = ev.func()
        else:
            m = re.search(r"\{lambda|\$_", ev.ftype)
            n = ev.ftype.rstrip("&").strip()
            fs = [f for f in self.E.P.funcs.values() if not f.decl and f.nm.clsfull == n and f.nm.meth == "operator()"]
            if fs: self.targets[fs[0].name] = ev.func()
            else: raise BrokenAnalysis("thread procedure not resolved at %s (%s)" % (ev.where(), ev.ftype))
